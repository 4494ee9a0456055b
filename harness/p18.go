//go:build sched

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate"
	vs "verifharness/vsched"
)

func init() {
	register(&Prop{ID: "P18", Run: runP18, MaxProcs: 1,
		Bounds:      "all schedules with at most 2 (thorough 3) preemptions (three threads: 1, thorough 2), at every synchronization operation, underlying write and tracer call, of: every pair of 1-operation threads and of (2,1)- and (2,2)-operation threads over an alphabet of Write (small, large, empty), 5 flushes, Close, SetHeader, accessors; Reset with and without options against each of them, each accessor on its own, and itself; triples of 1-operation threads; Writers fresh, in mid-stream, finished, failed and closed; failing underlying writers; under the race detector",
		Assumptions: []string{"Scheduling points are the synchronization operations of the code (rewritten sync package) and the calls into the harness; between two of them code is assumed atomic, which the race detector, always on, justifies.", "Sequential behaviour of the same calls (the other properties' subject) is the specification of the concurrent ones."}})
}

// A wop is one call on a Writer.
type wop struct {
	name string
	do   func(fw *flate.Writer, e *env18) string
}

// env18 holds what belongs to one execution: the underlying writers.
type env18 struct {
	sk, alt *sink18
	w       io.Writer // the first one, as given to NewWriter
}

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

var (
	w18a = []byte("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaabcabcabc")
	w18b = noise(300, 11)
	w18c = concat(texty(600, 3), noise(400, 12))
)

func wWrite(name string, p []byte) wop {
	return wop{name, func(fw *flate.Writer, e *env18) string {
		n, err := fw.Write(p)
		return fmt.Sprintf("%d,%s", n, errStr(err))
	}}
}

func wFlush(f flate.FlushType) wop {
	return wop{"F" + fmt.Sprint(int(f)), func(fw *flate.Writer, e *env18) string { return errStr(fw.Flush(f)) }}
}

var h18 = flate.Header{FileName: "name", Comment: "comment", OSType: flate.OSTypeUnix, LastModified: time.Unix(1e9, 0)}
var h18bad = flate.Header{FileName: "a/b"}

func wopByName() map[string]wop {
	m := map[string]wop{}
	add := func(o wop) { m[o.name] = o }
	add(wWrite("a", w18a))
	add(wWrite("b", w18b))
	add(wWrite("c", w18c))
	add(wWrite("e", nil))
	for _, f := range []flate.FlushType{flate.BlockFlush, flate.PartialFlush, flate.SyncFlush, flate.FullFlush, flate.FinishFlush} {
		add(wFlush(f))
	}
	add(wop{"X", func(fw *flate.Writer, e *env18) string { return errStr(fw.Close()) }})
	add(wop{"H", func(fw *flate.Writer, e *env18) string { return fmt.Sprint(fw.SetHeader(h18) == nil) }})
	add(wop{"h", func(fw *flate.Writer, e *env18) string { return fmt.Sprint(fw.SetHeader(h18bad) == nil) }})
	// Accessors, one at a time: several calls are not atomic together.
	acc := func(name string, f func(fw *flate.Writer, e *env18) interface{}) {
		add(wop{name, func(fw *flate.Writer, e *env18) string { return fmt.Sprint(f(fw, e)) }})
	}
	acc("Af", func(fw *flate.Writer, e *env18) interface{} { return fw.Format() })
	acc("Am", func(fw *flate.Writer, e *env18) interface{} { return fw.Method() })
	acc("As", func(fw *flate.Writer, e *env18) interface{} { return fw.Strategy() })
	acc("Ac", func(fw *flate.Writer, e *env18) interface{} { return fw.CompressLevel() })
	acc("AM", func(fw *flate.Writer, e *env18) interface{} { return fw.MemoryLevel() })
	acc("Aw", func(fw *flate.Writer, e *env18) interface{} { return fw.WindowBits() })
	acc("Ad", func(fw *flate.Writer, e *env18) interface{} { return refCRC(fw.Dict()) })
	acc("At", func(fw *flate.Writer, e *env18) interface{} { return len(fw.Tracers()) })
	acc("Au", func(fw *flate.Writer, e *env18) interface{} {
		switch fw.UnderlyingWriter() {
		case e.w:
			return "first"
		case io.Writer(e.alt):
			return "second"
		}
		return "neither"
	})
	add(wop{"A", func(fw *flate.Writer, e *env18) string {
		return fmt.Sprint(fw.Format(), fw.Method(), fw.Strategy(), fw.CompressLevel(), fw.MemoryLevel(), fw.WindowBits(), refCRC(fw.Dict()), len(fw.Tracers()), fw.UnderlyingWriter() == e.w)
	}})
	// Reset panics in the middle of a stream, and changes nothing then.
	reset := func(name string, opts ...flate.Option) {
		add(wop{name, func(fw *flate.Writer, e *env18) (res string) {
			defer func() {
				if r := recover(); r != nil {
					res = "panicked"
				}
			}()
			fw.Reset(e.alt, opts...)
			return "reset"
		}})
	}
	reset("Q")
	reset("R", flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanOnlyStrategy), flate.WithCompressLevel(3), flate.WithMemoryLevel(2), flate.WithWindowBits(9), flate.WithDictionary(w18b), flate.WithTracers(flate.NoOpTracer{}, flate.NoOpTracer{}))
	return m
}

// sink18 is an underlying writer with a scheduling point in each call.  Its
// fields are deliberately unprotected: the Writer must serialize its calls.
type sink18 struct {
	buf  bytes.Buffer
	n    int
	fail int // calls from this one on fail; 0 = never
}

func (s *sink18) Write(p []byte) (int, error) {
	vs.Point("underlying Write")
	s.n++
	if s.fail > 0 && s.n >= s.fail {
		return 0, errSink18
	}
	s.buf.Write(p)
	vs.Point("underlying Write")
	return len(p), nil
}

var errSink18 = errors.New("sink18")

// fsink18 has Flush and Sync too.
type fsink18 struct{ sink18 }

func (s *fsink18) Flush() error { vs.Point("underlying Flush"); s.n++; return nil }
func (s *fsink18) Sync() error  { vs.Point("underlying Sync"); s.n++; return nil }

type ptTracer struct{ n int }

func (p *ptTracer) OnEvent(flate.Event) {
	p.n++
	vs.Point("tracer")
}

type scen18 struct {
	o       wOpt
	pre     []string
	threads [][]string
	fail    int
	tracer  bool
	fsink   bool
}

func (s *scen18) String() string {
	var ts []string
	for _, t := range s.threads {
		ts = append(ts, strings.Join(t, "."))
	}
	return fmt.Sprintf("%v pre=%s threads=%s fail=%d tracer=%v fsink=%v", s.o, strings.Join(s.pre, "."), strings.Join(ts, "|"), s.fail, s.tracer, s.fsink)
}

func (s *scen18) open() (*flate.Writer, *env18) {
	var w io.Writer
	sk := &sink18{fail: s.fail}
	w = sk
	if s.fsink {
		f := &fsink18{}
		f.fail = s.fail
		sk = &f.sink18
		w = f
	}
	o := s.o
	if s.tracer {
		o.Tr = []flate.Tracer{&ptTracer{}}
	}
	fw := flate.NewWriter(w, o.opts()...)
	return fw, &env18{sk, &sink18{}, w}
}

// outcome is everything written, and what the Writer does next.
func (e *env18) outcome(fw *flate.Writer) (out []byte, state []string) {
	cut := []byte("|")
	out = concat(e.sk.buf.Bytes(), cut, e.alt.buf.Bytes(), cut)
	state = []string{endState(fw), fmt.Sprint(e.sk.n, e.alt.n), fmt.Sprint(fw.Strategy(), fw.WindowBits(), refCRC(fw.Dict()), len(fw.Tracers()))}
	out = append(out, concat(e.sk.buf.Bytes(), cut, e.alt.buf.Bytes())...)
	return
}

type call18 struct {
	thread, idx int
	op          wop
	call, ret   int64
	res         string
}

// seq18 is the outcome of a sequential order.
type seq18 struct {
	res []string // by order position
	out []byte
}

func runP18(c *C) {
	ops := wopByName()
	run := func(group string, s scen18) {
		c.CaseF(group, s.String, func(t *T) { p18Scenario(t, ops, &s) })
	}
	bases := []wOpt{
		{K: kZlib, Lvl: 6, Mem: 1, W: 8},
		{K: kGzip, Strat: flate.FixedStrategy, Lvl: 1, Mem: 1, W: 8},
		{K: kRaw, Lvl: 0, Mem: 1, W: 8},
	}
	alpha := []string{"a", "b", "e", "F0", "F1", "F2", "F3", "F4", "X", "H", "A"}
	pres := [][]string{nil, {"a"}, {"a", "F4"}, {"a", "X"}}

	// Two threads with one operation each.
	for bi, o := range bases {
		for pi, pre := range pres {
			for i, x := range alpha {
				for _, y := range alpha[i:] {
					run("1|1", scen18{o: o, pre: pre, threads: [][]string{{x}, {y}}, tracer: (bi+pi)%2 == 0})
				}
			}
		}
	}
	// With a large write, a sink with Flush and Sync, and failing sinks.
	for _, o := range bases {
		for _, y := range append([]string{"c", "h"}, alpha...) {
			run("large", scen18{o: o, threads: [][]string{{"c"}, {y}}})
			run("fsink", scen18{o: o, pre: []string{"a"}, threads: [][]string{{"F2"}, {y}}, fsink: true})
			run("fsink", scen18{o: o, pre: []string{"a"}, threads: [][]string{{"F3", "a"}, {y}}, fsink: true})
			for fail := 1; fail <= 3; fail++ {
				for _, x := range []string{"b", "F2", "X", "c"} {
					run("failing", scen18{o: o, pre: []string{"a"}, threads: [][]string{{x}, {y}}, fail: fail})
					run("failing", scen18{o: o, pre: []string{"b", "F2"}, threads: [][]string{{x, "X"}, {y}}, fail: fail})
				}
			}
		}
	}
	// Reset against everything, from the states that permit it and others.
	dict := noise(200, 18)
	all := append([]string{"c", "h", "Q", "R", "Af", "Am", "As", "Ac", "AM", "Aw", "Ad", "At", "Au"}, alpha[:len(alpha)-1]...)
	for bi, o := range bases {
		o.Dict = dict
		for pi, pre := range pres {
			for _, y := range all {
				for _, z := range []string{"Q", "R"} {
					run("reset", scen18{o: o, pre: pre, threads: [][]string{{z}, {y}}, tracer: (bi+pi)%2 == 0})
					if y[0] == 'A' {
						run("reset", scen18{o: o, pre: pre, threads: [][]string{{z}, {y, y}}})
						continue
					}
					if pi == 1 {
						continue
					}
					run("reset", scen18{o: o, pre: pre, threads: [][]string{{z, "a"}, {y}}})
					run("reset", scen18{o: o, pre: pre, threads: [][]string{{y, "X", z}, {"a"}}})
				}
			}
		}
		run("reset", scen18{o: o, pre: []string{"a"}, threads: [][]string{{"R"}, {"c"}}, fail: 1})
		run("reset", scen18{o: o, pre: []string{"b", "F2"}, threads: [][]string{{"Q", "a"}, {"F4"}}, fail: 2})
		// Three threads.
		for _, y := range []string{"Ad", "At", "Au", "a", "X"} {
			run("reset", scen18{o: o, threads: [][]string{{"R"}, {y}, {"Q"}}})
			run("reset", scen18{o: o, pre: []string{"a", "X"}, threads: [][]string{{"R"}, {y}, {"Ad"}}})
		}
	}
	// Two operations against one and two.
	al2 := []string{"a", "b", "F0", "F1", "F2", "F4", "X", "H"}
	light := []wOpt{{K: kGzip, Strat: flate.FixedStrategy, Lvl: 1, Mem: 1, W: 8}, {K: kZlib, Lvl: 0, Mem: 1, W: 8}, {K: kRaw, Lvl: 6, Mem: 1, W: 8}}[:c.Pick(2, 3)]
	for bi, o := range light {
		for _, x := range al2 {
			for _, y := range al2 {
				for _, z := range al2 {
					run("2|1", scen18{o: o, threads: [][]string{{x, y}, {z}}, tracer: bi == 0 && x == "a"})
				}
			}
		}
	}
	al3 := []string{"a", "F2", "F4", "X"}
	if !c.Quick() {
		al3 = []string{"a", "b", "F0", "F1", "F2", "F3", "F4", "X", "H"}
	}
	for _, o := range light {
		for _, w := range al3 {
			for _, x := range al3 {
				for _, y := range al3 {
					for _, z := range al3 {
						if w+x > y+z {
							continue
						}
						run("2|2", scen18{o: o, threads: [][]string{{w, x}, {y, z}}})
					}
				}
			}
		}
	}
	// Three threads.
	for _, o := range light {
		for i, x := range al2 {
			for k, y := range al2[i:] {
				for _, z := range al2[i+k:] {
					run("1|1|1", scen18{o: o, pre: []string{"a"}, threads: [][]string{{x}, {y}, {z}}})
					if !c.Quick() {
						run("1|1|1", scen18{o: o, threads: [][]string{{x}, {y}, {z}}})
					}
				}
			}
		}
	}
}

func p18Scenario(t *T, ops map[string]wop, s *scen18) {
	bound := t.c.Pick(2, 3)
	if t.c.Quick() && len(s.threads) > 2 {
		bound = 1
	}
	total := 0
	for _, th := range s.threads {
		total += len(th)
	}
	// Sequential orders, run lazily on the real Writer outside any
	// controlled execution.
	memo := map[string]*seq18{}
	sequential := func(order []*call18) *seq18 {
		var kb strings.Builder
		for _, c := range order {
			fmt.Fprintf(&kb, "%d", c.thread)
		}
		k := kb.String()
		if m := memo[k]; m != nil {
			return m
		}
		fw, e := s.open()
		for _, p := range s.pre {
			ops[p].do(fw, e)
		}
		m := &seq18{}
		for _, c := range order {
			m.res = append(m.res, c.op.do(fw, e))
		}
		out, state := e.outcome(fw)
		m.out, m.res = out, append(m.res, state...)
		memo[k] = m
		return m
	}
	explore(t, bound, func(x *X) (func(), func()) {
		fw, e := s.open()
		for _, p := range s.pre {
			ops[p].do(fw, e)
		}
		calls := make([][]*call18, len(s.threads))
		var fs []func()
		for ti, th := range s.threads {
			for i, name := range th {
				calls[ti] = append(calls[ti], &call18{thread: ti, idx: i, op: ops[name]})
			}
			mine := calls[ti]
			fs = append(fs, func() {
				for i, c := range mine {
					if i > 0 {
						vs.Point("between calls")
					}
					c.call = vs.Now()
					c.res = c.op.do(fw, e)
					c.ret = vs.Now()
				}
			})
		}
		body := func() { x.threads(fs...) }
		check := func() {
			out, tail := e.outcome(fw)
			// Search for a sequential order that explains everything.
			pos := make([]int, len(calls))
			var order []*call18
			var why string
			var search func() bool
			search = func() bool {
				if len(order) == total {
					m := sequential(order)
					for i, c := range order {
						if m.res[i] != c.res {
							why = fmt.Sprintf("call %d.%d %s returned %s, but %s in that order", c.thread, c.idx, c.op.name, c.res, m.res[i])
							return false
						}
					}
					if !reflect.DeepEqual(m.res[total:], tail) {
						why = fmt.Sprintf("afterwards %q, but %q in that order", tail, m.res[total:])
						return false
					}
					if !bytes.Equal(m.out, out) {
						why = "the bytes written differ: " + diffAt(out, m.out)
						return false
					}
					return true
				}
				for ti := range calls {
					if pos[ti] == len(calls[ti]) {
						continue
					}
					c := calls[ti][pos[ti]]
					ok := true
					for tj := range calls {
						if tj != ti && pos[tj] < len(calls[tj]) && calls[tj][pos[tj]].ret < c.call {
							ok = false
						}
					}
					if !ok {
						continue
					}
					pos[ti]++
					order = append(order, c)
					if search() {
						return true
					}
					order = order[:len(order)-1]
					pos[ti]--
				}
				return false
			}
			if !search() {
				var sb strings.Builder
				for _, th := range calls {
					for _, c := range th {
						fmt.Fprintf(&sb, " %d:%s[%d,%d]=%s", c.thread, c.op.name, c.call, c.ret, c.res)
					}
				}
				x.fail = fmt.Sprintf("no sequential order of the calls explains the outcome:%s; output %s; last tried: %s", sb.String(), hexs(out), why)
			}
		}
		return body, check
	})
}

// endState is what a Writer does next: the observable rest of its state.
func endState(fw *flate.Writer) string {
	n, err := fw.Write([]byte("tail"))
	err2 := fw.Close()
	return fmt.Sprint(n, errStr(err), errStr(err2))
}
