//go:build sched

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync/atomic"

	"github.com/chronos-tachyon/flate"
	vs "verifharness/vsched"
)

func init() {
	register(&Prop{ID: "P17", Run: runP17, MaxProcs: 1,
		Bounds:      "scheduling points at every synchronization operation, underlying read and trace event; one reading thread (fixed and until-error reads of sizes 0..400), alone and against a closing thread: all schedules with at most 2 (thorough 3) preemptions; 2..3 reading, up to 2 closing and an accessor thread: all schedules with at most 2 (thorough 3) deviations from the default schedule; over 12 streams (empty, smaller than, equal to and larger than the output buffer, two members, stored, truncated, corrupt, failing underlying reader) and endless ones, followed by Close, Reset and a second stream; each accessor on its own against Reset with other options; accessors alone, against Close and against Reset while the underlying reader waits for data that comes only after them; Close against Reset; Reset at every point of the background decoder's progress; under the race detector",
		Assumptions: []string{"Scheduling points are the synchronization operations of the code (rewritten sync package) and the calls into the harness; between two of them code is assumed atomic, which the race detector, always on, justifies.", "Read after Close has returned is unspecified and only required to return.", "Concurrent Reset and Read are not covered (Reset is not documented to be safe for that)."}})
}

var errSrc17 = errors.New("src17")

// src17 is an underlying reader.  Its fields are deliberately unprotected.
type src17 struct {
	in    []byte
	chunk int
	err   error
	pos   int
	calls []int64
	loop  bool // endless
	began atomic.Bool
	gate  *vs.WaitGroup // what call number gateAt waits for
	at    int
}

func (s *src17) Read(p []byte) (int, error) {
	vs.Point("underlying Read")
	if s.loop {
		s.began.Store(true)
	}
	s.calls = append(s.calls, vs.Now())
	if s.gate != nil && len(s.calls) > s.at {
		s.gate.Wait()
	}
	if s.loop && s.pos >= len(s.in) {
		s.pos = 0
	}
	if s.pos >= len(s.in) {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	n = copy(p[:n], s.in[s.pos:])
	s.pos += n
	return n, nil
}

// Dictionaries of a Reader that is being Reset while accessors run.
var dict17a, dict17b = noise(300, 1), noise(200, 2)

type tr17 struct {
	hdr    flate.Header
	seen   bool
	events []flate.EventType
	nums   []uint
	times  []int64
	quiet  bool
}

func (t *tr17) OnEvent(e flate.Event) {
	if !t.quiet {
		vs.Point("tracer")
	}
	t.events = append(t.events, e.Type)
	t.nums = append(t.nums, e.NumStreams)
	t.times = append(t.times, vs.Now())
	if e.Header != nil {
		t.hdr = *e.Header
		t.seen = true
	}
}

type stream17 struct {
	name    string
	k       fmtKind
	in      []byte
	content []byte
	err     error // underlying error
	end     ends
	members int
	loop    bool
}

type scen17 struct {
	s       *stream17
	chunk   int
	threads []string // space-separated operations per thread
	after   string
	tracer  bool
	bound   int
	gate    int // n: the underlying reader's n'th call waits for operation 'o'
}

func (s *scen17) String() string {
	g := ""
	if s.gate > 0 {
		g = fmt.Sprintf(" gate=%d", s.gate)
	}
	return fmt.Sprintf("%s chunk=%d threads=%s after=%s tracer=%v%s", s.s.name, s.chunk, strings.Join(s.threads, "|"), s.after, s.tracer, g)
}

type call17 struct {
	op        byte
	size      int
	call, ret int64
	data      []byte
	err       error
	thread    int
}

func distinct(n int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i*7 + 3)
	}
	return p
}

func streams17() map[string]*stream17 {
	m := map[string]*stream17{}
	add := func(name string, k fmtKind, in, content []byte, err error, end ends, members int) {
		m[name] = &stream17{name, k, in, content, err, end, members, false}
	}
	mk := func(k fmtKind, content []byte) []byte {
		w := &bitw{}
		w.fixed(true, lits(content))
		return wrap(k, w.p, content, nil)
	}
	d1, d5, d128, d130, d256 := distinct(1), distinct(5), distinct(128), distinct(130), distinct(256)
	long := noise(400, 17)
	add("empty", kZlib, mk(kZlib, nil), nil, nil, endEOF, 1)
	add("one", kRaw, mk(kRaw, d1), d1, nil, endEOF, 1)
	add("five", kGzip, mk(kGzip, d5), d5, nil, endEOF, 1)
	add("128", kRaw, mk(kRaw, d128), d128, nil, endEOF, 1)
	add("130", kZlib, mk(kZlib, d130), d130, nil, endEOF, 1)
	add("256", kGzip, mk(kGzip, d256), d256, nil, endEOF, 1)
	{
		w := &bitw{}
		w.stored(true, d256)
		add("stored256", kZlib, wrapZlib(w.p, d256, 15, nil), d256, nil, endEOF, 1)
	}
	add("400", kRaw, mk(kRaw, long), long, nil, endEOF, 1)
	add("two", kZlib, concat(mk(kZlib, d5), mk(kZlib, d130)), concat(d5, d130), nil, endEOF, 2)
	z := mk(kZlib, d130)
	add("trunc", kZlib, z[:len(z)-2], d130, nil, endUnexpected, 1)
	bad := append([]byte(nil), z...)
	bad[len(bad)-1] ^= 1
	add("corrupt", kZlib, bad, d130, nil, endCorrupt, 1)
	// Corrupt in the middle of the data: 130 bytes, then an undefined symbol.
	{
		w := &bitw{}
		w.bits(1, 1)
		w.bits(1, 2)
		for _, b := range d130 {
			if b < 144 {
				w.bits(rev(uint64(b)+0x30, 8), 8)
			} else {
				w.bits(rev(uint64(b)-144+0x190, 9), 9)
			}
		}
		w.bits(rev(0xc6, 8), 8) // 286
		add("badsym", kRaw, append(w.align().p, 0, 0), d130, nil, endCorrupt, 1)
	}
	add("srcerr", kZlib, z[:len(z)-2], d130, errSrc17, endOther, 1)
	// Endless: empty streams, and streams with data.
	m["endless-empty"] = &stream17{"endless-empty", kZlib, mk(kZlib, nil), nil, nil, endOther, 2, true}
	var more []byte
	for i := 0; i < 200; i++ {
		more = append(more, d5...)
	}
	m["endless"] = &stream17{"endless", kGzip, mk(kGzip, d5), more, nil, endOther, 2, true}
	return m
}

func rev(v uint64, n int) uint64 {
	var r uint64
	for i := 0; i < n; i++ {
		r = r<<1 | v>>uint(i)&1
	}
	return r
}

func runP17(c *C) {
	ss := streams17()
	run := func(group string, s scen17) {
		c.CaseF(group, s.String, func(t *T) { p17Scenario(t, &s) })
	}
	names := []string{"empty", "one", "five", "128", "130", "256", "stored256", "400", "two", "trunc", "corrupt", "badsym", "srcerr"}
	b2 := c.Pick(2, 3)
	// Input without an end must not keep Close or Reset from returning.
	for _, n := range []string{"endless-empty", "endless"} {
		s := ss[n]
		for _, chunk := range []int{0, 7} {
			for _, after := range []string{"close", "reset", "close-reset", "reset-close"} {
				run("endless", scen17{s: s, chunk: chunk, threads: []string{"R1", "w X"}, after: after, bound: delayBound + c.Pick(1, 3), tracer: true})
				run("endless", scen17{s: s, chunk: chunk, threads: []string{"R400", "w X"}, after: after, bound: delayBound + c.Pick(2, 3)})
				if n == "endless" {
					run("endless", scen17{s: s, chunk: chunk, threads: []string{"R1"}, after: after, bound: c.Pick(1, 2)})
					run("endless", scen17{s: s, chunk: chunk, threads: []string{"R100 R100"}, after: after, bound: c.Pick(1, 2)})
					run("endless", scen17{s: s, chunk: chunk, threads: []string{"R400", "R20", "w X"}, after: after, bound: delayBound + c.Pick(1, 2)})
				}
			}
		}
	}
	for _, n := range names {
		s := ss[n]
		// Several readers at once; the schedules of the longer streams are
		// bounded by their deviations from the default schedule.
		d := delayBound
		bm, b3, b4 := c.Pick(1, 3), c.Pick(d+2, 2), c.Pick(d+2, 1)
		if n == "400" || n == "two" {
			bm, b3, b4 = c.Pick(d+2, 2), c.Pick(d+2, 1), c.Pick(d+2, d+4)
		} else if n == "256" || n == "stored256" {
			bm, b3, b4 = c.Pick(d+2, 2), c.Pick(d+2, 2), c.Pick(d+2, d+4)
		}
		// One reader, every size.
		for _, sz := range []int{1, 50, 100, 128, 400} {
			if sz == 1 && len(s.content) > 5 {
				continue
			}
			for _, chunk := range []int{0, 40} {
				for _, after := range []string{"close", "reset", "close-reset", "reset-close"} {
					run("1 reader", scen17{s: s, chunk: chunk, threads: []string{fmt.Sprintf("r%d", sz)}, after: after, tracer: chunk == 0, bound: b2})
				}
			}
		}
		// A reader that stops early, then Close and/or Reset.
		for _, ops := range []string{"R0", "R1", "R100", "R128", "R100 R100", "R0 R1 A"} {
			for _, after := range []string{"close", "reset", "close-reset", "reset-opts", "reset-reset", "reset-close"} {
				run("early", scen17{s: s, threads: []string{ops}, after: after, tracer: true, bound: b2})
				run("early", scen17{s: s, chunk: 40, threads: []string{ops}, after: after, bound: b2})
			}
		}
		// Readers against a closer.
		for _, ops := range []string{"r100", "r400", "R1 R100 R400", "R0 r128"} {
			run("reader|close", scen17{s: s, threads: []string{ops, "X"}, after: "close", bound: b2})
			run("reader|close", scen17{s: s, chunk: 40, threads: []string{ops, "X"}, after: "reset", tracer: true, bound: b3})
			run("reader|close", scen17{s: s, threads: []string{ops, "X X"}, after: "reset", bound: bm})
			run("reader|close|close", scen17{s: s, threads: []string{ops, "X", "X"}, after: "reset", bound: b3})
		}
		// Two and three readers.
		for _, ops := range [][]string{{"r100", "r100"}, {"r400", "r400"}, {"r60", "R100"}, {"R1", "r400"}, {"R0 r128", "r50"}} {
			run("2 readers", scen17{s: s, threads: ops, after: "close", bound: bm})
			run("2 readers", scen17{s: s, chunk: 40, threads: ops, after: "reset", bound: b3})
			run("2 readers|close", scen17{s: s, threads: append([]string{"X"}, ops...), after: "reset", bound: b3})
			run("2 readers|accessor", scen17{s: s, threads: append([]string{"A A"}, ops...), after: "close", bound: b3})
		}
		// A Read without room must not swallow what wakes the others.
		for _, ops := range [][]string{{"R0", "r100"}, {"R0", "r400"}, {"R0 R0", "R100"}} {
			run("empty reads", scen17{s: s, threads: ops, after: "close", bound: b3})
		}
		run("empty reads", scen17{s: s, threads: []string{"R0", "R0", "r400"}, after: "close", bound: b4})
		run("3 readers", scen17{s: s, threads: []string{"r100", "r128", "r60"}, after: "close", bound: b4})
		run("3 readers", scen17{s: s, threads: []string{"r400", "r400", "R1"}, after: "reset", bound: b4})
		run("3 readers", scen17{s: s, threads: []string{"R100", "R100", "R100"}, after: "close-reset", bound: b4})
		run("2 readers|2 close", scen17{s: s, threads: []string{"r100", "r400", "X", "X"}, after: "reset", bound: b4})
		// Accessors, while the underlying reader has not got any data yet.
		for _, gate := range []int{1, 2} {
			if c.Quick() && n != "one" && n != "130" && n != "stored256" && n != "two" && n != "srcerr" {
				continue
			}
			for _, ops := range []string{"r100", "r400"} {
				run("accessor|input awaited", scen17{s: s, chunk: 40, threads: []string{ops, "A o"}, after: "close", bound: b3, gate: gate})
				run("accessor|input awaited", scen17{s: s, chunk: 40, threads: []string{ops, "X", "A o"}, after: "reset", bound: b3, gate: gate})
				run("accessor|input awaited", scen17{s: s, threads: []string{ops, ops, "A o"}, after: "close", bound: b3, gate: gate})
			}
		}
		if len(s.content) >= 128 {
			for _, ops := range []string{"R1 Z", "R1 X Z", "R100 Z"} {
				run("accessor|input awaited", scen17{s: s, threads: []string{ops, "A o"}, after: "reset", bound: b3, gate: 2})
			}
		}
		// Accessors against Reset.
		for _, ops := range []string{"Z", "R0 Z", "R1 Z R1", "R400 Z"} {
			run("accessor|reset", scen17{s: s, threads: []string{ops, "A A"}, after: "reset", bound: c.Pick(1, 2)})
		}
		if s.members == 1 {
			// Header seen by the reading thread.
			run("header", scen17{s: s, threads: []string{"H100 H100 r400"}, after: "close", tracer: true, bound: b2})
			run("header", scen17{s: s, threads: []string{"H400", "H1 r100"}, after: "close", tracer: true, bound: b3})
		}
	}
}

func p17Scenario(t *T, s *scen17) {
	second, long := streams17()["five"], streams17()["256"]
	if s.s.loop {
		defer func(n int32) { vs.SpinLimit = n }(vs.SpinLimit)
		vs.SpinLimit = 30
	}
	explore(t, s.bound, func(x *X) (func(), func()) {
		src := &src17{in: s.s.in, chunk: s.chunk, err: s.s.err, loop: s.s.loop}
		if s.gate > 0 {
			src.gate, src.at = new(vs.WaitGroup), s.gate-1
		}
		tr := &tr17{quiet: !s.tracer}
		opts := []flate.Option{flate.WithFormat(s.s.k.format()), flate.WithMemoryLevel(1), flate.WithWindowBits(15), flate.WithTracers(tr)}
		zed := strings.Contains(strings.Join(s.threads, " "), "Z")
		src3 := &src17{in: second.in, chunk: 11}
		if zed {
			opts = append(opts, flate.WithDictionary(dict17a))
		}
		fr := flate.NewReader(src, opts...)
		calls := make([][]*call17, len(s.threads)+1)
		read := func(ti, size int) *call17 {
			c := &call17{op: 'R', size: size, thread: ti}
			calls[ti] = append(calls[ti], c)
			p := make([]byte, size)
			c.call = vs.Now()
			n, err := fr.Read(p)
			c.ret = vs.Now()
			if n < 0 || n > size {
				x.Failf("Read(%d bytes) returned %d", size, n)
				n = 0
			}
			c.data, c.err = p[:n], err
			return c
		}
		closeIt := func(ti int) {
			c := &call17{op: 'X', thread: ti}
			calls[ti] = append(calls[ti], c)
			c.call = vs.Now()
			c.err = fr.Close()
			c.ret = vs.Now()
			if c.err != nil {
				x.Failf("Close returned %v", c.err)
			}
		}
		var fs []func()
		for ti, th := range s.threads {
			ops := strings.Fields(th)
			fs = append(fs, func() {
				for i, op := range ops {
					if i > 0 {
						vs.Point("between calls")
					}
					size := 0
					fmt.Sscan(op[1:], &size)
					switch op[0] {
					case 'R':
						read(ti, size)
					case 'H':
						c := read(ti, size)
						if len(c.data) > 0 && c.err == nil {
							// Data came, so its header was traced before.
							if !tr.seen || tr.hdr.FileName != "" {
								x.Failf("data was delivered before the header was traced")
							}
						}
					case 'r':
						for k := 0; ; k++ {
							if k > 0 {
								vs.Point("between calls")
							}
							if c := read(ti, size); c.err != nil {
								break
							}
							if k > 500 {
								x.Failf("500 Reads without an end")
								break
							}
						}
					case 'X':
						closeIt(ti)
					case 'o':
						src.gate.Done()
					case 'w':
						for !src.began.Load() {
							vs.Gosched()
						}
					case 'Z':
						fr.Reset(src3, flate.WithFormat(flate.GZIPFormat), flate.WithMemoryLevel(2), flate.WithWindowBits(9), flate.WithDictionary(dict17b), flate.WithTracers(tr, flate.NoOpTracer{}))
					case 'A':
						if zed {
							// Either the old value or the new one, and the
							// new one once it has been seen.
							news := 0
							saw := func(name string, old, new bool) {
								switch {
								case old && new:
								case new:
									news = 1
								case !old:
									x.Failf("%s reports neither the old nor the new value", name)
								case news > 0:
									x.Failf("%s reports the old value after another accessor has reported a new one", name)
								}
							}
							f := fr.Format()
							saw("Format", f == s.s.k.format(), f == flate.GZIPFormat)
							d := fr.Dict()
							saw("Dict", bytes.Equal(d, dict17a), bytes.Equal(d, dict17b))
							m := fr.MemoryLevel()
							saw("MemoryLevel", m == 1, m == 2)
							trs := fr.Tracers()
							saw("Tracers", len(trs) == 1 && trs[0] == flate.Tracer(tr), len(trs) == 2 && trs[0] == flate.Tracer(tr) && trs[1] == flate.Tracer(flate.NoOpTracer{}))
							wb := fr.WindowBits()
							saw("WindowBits", wb == 15, wb == 9)
							ur := fr.UnderlyingReader()
							saw("UnderlyingReader", ur == io.Reader(src), ur == io.Reader(src3))
							break
						}
						if fr.Format() != s.s.k.format() || fr.MemoryLevel() != 1 || fr.WindowBits() != 15 || fr.Dict() != nil || len(fr.Tracers()) != 1 || fr.UnderlyingReader() != io.Reader(src) {
							x.Failf("an accessor reports a wrong value")
						}
					}
				}
			})
		}
		last := len(s.threads)
		var src2 *src17
		var closed2 bool
		var calls2 int
		var resetAt, eventsAtReset int64
		var out2 []byte
		var err2 error
		body := func() {
			if src.gate != nil {
				src.gate.Add(1)
			}
			if len(fs) == 1 {
				fs[0]()
			} else {
				x.threads(fs...)
			}
			if s.after == "close" || s.after == "close-reset" {
				closeIt(last)
			}
			if s.after == "close" {
				return
			}
			for round := 0; round < 2; round++ {
				next := second
				if (s.after == "reset-reset" || s.after == "reset-close") && round == 0 {
					next = long
				}
				src2 = &src17{in: next.in, chunk: 11}
				vs.Point("before Reset")
				ropts := []flate.Option{flate.WithFormat(flate.GZIPFormat)}
				if s.after == "reset-opts" {
					ropts = append(ropts, flate.WithMemoryLevel(2), flate.WithWindowBits(9))
				}
				fr.Reset(src2, ropts...)
				if resetAt == 0 {
					resetAt = vs.Now()
					eventsAtReset = int64(len(tr.events))
				}
				if s.after != "reset-reset" && s.after != "reset-close" || round == 1 {
					break
				}
				// Leave in the middle of the second stream.
				p := make([]byte, 2)
				if n, err := fr.Read(p); n != 2 || err != nil || !bytes.Equal(p, long.content[:2]) {
					x.Failf("after Reset: Read returned %d, %v, %x", n, err, p)
				}
				if s.after == "reset-close" {
					if err := fr.Close(); err != nil {
						x.Failf("Close after Reset returned %v", err)
					}
					closed2, calls2 = true, len(src2.calls)
					return
				}
			}
			p := make([]byte, 3)
			for k := 0; k < 20; k++ {
				var n int
				n, err2 = fr.Read(p)
				out2 = append(out2, p[:n]...)
				if err2 != nil {
					break
				}
			}
			if err := fr.Close(); err != nil {
				x.Failf("Close after Reset returned %v", err)
			}
		}
		check := func() {
			if !zed {
				p17Check(x, s, calls, src, tr, resetAt)
			}
			if x.fail != "" || s.after == "close" {
				return
			}
			if closed2 {
				if len(src2.calls) != calls2 {
					x.fail = "the underlying reader was called after Close had returned (second stream)"
				}
				return
			}
			if err2 != io.EOF || !bytes.Equal(out2, second.content) {
				x.fail = fmt.Sprintf("after Reset the second stream read as %x, %v; want %x, EOF", out2, err2, second.content)
				return
			}
			if s.after != "reset-reset" {
				evs := tr.events[eventsAtReset:]
				want := []flate.EventType{flate.StreamBeginEvent, flate.StreamHeaderEvent, flate.BlockBeginEvent, flate.BlockTreesEvent, flate.BlockEndEvent, flate.StreamEndEvent, flate.StreamCloseEvent}
				if !zed && fmt.Sprint(evs) != fmt.Sprint(want) {
					x.fail = fmt.Sprintf("after Reset the events were %v", evs)
				}
			}
		}
		return body, check
	})
}

func p17Check(x *X, s *scen17, calls [][]*call17, src *src17, tr *tr17, resetAt int64) {
	const inf = int64(1) << 62
	firstCall, firstRet := inf, inf
	total := 0
	reads := make([][]*call17, len(calls))
	started := inf // the background decoder had certainly been started
	for ti, th := range calls {
		for _, c := range th {
			switch c.op {
			case 'X':
				if c.call < firstCall {
					firstCall = c.call
				}
				if c.ret < firstRet {
					firstRet = c.ret
				}
			case 'R':
				reads[ti] = append(reads[ti], c)
				total++
				if c.ret < started {
					started = c.ret
				}
			}
		}
	}
	if len(src.calls) > 0 && src.calls[0] < started {
		started = src.calls[0]
	}
	// Background activity after Close has returned.
	for _, th := range calls {
		for _, c := range th {
			if c.op != 'X' || started >= c.call {
				continue
			}
			for _, at := range src.calls {
				if at > c.ret {
					x.fail = "the underlying reader was called after Close had returned"
					return
				}
			}
			for _, at := range tr.times {
				if at > c.ret && (resetAt == 0 || at < resetAt) {
					x.fail = "an event was sent after Close had returned"
					return
				}
			}
		}
	}
	if resetAt != 0 {
		for _, at := range src.calls {
			if at > resetAt {
				x.fail = "the old underlying reader was called after Reset had returned"
				return
			}
		}
	}

	// Is there an order of the Reads that explains the data and errors?
	pos := make([]int, len(reads))
	var why string
	natural := func(err error) bool {
		if s.s.err != nil {
			return err == s.s.err
		}
		return classify(err) == s.s.end && err != context.Canceled
	}
	var search func(done, off int, failed error) bool
	search = func(done, off int, failed error) bool {
		if done == total {
			return true
		}
		for ti := range reads {
			if pos[ti] == len(reads[ti]) {
				continue
			}
			r := reads[ti][pos[ti]]
			ok := true
			for tj := range reads {
				if tj != ti && pos[tj] < len(reads[tj]) && reads[tj][pos[tj]].ret < r.call {
					ok = false
				}
			}
			if !ok {
				continue
			}
			noff, nfail := off, failed
			afterClose := r.call > firstRet
			switch {
			case afterClose:
				// Unspecified, other than that it returns.
			case len(r.data) > 0 && r.err != nil:
				why = fmt.Sprintf("a Read returned both data and %v", r.err)
				// Permitted by io.Reader.
				fallthrough
			case len(r.data) > 0:
				if failed != nil {
					why = fmt.Sprintf("a Read returned %d bytes after another had returned %v", len(r.data), failed)
					continue
				}
				if !bytes.HasPrefix(s.s.content[off:], r.data) {
					why = fmt.Sprintf("data at offset %d: %s", off, diffAt(r.data, s.s.content[off:]))
					continue
				}
				noff = off + len(r.data)
				if r.err != nil {
					nfail = r.err
				}
			case r.err == nil:
				if r.size > 0 {
					why = "a Read returned 0, nil"
					continue
				}
			case natural(r.err):
				if off != len(s.s.content) {
					why = fmt.Sprintf("a Read returned %v after only %d of %d bytes had been delivered", r.err, off, len(s.s.content))
					continue
				}
				if failed != nil && failed.Error() != r.err.Error() && r.ret < firstCall {
					why = fmt.Sprintf("errors %v and %v", failed, r.err)
					continue
				}
				nfail = r.err
			default:
				if r.ret < firstCall || r.err == io.EOF {
					why = fmt.Sprintf("a Read returned %v after %d of %d bytes", r.err, off, len(s.s.content))
					continue
				}
				nfail = r.err
			}
			pos[ti]++
			if search(done+1, noff, nfail) {
				return true
			}
			if afterClose && len(r.data) > 0 && bytes.HasPrefix(s.s.content[off:], r.data) && search(done+1, off+len(r.data), failed) {
				return true
			}
			pos[ti]--
		}
		return false
	}
	if !search(0, 0, nil) {
		var sb strings.Builder
		for _, th := range calls {
			for _, c := range th {
				fmt.Fprintf(&sb, " %d:%c%d[%d,%d]=%d,%v", c.thread, c.op, c.size, c.call, c.ret, len(c.data), c.err)
			}
		}
		x.fail = fmt.Sprintf("no order of the Reads explains what they returned: %s; calls:%s", why, sb.String())
	}
}
