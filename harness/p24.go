//go:build sched

package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate"
	"github.com/rs/zerolog"
	vs "verifharness/vsched"
)

func init() {
	register(&Prop{ID: "P24", Run: runP24, MaxProcs: 1,
		Bounds:      "23 scripts of 4..6 calls (12 Writers over all strategies, formats, flushes, dictionaries, headers and Reset; 11 Readers over all block types, formats, dictionaries, corrupt and truncated input): all interleavings of the calls (in quick mode of up to 3 pieces per script, for most pairs) of every pair of scripts on one goroutine, and of every triple of 6 (thorough 9) scripts in 3 pieces each; every script run as a whole, and split in two at every call, inside every I/O callback and trace event of every other script, and three deep; every pair run concurrently under all schedules with at most 1 (thorough 2) preemptions at every synchronization operation and callback, and triples with at most 2 deviations from the default schedule; every pair of 6 nested in each callback after an instance of 26 kinds has failed at every point of its I/O; 27 scripts (with logging and uses of names, parsers, encodings) in every ordered pair as the first uses of a process, a process per schedule, default schedule (thorough: at most one deviation); option values shared between the instances; under the race detector",
		Assumptions: []string{"Scheduling points are the synchronization operations of the code (rewritten sync package) and the calls into the harness; between two of them code is assumed atomic, which the race detector, always on, justifies.", "What an instance does alone in the process is the specification of what it does in company."}})
}

// op24 is one step of a script.
type op24 struct {
	k    byte // W F C R(eset) H(eader) A(ccessors) for Writers; r(ead) d(rain) c(lose) s(et again) a(ccessors) for Readers
	n    int
	data []byte
}

type spec24 struct {
	name  string
	wopt  *wOpt
	ropt  *rOpt
	in    []byte
	in2   []byte
	chunk int
	ops   []op24
	log   bool // with a log tracer as well
	noEv  bool // events depend on the background decoder's progress
	opts  []flate.Option
}

// inst24 is one run of a script.
type inst24 struct {
	s      *spec24
	log    []string
	evs    []string
	out    bytes.Buffer
	lg     bytes.Buffer
	src    src24
	fw     *flate.Writer
	fr     *flate.Reader
	hook   func() // called in every callback
	calls  int
	quiet  bool
	logged int
	fail   int // the callback that fails, and all after it
}

type src24 struct {
	i     *inst24
	in    []byte
	chunk int
}

func (s *src24) Read(p []byte) (int, error) {
	s.i.cb("underlying Read")
	if s.i.failing() {
		return 0, errSink
	}
	if len(s.in) == 0 {
		return 0, io.EOF
	}
	if s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	n := copy(p, s.in)
	s.in = s.in[n:]
	return n, nil
}

type sink24 struct{ i *inst24 }

func (s sink24) Write(p []byte) (int, error) {
	s.i.cb("underlying Write")
	if s.i.failing() {
		return 0, errSink
	}
	s.i.out.Write(p)
	return len(p), nil
}
func (s sink24) Flush() error { s.i.cb("underlying Flush"); return s.i.failure() }
func (s sink24) Sync() error  { s.i.cb("underlying Sync"); return s.i.failure() }

func (i *inst24) failing() bool { return i.fail > 0 && i.calls >= i.fail }

func (i *inst24) failure() error {
	if i.failing() {
		return errSink
	}
	return nil
}

func (i *inst24) cb(what string) {
	if !i.quiet {
		vs.Point(what)
	}
	i.calls++
	if i.hook != nil {
		i.hook()
	}
}

func (i *inst24) OnEvent(e flate.Event) {
	i.cb("tracer")
	i.evs = append(i.evs, evKey(e, false))
}

func (s *spec24) new() *inst24 {
	i := &inst24{s: s}
	return i
}

// step performs call k of the script; the first one constructs the instance.
func (i *inst24) step(k int) {
	s := i.s
	if k == 0 {
		opts := append(append([]flate.Option(nil), s.opts...), flate.WithTracers(i))
		if s.log {
			opts[len(opts)-1] = flate.WithTracers(i, flate.Log(zerolog.New(&i.lg)))
		}
		if s.wopt != nil {
			i.fw = flate.NewWriter(sink24{i}, opts...)
		} else if s.ropt != nil {
			i.src = src24{i, s.in, s.chunk}
			i.fr = flate.NewReader(&i.src, opts...)
		}
		return
	}
	o := s.ops[k-1]
	res := ""
	switch o.k {
	case 'W':
		p := append([]byte(nil), o.data...)
		n, err := i.fw.Write(p)
		res = fmt.Sprint(n, " ", errStr(err))
		for j := range p {
			p[j] = 0xa5
		}
	case 'F':
		res = errStr(i.fw.Flush(flate.FlushType(o.n)))
	case 'C':
		res = errStr(i.fw.Close())
	case 'R':
		i.fw.Reset(sink24{i})
	case 'H':
		h := flate.Header{FileName: fmt.Sprintf("file%d", o.n), Comment: "c" + s.name, OSType: flate.OSTypeUnix, LastModified: time.Unix(1e9+int64(o.n), 0)}
		res = fmt.Sprint(i.fw.SetHeader(h) == nil)
	case 'A':
		res = fmt.Sprint(i.fw.Format(), i.fw.Strategy(), i.fw.CompressLevel(), i.fw.MemoryLevel(), i.fw.WindowBits(), i.fw.Dict())
	case 'r', 'd':
		var got []byte
		var err error
		for k := 0; err == nil && k < 10000; k++ {
			p := make([]byte, o.n)
			var n int
			n, err = i.fr.Read(p)
			got = append(got, p[:n]...)
			if o.k == 'r' && len(got) >= o.n {
				break
			}
			if o.k == 'r' {
				o.n -= n
			}
		}
		res = fmt.Sprintf("%x %s", got, errStr(err))
	case 'c':
		res = errStr(i.fr.Close())
	case 's':
		i.src = src24{i, s.in2, s.chunk}
		i.fr.Reset(&i.src)
	case 'u':
		res = util24(o.n)
		i.cb("between calls")
	case 'l':
		// what a log of the events so far would say
		res = string(i.lg.Bytes())
		i.lg.Reset()
	case 'a':
		res = fmt.Sprint(i.fr.Format(), i.fr.MemoryLevel(), i.fr.WindowBits(), i.fr.Dict(), len(i.fr.Tracers()))
	}
	i.log = append(i.log, fmt.Sprintf("%c %s out=%x", o.k, res, i.out.Bytes()[i.logged:]))
	i.logged = i.out.Len()
}

func (s *spec24) steps() int { return len(s.ops) + 1 }

func (i *inst24) run(from, to int) {
	for k := from; k < to; k++ {
		i.step(k)
	}
}

func (i *inst24) all() { i.run(0, i.s.steps()) }

// ref24 is what a script does alone.
type ref24 struct {
	log, evs []string
	calls    int
}

func (i *inst24) diff(r *ref24) string {
	if d := diffLogs(i.log, r.log); d != "" {
		return d
	}
	if i.s.noEv {
		// The trace may be cut short at any point.
		return ""
	}
	if d := diffLogs(i.evs, r.evs); d != "" {
		return "events: " + d
	}
	return ""
}

func diffLogs(a, b []string) string {
	for k := 0; k < len(a) || k < len(b); k++ {
		x, y := "nothing", "nothing"
		if k < len(a) {
			x = a[k]
		}
		if k < len(b) {
			y = b[k]
		}
		if x != y {
			return fmt.Sprintf("step %d: %s; alone: %s", k+1, abbrev(x, y), abbrev(y, x))
		}
	}
	return ""
}

// abbrev cuts s around its first difference from t.
func abbrev(s, t string) string {
	k := 0
	for k < len(s) && k < len(t) && s[k] == t[k] {
		k++
	}
	a, b := k-60, k+60
	pre, post := "...", "..."
	if a < 0 {
		a, pre = 0, ""
	}
	if b > len(s) {
		b, post = len(s), ""
	}
	return pre + s[a:b] + post
}

func specs24() []*spec24 {
	var ss []*spec24
	textA, textB := texty(110, 21), texty(90, 22)
	dict := texty(100, 23)
	nz := noise(70, 24)
	runs := concat(bytes.Repeat([]byte{'x'}, 60), bytes.Repeat([]byte{'y'}, 27), []byte("end"))
	W := func(p []byte) op24 { return op24{k: 'W', data: p} }
	F := func(n int) op24 { return op24{k: 'F', n: n} }
	C := op24{k: 'C'}
	R := op24{k: 'R'}
	H := func(n int) op24 { return op24{k: 'H', n: n} }
	A := op24{k: 'A'}
	w := func(name string, o wOpt, ops ...op24) {
		o.Mem, o.W = 1, 15
		s := &spec24{name: name, wopt: &o, ops: ops}
		s.opts = o.opts()
		ss = append(ss, s)
	}
	w("w-default", wOpt{K: kGzip, Strat: flate.DefaultStrategy, Lvl: -1}, H(1), W(textA), W(textB), F(2), C)
	w("w-best-z", wOpt{K: kZlib, Strat: flate.DefaultStrategy, Lvl: 9, Dict: dict}, W(textB), F(3), W(dict), C, A)
	w("w-fast-raw", wOpt{K: kRaw, Strat: flate.DefaultStrategy, Lvl: 1}, W(textA), F(1), W(textA), F(4), C)
	w("w-fixed", wOpt{K: kZlib, Strat: flate.FixedStrategy, Lvl: 6}, W(textB), F(0), W(runs), C)
	w("w-huff", wOpt{K: kGzip, Strat: flate.HuffmanOnlyStrategy, Lvl: 6}, W(textA), F(2), H(2), W(nz), C)
	w("w-rle", wOpt{K: kRaw, Strat: flate.HuffmanRLEStrategy, Lvl: 6}, W(runs), F(3), W(textB), C)
	w("w-store", wOpt{K: kZlib, Strat: flate.DefaultStrategy, Lvl: 0}, W(textA), F(2), W(nz), C)
	w("w-five", wOpt{K: kGzip, Strat: flate.DefaultStrategy, Lvl: 5}, W(runs), W(textA), C)
	w("w-reset", wOpt{K: kZlib, Strat: flate.DefaultStrategy, Lvl: 6}, W(textA), C, R, W(textB), C)
	w("w-empty", wOpt{K: kGzip, Strat: flate.DefaultStrategy, Lvl: 6}, F(2), C, R, C)
	w("w-noise", wOpt{K: kRaw, Strat: flate.DefaultStrategy, Lvl: 6, Dict: dict}, W(nz), F(0), W(dict[20:80]), C)
	w("w-many", wOpt{K: kZlib, Strat: flate.DefaultStrategy, Lvl: 7}, W(textB[:1]), W(textB[1:60]), F(0), W(textB), C)

	rd := func(n int) op24 { return op24{k: 'r', n: n} }
	d := func(n int) op24 { return op24{k: 'd', n: n} }
	c := op24{k: 'c'}
	a := op24{k: 'a'}
	again := op24{k: 's'}
	r := func(name string, o rOpt, in, in2 []byte, chunk int, ops ...op24) *spec24 {
		o.Mem = 1
		s := &spec24{name: name, ropt: &o, in: in, in2: in2, chunk: chunk, ops: ops}
		s.opts = o.opts()
		ss = append(ss, s)
		return s
	}
	body := func(f func(w *bitw)) []byte { w := &bitw{}; f(w); return w.p }
	toks := append(lits(textB[:60]), mt(20, 50), mt(120, 3), mt(3, 1))
	toksOut := applyToks(nil, toks)
	fixed := body(func(w *bitw) { w.fixed(true, toks) })
	dyn := body(func(w *bitw) { w.autoDyn(true, toks, true, true) })
	dyn2 := body(func(w *bitw) {
		w.autoDyn(false, lits(textA[:100]), false, true)
		w.autoDyn(true, lits(textB[:50]), true, false)
	})
	dyn2Out := concat(textA[:100], textB[:50])
	stored := body(func(w *bitw) { w.stored(false, nz[:30]); w.stored(true, nz[30:]) })
	o := func(k fmtKind, d []byte) rOpt { return rOpt{K: k, W: 15, Dict: d} }
	r("r-fixed", o(kZlib, nil), wrap(kZlib, fixed, toksOut, nil), nil, 0, rd(50), rd(200), d(100), c)
	r("r-dyn", o(kRaw, nil), dyn, nil, 0, rd(50), a, d(300), c)
	r("r-dyn2", o(kGzip, nil), wrapGzip(dyn2, dyn2Out, gzHead{name: []byte("n1"), com: []byte("c1")}), nil, 0, rd(1), rd(110), d(60), c)
	r("r-stored", o(kZlib, nil), wrap(kZlib, stored, nz, nil), nil, 20, rd(50), d(60), c)
	{
		tk := append([]tk{mt(90, 100), mt(40, 50)}, lits(textA[:60])...)
		out := applyToks(dict, tk)[len(dict):]
		r("r-dict", o(kZlib, dict), wrapZlib(body(func(w *bitw) { w.fixed(true, tk) }), out, 15, dict), nil, 0, rd(100), a, d(100), c)
	}
	r("r-auto", rOpt{K: kAuto, W: 15}, concat(wrap(kZlib, fixed, toksOut, nil), wrap(kGzip, dyn, toksOut, nil)), nil, 0, rd(150), d(150), c)
	bad := wrap(kGzip, dyn, toksOut, nil)
	bad[len(bad)-6] ^= 4
	r("r-corrupt", o(kGzip, nil), bad, nil, 0, rd(90), d(128), c)
	r("r-trunc", o(kZlib, nil), wrap(kZlib, dyn, toksOut, nil)[:len(dyn)-3], nil, 0, rd(90), d(128), c)
	r("r-reset", o(kZlib, nil), wrap(kZlib, fixed, toksOut, nil), wrap(kZlib, dyn, toksOut, nil), 0, rd(90), again, rd(10), d(100), c).noEv = true
	r("r-close", o(kRaw, nil), dyn2, dyn, 0, rd(9), c, again, d(200), c).noEv = true
	r("r-empty", o(kGzip, nil), wrap(kGzip, body(func(w *bitw) { w.fixed(true, nil) }), nil, nil), nil, 0, d(10), c)
	// With a log, and uses of what belongs to no instance.
	l := op24{k: 'l'}
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	w("w-log", wOpt{K: kGzip, Strat: flate.DefaultStrategy, Lvl: 3}, H(3), W(textA), F(2), l, C, l)
	ss[len(ss)-1].log = true
	r("r-log", o(kGzip, nil), wrapGzip(dyn2, dyn2Out, gzHead{name: []byte("n2"), extra: []byte{1, 2, 1, 0, 7}}), nil, 0, rd(100), d(60), l, c).log = true
	u := func(name string, ops ...op24) { ss = append(ss, &spec24{name: name, ops: ops}) }
	u("u-all", op24{k: 'u', n: 1})
	u("u-some", op24{k: 'u', n: 5}, op24{k: 'u', n: 3})
	return ss
}

func (s *spec24) ref(t *T) *ref24 {
	i := s.new()
	i.all()
	r := &ref24{i.log, i.evs, i.calls}
	j := s.new()
	j.all()
	if d := j.diff(r); d != "" {
		t.Failf("%s: two runs of the same script differ: %s", s.name, d)
	}
	return r
}

func runP24(c *C) {
	ss := specs24()
	if f := os.Getenv("VERIF_P24"); f != "" {
		var k []*spec24
		for _, s := range ss {
			if strings.Contains(f, s.name) {
				k = append(k, s)
			}
		}
		ss = k
	}
	refs := map[*spec24]*ref24{}
	ref := func(t *T, s *spec24) *ref24 {
		r := refs[s]
		if r == nil {
			r = s.ref(t)
			refs[s] = r
		}
		return r
	}
	// One schedule: interference of this kind needs no concurrency.
	one := func(t *T, setup func(x *X) (func(), func())) {
		exploreN(t, delayBound, 1, setup)
	}
	check := func(x *X, how string, is []*inst24, rs []*ref24) {
		for k, i := range is {
			if d := i.diff(rs[k]); d != "" {
				x.fail = fmt.Sprintf("%s: %s behaves differently from alone: %s", how, i.s.name, d)
				return
			}
		}
	}

	// Scripts which are run concurrently.
	conc := func(group string, bound int, free int, sel ...*spec24) {
		var names []string
		for _, s := range sel {
			names = append(names, s.name)
		}
		c.CaseF(group, func() string { return strings.Join(names, "|") }, func(t *T) {
			var rs []*ref24
			for _, s := range sel {
				rs = append(rs, ref(t, s))
			}
			exploreN(t, bound, free, func(x *X) (func(), func()) {
				var is []*inst24
				var fs []func()
				for _, s := range sel {
					i := s.new()
					is = append(is, i)
					fs = append(fs, i.all)
				}
				return func() { x.threads(fs...) }, func() { check(x, "concurrently", is, rs) }
			})
		})
	}
	for ai, a := range ss {
		for bi, b := range ss[ai:] {
			bound := c.Pick(delayBound+1, delayBound+2)
			if (ai*5+bi*3)%37 == 0 {
				bound = c.Pick(delayBound+2, 2)
			}
			conc("concurrent pairs", bound, 40, a, b)
		}
	}
	for k := range ss {
		conc("concurrent triples", delayBound+c.Pick(1, 2), 40, ss[k], ss[(k+5)%len(ss)], ss[(k+11)%len(ss)])
		conc("concurrent triples", delayBound+c.Pick(1, 2), 40, ss[k], ss[k], ss[k])
	}

	// The first uses of a process.
	for ai, a := range ss {
		for _, b := range ss[ai:] {
			for k, sel := range [][]string{{a.name, b.name}, {b.name, a.name}} {
				if k == 1 && a == b {
					continue
				}
				c.CaseF("first uses", func() string { return strings.Join(sel, "|") }, func(t *T) {
					exploreFresh(t, c.Pick(0, 1), true, sel...)
					if !c.Quick() {
						exploreFresh(t, 1, false, sel...)
					}
				})
			}
		}
	}
	if c.Quick() {
		// The log and the names are not worth more.
		var k []*spec24
		for _, s := range ss {
			if !s.log && (s.ropt != nil || s.wopt != nil) {
				k = append(k, s)
			}
		}
		ss = k
	}
	// All interleavings of the calls of two scripts on one goroutine.
	for ai, a := range ss {
		for bi, b := range ss[ai:] {
			pa, pb := a.steps(), b.steps()
			if c.Quick() && (ai*7+bi*3)%9 != 0 {
				// Three pieces each.
				pa, pb = 3, 3
			}
			c.CaseF("merges", func() string { return a.name + "," + b.name }, func(t *T) {
				rs := []*ref24{ref(t, a), ref(t, b)}
				merges([]int{pa, pb}, func(order []int) {
					t.note = fmt.Sprint("order ", order)
					one(t, func(x *X) (func(), func()) {
						is := []*inst24{a.new(), b.new()}
						return func() {
							pos := [2]int{}
							for _, w := range order {
								n, p := is[w].s.steps(), [...]int{pa, pb}[w]
								is[w].run(n*pos[w]/p, n*(pos[w]+1)/p)
								pos[w]++
							}
						}, func() { check(x, fmt.Sprint("interleaved as ", order), is, rs) }
					})
				})
			})
		}
	}
	// Three scripts, each in three pieces.
	pick := []int{0, 3, 5, 12, 14, 16, 1, 8, 20}[:c.Pick(6, 9)]
	var sub []*spec24
	for _, k := range pick {
		if k < len(ss) {
			sub = append(sub, ss[k])
		}
	}
	for ai, a := range sub {
		for bi, b := range sub[ai:] {
			for _, d := range sub[ai+bi:] {
				sel := []*spec24{a, b, d}
				c.CaseF("merges of three", func() string { return a.name + "," + b.name + "," + d.name }, func(t *T) {
					rs := []*ref24{ref(t, a), ref(t, b), ref(t, d)}
					merges([]int{3, 3, 3}, func(order []int) {
						t.note = fmt.Sprint("order ", order)
						one(t, func(x *X) (func(), func()) {
							is := []*inst24{a.new(), b.new(), d.new()}
							return func() {
								pos := [3]int{}
								for _, w := range order {
									n := sel[w].steps()
									is[w].run(n*pos[w]/3, n*(pos[w]+1)/3)
									pos[w]++
								}
							}, func() { check(x, fmt.Sprint("interleaved as ", order), is, rs) }
						})
					})
				})
			}
		}
	}
	// One script inside the callbacks of another.
	for ai, a := range ss {
		for bi, b := range ss {
			c.CaseF("nested", func() string { return b.name + " in " + a.name }, func(t *T) {
				rs := []*ref24{ref(t, a), ref(t, b)}
				nb := b.steps()
				for k1 := 1; k1 <= rs[0].calls; k1++ {
					// The script as a whole, or split at call j with the rest
					// in a later callback (or after the outer script).
					for j := 1; j <= nb; j++ {
						for k2 := k1 + 1; k2 <= rs[0].calls+1; k2++ {
							if j == nb && k2 > k1+1 || j != nb && c.Quick() && (k2-k1 > 3 && k2 <= rs[0].calls || (ai*3+bi*5+j)%7 != 0) {
								continue
							}
							t.note = fmt.Sprintf("callbacks %d, %d split %d", k1, k2, j)
							one(t, func(x *X) (func(), func()) {
								is := []*inst24{a.new(), b.new()}
								done := 0
								is[0].hook = func() {
									if is[0].calls == k1 {
										is[1].run(0, j)
										done = j
									}
									if j < nb && is[0].calls == k2 {
										is[1].run(j, nb)
										done = nb
									}
								}
								return func() {
										is[0].all()
										is[1].run(done, nb)
									}, func() {
										check(x, fmt.Sprintf("%s in callback %d of %s (rest from call %d in callback %d)", b.name, k1, a.name, j, k2), is, rs)
									}
							})
						}
					}
				}
			})
		}
	}
	// After an instance that failed, at every point where it can: others must
	// not find anything of it.
	var prel []*spec24
	prel = append(prel, ss...)
	for _, v := range []struct {
		name string
		o    wOpt
		data []byte
	}{
		{"w-dyn", wOpt{K: kGzip, Strat: flate.HuffmanOnlyStrategy, Lvl: 6}, noiseK(700, 4, 3)},
		{"w-dyn2", wOpt{K: kRaw, Strat: flate.DefaultStrategy, Lvl: 9}, deBruijn(8)},
		{"w-rledyn", wOpt{K: kZlib, Strat: flate.HuffmanRLEStrategy, Lvl: 6}, concat(noiseK(300, 3, 3), zeros(300))},
	} {
		o := v.o
		o.Mem, o.W = 1, 15
		s := &spec24{name: v.name, wopt: &o, ops: []op24{{k: 'W', data: v.data}, {k: 'F', n: 2}, {k: 'W', data: v.data[100:300]}, {k: 'C'}}}
		s.opts = o.opts()
		prel = append(prel, s)
	}
	after := [][2]*spec24{}
	if len(ss) > 20 {
		after = [][2]*spec24{{ss[0], ss[1]}, {ss[4], ss[5]}, {ss[8], ss[13]}, {ss[14], ss[3]}, {prel[len(ss)], ss[4]}, {ss[17], ss[14]}}
	}
	for _, p := range prel {
		for ai, ab := range after {
			p, a, b := p, ab[0], ab[1]
			ai := ai
			c.CaseF("after failures", func() string { return p.name + ", then " + b.name + " in " + a.name }, func(t *T) {
				rs := []*ref24{ref(t, a), ref(t, b)}
				for k := 1; k <= ref(t, p).calls; k++ {
					if c.Quick() && (k+ai)%2 != 0 {
						continue
					}
					t.note = fmt.Sprintf("failing in callback %d", k)
					one(t, func(x *X) (func(), func()) {
						i := a.new()
						var in []*inst24
						stride := 1
						if b.ropt != nil {
							stride += rs[0].calls / 10 // each takes a thread
						}
						i.hook = func() {
							if i.calls%stride != k%stride {
								return
							}
							j := b.new()
							in = append(in, j)
							j.all()
						}
						return func() {
								pre := p.new()
								pre.fail = k
								pre.all()
								i.all()
							}, func() {
								how := fmt.Sprintf("after %s had failed in callback %d, %s in each callback of %s", p.name, k, b.name, a.name)
								check(x, how, []*inst24{i}, rs[:1])
								for _, j := range in {
									if x.fail == "" {
										check(x, how, []*inst24{j}, rs[1:])
									}
								}
							}
					})
				}
			})
		}
	}
	// Three deep.
	for ai, a := range sub {
		for bi, b := range sub {
			for di, d := range sub {
				if c.Quick() && (ai+2*bi+3*di)%12 != 0 {
					continue
				}
				c.CaseF("nested twice", func() string { return d.name + " in " + b.name + " in " + a.name }, func(t *T) {
					rs := []*ref24{ref(t, a), ref(t, b), ref(t, d)}
					for k1 := 1; k1 <= rs[0].calls; k1++ {
						for k2 := 1; k2 <= rs[1].calls; k2++ {
							t.note = fmt.Sprint("callbacks ", k1, k2)
							one(t, func(x *X) (func(), func()) {
								is := []*inst24{a.new(), b.new(), d.new()}
								is[0].hook = func() {
									if is[0].calls == k1 {
										is[1].all()
									}
								}
								is[1].hook = func() {
									if is[1].calls == k2 {
										is[2].all()
									}
								}
								return func() {
									is[0].all()
									if is[0].calls < k1 {
										is[1].all()
									}
									if is[1].calls < k2 {
										is[2].all()
									}
								}, func() { check(x, fmt.Sprintf("nested at callbacks %d, %d", k1, k2), is, rs) }
							})
						}
					}
				})
			}
		}
	}
}

// merges calls f with every order of n[i] steps of each script i.
func merges(n []int, f func(order []int)) {
	left := append([]int(nil), n...)
	var order []int
	var rec func()
	rec = func() {
		end := true
		for i := range left {
			if left[i] == 0 {
				continue
			}
			end = false
			left[i]--
			order = append(order, i)
			rec()
			order = order[:len(order)-1]
			left[i]++
		}
		if end {
			f(order)
		}
	}
	rec()
}
