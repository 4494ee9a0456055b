package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P12", Run: runP12,
		Bounds: "Reader: 30 first streams (valid, truncated, corrupt, failing reader) x {0..6, all} Reads x read size {1,128,4096} x {closed, not closed} x 47 option overrides x 9 second streams x memory levels 1/9; Writer: 86 histories (unused, finished, closed, sink failing in 6 later and at each of 49 early positions, Flush or Sync of the sink failing in 24 ways) x 36 base configurations x 47 overrides x 5 follow-ups; two resets in a row; Reset to another source or sink, or to the very same object with other contents (five types of sources, three of sinks); Reader windows: every size (8..15, default) to every other x streams reaching exactly as far as / one farther than either; compared with a new instance: bytes, errors, events, accessors",
	})
}

// delta is an option override.
type delta struct {
	name string
	r    func(o *rOpt)
	w    func(o *wOpt)
	opts []flate.Option
}

func deltas() []delta {
	var ds []delta
	add := func(name string, opts []flate.Option, r func(o *rOpt), w func(o *wOpt)) {
		if r == nil {
			r = func(o *rOpt) {}
		}
		if w == nil {
			w = func(o *wOpt) {}
		}
		ds = append(ds, delta{name, r, w, opts})
	}
	add("none", nil, nil, nil)
	for _, k := range []fmtKind{kAuto, kRaw, kZlib, kGzip} {
		k := k
		add("format-"+k.String(), []flate.Option{flate.WithFormat(k.format())}, func(o *rOpt) { o.K = k }, func(o *wOpt) { o.K = k })
	}
	for m := 0; m <= 9; m++ {
		m := m
		add(fmt.Sprintf("mem-%d", m), []flate.Option{flate.WithMemoryLevel(flate.MemoryLevel(m))}, func(o *rOpt) { o.Mem = m }, func(o *wOpt) { o.Mem = m })
	}
	for _, b := range []int{0, 8, 9, 10, 11, 12, 13, 14, 15} {
		b := b
		add(fmt.Sprintf("wbits-%d", b), []flate.Option{flate.WithWindowBits(flate.WindowBits(b))}, func(o *rOpt) { o.W = b }, func(o *wOpt) { o.W = b })
	}
	for i, d := range [][]byte{nil, []byte("reset dictionary"), zeros(33), texty(700, 3), noise(300, 4)} {
		d := d
		add(fmt.Sprintf("dict-%d", i), []flate.Option{flate.WithDictionary(d)}, func(o *rOpt) { o.Dict = d }, func(o *wOpt) { o.Dict = d })
	}
	for l := -1; l <= 9; l++ {
		l := l
		add(fmt.Sprintf("level-%d", l), []flate.Option{flate.WithCompressLevel(flate.CompressLevel(l))}, nil, func(o *wOpt) { o.Lvl = l })
	}
	for s := 0; s < 4; s++ {
		s := flate.Strategy(s)
		add(fmt.Sprintf("strategy-%d", s), []flate.Option{flate.WithStrategy(s)}, nil, func(o *wOpt) { o.Strat = s })
	}
	combo := []flate.Option{flate.WithFormat(flate.GZIPFormat), flate.WithMemoryLevel(2), flate.WithWindowBits(10), flate.WithDictionary(nil), flate.WithStrategy(flate.HuffmanRLEStrategy), flate.WithCompressLevel(9)}
	add("combo", combo, func(o *rOpt) { o.K, o.Mem, o.W, o.Dict = kGzip, 2, 10, nil },
		func(o *wOpt) {
			o.K, o.Mem, o.W, o.Dict, o.Strat, o.Lvl = kGzip, 2, 10, nil, flate.HuffmanRLEStrategy, 9
		})
	return ds
}

func sameTracers(a, b []flate.Tracer) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runP12(c *C) {
	ds := deltas()
	// Reader
	var files []vfile
	{
		t := &T{c: c}
		if f := t.run(func(t *T) { files = validFiles(t, true) }); f != "" {
			c.Case("corpus", "corpus", func(t *T) { t.Failf("%s", f) })
			return
		}
	}
	type hist struct {
		name string
		in   []byte
		err  error
		o    rOpt
	}
	var hists []hist
	bigw := &bitw{}
	bigc := texty(9000, 3)
	bigw.fixed(false, lits(bigc[:4000]))
	bigw.stored(true, bigc[4000:])
	hists = append(hists,
		hist{"big", wrapZlib(bigw.p, bigc, 15, nil), nil, rOpt{K: kZlib}},
		hist{"bigraw-dict", bigw.p, nil, rOpt{K: kRaw, Dict: texty(300, 9)}},
		hist{"empty", nil, nil, rOpt{K: kAuto}},
		hist{"onebyte", []byte{0x1f}, nil, rOpt{K: kAuto}},
		hist{"onlyerr", nil, errSink, rOpt{K: kGzip}},
	)
	for i, f := range files {
		if i%3 != 0 && i < 50 {
			continue
		}
		hists = append(hists, hist{f.name, f.in, nil, f.o})
		switch i % 4 {
		case 0:
			hists = append(hists, hist{f.name + "-cut", f.in[:len(f.in)*3/4], nil, f.o})
		case 1:
			b := append([]byte(nil), f.in...)
			b[len(b)/2] ^= 0x22
			hists = append(hists, hist{f.name + "-bad", b, nil, f.o})
		case 2:
			hists = append(hists, hist{f.name + "-err", f.in[:len(f.in)/2], errSink, f.o})
		}
	}
	seconds := []vfile{}
	{
		toks := append(lits([]byte("second stream ")), mt(14, 14), mt(100, 3), lit(0))
		data := applyToks(nil, toks)
		w := &bitw{}
		w.fixed(true, toks)
		w2 := &bitw{}
		w2.autoDyn(true, toks, true, true)
		// reaches into a dictionary that may have been left over
		w3 := &bitw{}
		w3.fixed(true, []tk{lit('q'), mt(5, 9), lit('r')})
		for _, k := range allKinds {
			seconds = append(seconds, vfile{"fixed-" + k.String(), wrap(k, w.p, data, nil), rOpt{}})
		}
		seconds = append(seconds,
			vfile{"dyn-gzip", wrapGzip(w2.p, data, gzHead{name: []byte("second"), com: []byte("c"), mtime: 99, os: 7}), rOpt{}},
			vfile{"dict-zlib", wrapZlib(w.p, data, 15, []byte("reset dictionary")), rOpt{}},
			vfile{"toofar-raw", w3.p, rOpt{}},
			vfile{"cut", wrap(kZlib, w.p, data, nil)[:20], rOpt{}},
			vfile{"empty", nil, rOpt{}},
			vfile{"two", concat(wrap(kGzip, w.p, data, nil), wrap(kGzip, w2.p, data, nil)), rOpt{}},
		)
	}
	for hi, h := range hists {
		for _, mem := range []int{1, 9} {
			hi, h, mem := hi, h, mem
			c.CaseF("reader", func() string { return fmt.Sprintf("%s/m%d", h.name, mem) }, func(t *T) {
				n := 0
				for _, size := range []int{1, 128, 4096} {
					for reads := 0; reads <= 7; reads++ {
						for cl := 0; cl < 3; cl++ {
							for di, d := range ds {
								n++
								if c.Quick() && (n+di+hi)%7 != 0 {
									continue
								}
								s := seconds[(n/3+di)%len(seconds)]
								o := h.o
								o.Mem, o.W = mem, 15
								rec := &evRec{}
								o.Tr = []flate.Tracer{rec}
								var src io.Reader = bytes.NewReader(h.in)
								switch {
								case h.err != nil:
									src = &prefixReader{h.in, h.err}
								case n/2%4 == 1:
									src = strings.NewReader(string(h.in))
								case n/2%4 == 2:
									src = bytes.NewBuffer(append([]byte(nil), h.in...))
								case n/2%4 == 3:
									src = bufio.NewReaderSize(bytes.NewReader(h.in), 16)
								}
								fr := flate.NewReader(src, o.opts()...)
								buf := make([]byte, size)
								for i := 0; i < reads || reads == 7; i++ {
									if _, err := fr.Read(buf); err != nil {
										break
									}
								}
								switch cl {
								case 1:
									_ = fr.Close()
								case 2:
									// a reset in between
									fr.Reset(bytes.NewReader(goodZlib))
									if reads%2 == 0 {
										_, _ = fr.Read(buf)
									}
								}
								t.Note("%s mem %d size %d reads %d close %d, then %s with %s", h.name, mem, size, reads, cl, s.name, d.name)
								o2 := o
								d.r(&o2)
								var src2 io.Reader = bytes.NewReader(s.in)
								if cl == 1 && n%2 == 0 {
									// the very object it had, with other contents
									switch x := src.(type) {
									case *prefixReader:
										*x = prefixReader{s.in, io.EOF}
									case *bytes.Reader:
										x.Reset(s.in)
									case *strings.Reader:
										x.Reset(string(s.in))
									case *bytes.Buffer:
										x.Reset()
										x.Write(s.in)
									case *bufio.Reader:
										x.Reset(bytes.NewReader(s.in))
									}
									src2 = src
									t.Note("%s, same %T", t.note, src)
								}
								fr.Reset(src2, d.opts...)
								t.Step(2)
								rec.evs = nil
								got, err := drainR(t, fr, nil)
								o3 := o2
								rec3 := &evRec{}
								o3.Tr = []flate.Tracer{rec3}
								src3 := bytes.NewReader(s.in)
								fresh := flate.NewReader(src3, o3.opts()...)
								want, werr := drainR(t, fresh, nil)
								if !bytes.Equal(got, want) {
									t.Failf("%s: after Reset other data than a new Reader (%v, %v): %s", t.note, err, werr, diffAt(got, want))
								}
								if classify(err) != classify(werr) || errProblem(err) != errProblem(werr) {
									t.Failf("%s: after Reset error %v, a new Reader gives %v", t.note, err, werr)
								}
								if a, b := evKeys(rec.evs, true), evKeys(rec3.evs, true); a != b {
									t.Failf("%s: after Reset events\n%s\na new Reader sends\n%s", t.note, a, b)
								}
								if fr.Format() != fresh.Format() || fr.MemoryLevel() != fresh.MemoryLevel() || fr.WindowBits() != fresh.WindowBits() ||
									!bytes.Equal(fr.Dict(), fresh.Dict()) || (fr.Dict() == nil) != (fresh.Dict() == nil) {
									t.Failf("%s: accessors differ: %v/%v/%v/%x, new Reader %v/%v/%v/%x", t.note, fr.Format(), fr.MemoryLevel(), fr.WindowBits(), fr.Dict(),
										fresh.Format(), fresh.MemoryLevel(), fresh.WindowBits(), fresh.Dict())
								}
								if fr.UnderlyingReader() != src2 || !sameTracers(fr.Tracers(), o.Tr) {
									t.Failf("%s: UnderlyingReader or Tracers is wrong", t.note)
								}
								_ = fr.Close()
								_ = fresh.Close()
								t.Trace()
								t.StateKey(t.note)
							}
						}
					}
				}
			})
		}
	}

	// Reader windows: from every size to every other; streams that reach
	// exactly as far as, and farther than, either size
	for from := 7; from <= 15; from++ {
		for to := 7; to <= 15; to++ {
			from, to := from, to
			c.CaseF("windows", func() string { return fmt.Sprintf("%d-%d", from, to) }, func(t *T) { windowReset(t, from, to) })
		}
	}

	// Reader tracers replaced
	c.Case("tracers", "reader", func(t *T) {
		for v := 0; v < 3; v++ {
			r1, r2 := &evRec{}, &evRec{}
			fr := flate.NewReader(bytes.NewReader(goodZlib), flate.WithTracers(r1))
			_, _ = io.ReadAll(fr)
			n := len(r1.evs)
			switch v {
			case 0:
				fr.Reset(bytes.NewReader(goodZlib), flate.WithTracers(r2))
			case 1:
				fr.Reset(bytes.NewReader(goodZlib), flate.WithTracers())
			case 2:
				fr.Reset(bytes.NewReader(goodZlib), flate.WithTracers(r2, r1))
			}
			_, _ = io.ReadAll(fr)
			want := [][2]int{{n, n}, {n, 0}, {2 * n, n}}[v]
			if n == 0 || len(r1.evs) != want[0] || len(r2.evs) != want[1] {
				t.Failf("variant %d: old tracer got %d events, new one %d; want %v", v, len(r1.evs), len(r2.evs), want)
			}
			_ = fr.Close()
			t.Trace()
		}
	})

	// Writer
	type wh struct {
		name string
		f    func(t *T, fw *flate.Writer, sink *flushSink)
	}
	dA, dB := texty(900, 41), concat(noise(700, 42), texty(4000, 41))
	whists := []wh{
		{"unused", func(t *T, fw *flate.Writer, s *flushSink) {}},
		{"closed-empty", func(t *T, fw *flate.Writer, s *flushSink) { _ = fw.Close() }},
		{"closed", func(t *T, fw *flate.Writer, s *flushSink) { _, _ = fw.Write(dA); _ = fw.Close() }},
		{"closed-big", func(t *T, fw *flate.Writer, s *flushSink) { _, _ = fw.Write(dB); _ = fw.Close() }},
		{"closed-flushes", func(t *T, fw *flate.Writer, s *flushSink) {
			for f := 0; f < 5; f++ {
				_, _ = fw.Write(dA[:77])
				_ = fw.Flush(flate.FlushType(f))
			}
			_ = fw.Close()
		}},
		{"finished", func(t *T, fw *flate.Writer, s *flushSink) { _, _ = fw.Write(dA); _ = fw.Flush(flate.FinishFlush) }},
		{"finished-twice", func(t *T, fw *flate.Writer, s *flushSink) {
			_, _ = fw.Write(dA)
			_ = fw.Flush(flate.FinishFlush)
			_, _ = fw.Write(dB)
			_ = fw.Flush(flate.FinishFlush)
			_ = fw.Flush(flate.SyncFlush)
		}},
	}
	for i, at := range []int{0, 1, 5, 60, 300, 700} {
		at, i := at, i
		whists = append(whists, wh{fmt.Sprintf("failed-at-%d", at), func(t *T, fw *flate.Writer, s *flushSink) {
			s.failAt, s.err = at, errSink
			s.mode = i % 2
			for k := 0; k < 40 && !s.failed; k++ {
				_, _ = fw.Write(dB[k*100 : k*100+100])
				if k%3 == i%3 {
					_ = fw.Flush(flate.FlushType(k % 3))
				}
			}
			if i%2 == 0 {
				_ = fw.Close()
			}
		}})
	}
	// a sink failing at every early position, so that whatever the Writer
	// holds back at that moment (bits of an unfinished byte included) is there
	for at := 0; at <= 48; at++ {
		at := at
		whists = append(whists, wh{fmt.Sprintf("fails-early-%d", at), func(t *T, fw *flate.Writer, s *flushSink) {
			s.failAt, s.err = at, errSink
			s.mode = at / 2 % 2
			for k := 0; k < 120 && !s.failed; k++ {
				if _, err := fw.Write(dA[k*7 : k*7+5]); err != nil {
					break
				}
				if err := fw.Flush(flate.FlushType(at % 2)); err != nil {
					break
				}
			}
			if !s.failed {
				_ = fw.Close()
			}
		}})
	}
	// a sink whose Flush or Sync fails: nothing is wrong with the output then,
	// and the Writer may hold an unfinished byte
	for v := 0; v < 24; v++ {
		v := v
		name := []string{"flush", "sync"}[v%2]
		whists = append(whists, wh{fmt.Sprintf("%s-fails-%d", name, v), func(t *T, fw *flate.Writer, s *flushSink) {
			errs := append(make([]error, v/2%3), errSink)
			if v%2 == 0 {
				s.flushErr = errs
			} else {
				s.syncErr = errs
			}
			failed := false
			for k := 0; k < 12 && !failed; k++ {
				_, e := fw.Write(dA[k*3 : k*3+1+v/6])
				failed = e != nil || fw.Flush(flate.FlushType((v/6+k)%4)) != nil
			}
			if !failed {
				t.Failf("%s: the failing %s went unnoticed", t.note, name)
			}
		}})
	}
	var bases []wOpt
	for _, k := range allKinds {
		for si, s := range allStrats {
			for _, l := range []int{0, 6, 1} {
				o := wOpt{K: k, Strat: s, Lvl: l, Mem: 1 + si%3, W: 8 + si}
				if (si+l)%2 == 0 {
					o.Dict = texty(150, 41)
				}
				bases = append(bases, o)
			}
		}
	}
	follow := []func(fw *flate.Writer) error{
		func(fw *flate.Writer) error { return nil },
		func(fw *flate.Writer) error { _, err := fw.Write(dA); return err },
		func(fw *flate.Writer) error { _, err := fw.Write(dA[:5]); return err },
		func(fw *flate.Writer) error {
			if _, err := fw.Write(dB); err != nil {
				return err
			}
			if err := fw.Flush(flate.SyncFlush); err != nil {
				return err
			}
			_, err := fw.Write(dA)
			return err
		},
		func(fw *flate.Writer) error {
			for i := 0; i < 6; i++ {
				if _, err := fw.Write(dA[i*20 : i*20+30]); err != nil {
					return err
				}
				if err := fw.Flush(flate.FlushType(i % 5)); err != nil {
					return err
				}
			}
			return nil
		},
	}
	for bi, o := range bases {
		for hi, h := range whists {
			bi, o, hi, h := bi, o, hi, h
			c.CaseF("writer", func() string { return fmt.Sprintf("%v/%s", o, h.name) }, func(t *T) {
				early := strings.Contains(h.name, "-fails") || strings.HasPrefix(h.name, "fails-early")
				for di, d := range ds {
					for fi, fol := range follow {
						if c.Quick() && ((di+fi+hi+bi)%4 != 0 || early && (di+fi*3+hi+bi)%16 != 0) {
							continue
						}
						for twice := 0; twice < 2; twice++ {
							if twice == 1 && (di+fi)%3 != 0 {
								continue
							}
							t.Note("%v, %s, Reset with %s, follow-up %d, twice %d", o, h.name, d.name, fi, twice)
							s := &flushSink{}
							s.failAt = -1
							rec := &evRec{}
							ob := o
							ob.Tr = []flate.Tracer{rec}
							var old0 io.Writer = &s.faultSink
							if strings.Contains(h.name, "flush-fails") || strings.Contains(h.name, "sync-fails") || (bi+hi)%3 == 0 {
								old0 = s
							}
							// same: the sink before is the sink afterwards
							same := (di+fi+hi+bi)/4%2 == 1
							fw := flate.NewWriter(old0, ob.opts()...)
							h.f(t, fw, s)
							old := s.buf.Len()
							sink, fsink := &bytes.Buffer{}, &bytes.Buffer{}
							if twice == 1 {
								mid := &bytes.Buffer{}
								if same {
									mid = sink
								}
								fw.Reset(mid)
								_, _ = fw.Write(dA[:200])
								_ = fw.Close()
							}
							var to io.Writer = sink
							if same && twice == 1 {
								sink.Reset()
							} else if same {
								s.faultSink = faultSink{failAt: -1}
								s.flushErr, s.syncErr = nil, nil
								sink, to, old = &s.buf, old0, 0
							}
							t.Note("%s, same %v", t.note, same)
							fw.Reset(to, d.opts...)
							rec.evs = nil
							o2 := o
							d.w(&o2)
							rec2 := &evRec{}
							of := o2
							of.Tr = []flate.Tracer{rec2}
							fresh := flate.NewWriter(fsink, of.opts()...)
							if e1, e2 := fol(fw), fol(fresh); !sameErr(e1, e2) {
								t.Failf("%s: error %v, a new Writer gives %v", t.note, e1, e2)
							}
							if e1, e2 := fw.Close(), fresh.Close(); !sameErr(e1, e2) {
								t.Failf("%s: Close %v, a new Writer gives %v", t.note, e1, e2)
							}
							t.Step(4)
							if !bytes.Equal(sink.Bytes(), fsink.Bytes()) {
								t.Failf("%s: other bytes than a new Writer: %s", t.note, diffAt(sink.Bytes(), fsink.Bytes()))
							}
							if sink != &s.buf && s.buf.Len() != old {
								t.Failf("%s: the old sink was written to", t.note)
							}
							for i := range rec.evs {
								rec.evs[i].NumStreams = 0
							}
							for i := range rec2.evs {
								rec2.evs[i].NumStreams = 0
							}
							if a, b := evKeys(rec.evs, true), evKeys(rec2.evs, true); a != b {
								t.Failf("%s: events\n%s\na new Writer sends\n%s", t.note, a, b)
							}
							if fw.Format() != fresh.Format() || fw.Method() != fresh.Method() || fw.Strategy() != fresh.Strategy() || fw.CompressLevel() != fresh.CompressLevel() ||
								fw.MemoryLevel() != fresh.MemoryLevel() || fw.WindowBits() != fresh.WindowBits() || !bytes.Equal(fw.Dict(), fresh.Dict()) || (fw.Dict() == nil) != (fresh.Dict() == nil) {
								t.Failf("%s: accessors differ", t.note)
							}
							if fw.UnderlyingWriter() != to || !sameTracers(fw.Tracers(), ob.Tr) {
								t.Failf("%s: UnderlyingWriter or Tracers is wrong", t.note)
							}
							t.Trace()
							t.StateKey(t.note)
						}
					}
				}
			})
		}
	}
}

// reaching is a stream with a match at the given distance.
func reaching(k fmtKind, dist, wbits int) []byte {
	w := &bitw{}
	data := noise(dist, uint64(dist))
	w.stored(false, data)
	toks := []tk{mt(9, dist), lit('x'), mt(4, 1)}
	full := applyToks(data, toks)
	w.fixed(true, toks)
	if k == kZlib {
		return wrapZlib(w.p, full, wbits, nil)
	}
	return wrap(k, w.p, full, nil)
}

// windowReset resets a Reader from one window size to another (7: the
// default) and compares it with a new one.
func windowReset(t *T, from, to int) {
	opt := func(b int) int {
		if b == 7 {
			return 0
		}
		return b
	}
	dists := []int{1}
	for _, b := range []int{from, to, 8, 15} {
		if b > 7 {
			dists = append(dists, 1<<uint(b)-1, 1<<uint(b))
		}
		if b > 7 && b < 15 {
			dists = append(dists, 1<<uint(b)+1)
		}
	}
	for i, d := range dists {
		for _, k := range allKinds {
			for hist := 0; hist < 4; hist++ {
				for _, wb := range []int{8, 15} {
					if k != kZlib && wb == 8 {
						continue
					}
					t.Note("window %d, history %d, then window %d and a %v stream (window %d) reaching %d", from, hist, to, k, wb, d)
					in := reaching(k, d, wb)
					o := rOpt{K: k, Mem: 1 + (i+hist)%9, W: opt(from)}
					fresh := o
					fresh.W = opt(to)
					first := reaching(k, 1<<uint(pick(from == 7, 15, from)), pick(from == 7, 15, from))
					fr := flate.NewReader(bytes.NewReader(first), o.opts()...)
					switch hist {
					case 1:
						_, _ = io.ReadAll(fr)
					case 2:
						_, _ = fr.Read(make([]byte, 10))
					case 3:
						_, _ = io.ReadAll(fr)
						_ = fr.Close()
					}
					src := bytes.NewReader(in)
					fr.Reset(src, flate.WithWindowBits(flate.WindowBits(opt(to))))
					t.Step(2)
					got, err := drainR(t, fr, nil)
					_ = fr.Close()
					ff := flate.NewReader(bytes.NewReader(in), fresh.opts()...)
					want, werr := drainR(t, ff, nil)
					_ = ff.Close()
					if !bytes.Equal(got, want) || classify(err) != classify(werr) || errProblem(err) != errProblem(werr) {
						t.Failf("%s: %d bytes, %v; a new Reader gives %d bytes, %v", t.note, len(got), err, len(want), werr)
					}
					t.Trace()
					t.StateKey(t.note)
				}
			}
		}
	}
}

func pick(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// errProblem is the part of an error that a Reset must not change.
func errProblem(err error) string {
	var ce flate.CorruptInputError
	if errors.As(err, &ce) {
		return fmt.Sprintf("%d %s", ce.OffsetStream, ce.Problem)
	}
	return err.Error()
}
