package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{ID: "P26", Run: runP26,
		Bounds: "Writer: formats x 4 strategies x levels {0,1,6,9} x memory levels 1..9 x windows {2^8,2^15} x contents {noise, text, zeros, alternating pieces of these} x piece sizes {1, 100, 4096, 65536, all at once} x underlying writers with and without Flush, Sync, Seek, ReadFrom: what a flush would still push out, at several points up to four times the bound; live heap after 1, 2, 4 (thorough 16) MB; Reader: 10 stream shapes (stored, fixed, dynamic blocks, highly compressed, many members, empty blocks, empty members) x formats x memory levels 1..9 x read sizes {1, 100, 5000}, the underlying reader's position and the decoder's progress held against what was delivered, at 12 points, each after the decoder has come to rest; live heap at several points of streams of 16 MB, over 15000 headers each with fields of its own (thorough 64 MB), of 3000 members, and over 1500 Resets and 300 instances, also with a dictionary and a header of its own for each stream; live heap over 60000 (thorough 600000) of every kind of Writer call, of blocks, members and Resets of a Reader; goroutines left after Close, at end-of-file, after errors, and after Resets",
		Assumptions: []string{"The bounds are several times what the documented buffer sizes amount to: 256 KiB or 4 (Writer), 8 (Reader) times the buffers of the memory level; live heap is measured after garbage collection.",
			"A decoder is taken to have come to rest when it asks for no more input for a while; the comparison itself holds at any moment, so that slowness cannot cause an alarm."},
		MaxProcs: 2})
}

func heapNow() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// heapAt returns the live memory; if it is more than lim the measurement is
// repeated for a while, in case something was still going on.
func heapAt(lim int64) int64 {
	h := heapNow()
	for i := 1; i < 25 && h > lim; i++ {
		time.Sleep(time.Duration(i) * 10 * time.Millisecond)
		h = heapNow()
	}
	return h
}

// settled returns the number of goroutines, once it is at most want or has not
// become so for two seconds.
func settled(want int) int {
	for i := 0; i < 400; i++ {
		if n := runtime.NumGoroutine(); n <= want {
			return n
		}
		time.Sleep(5 * time.Millisecond)
	}
	return runtime.NumGoroutine()
}

// wLag is how much a Writer may hold back.
func wLag(m int) int {
	if m == 0 {
		m = 9
	}
	n := 4 << uint(m+8)
	if n < 256<<10 {
		n = 256 << 10
	}
	return n
}

// rLag is how far a Reader may run ahead.
func rLag(m int) int64 {
	n := int64(8) << uint(m+6)
	if n < 64<<10 {
		n = 64 << 10
	}
	return n
}

// wHeap bounds the live memory of a Writer.
func wHeap(m, w int) int64 { return 3*(6<<uint(w)+6<<uint(m+11)) + 128<<10 }

// rHeap bounds the live memory of a Reader.
func rHeap(m, w int) int64 { return 3*(3<<uint(w)+6<<uint(m+6)) + 128<<10 }

type countSink struct{ n int64 }

func (s *countSink) Write(p []byte) (int, error) { s.n += int64(len(p)); return len(p), nil }

// Sinks of other types; their methods are never called before a flush.
type flushSink26 struct{ *countSink }

func (flushSink26) Flush() error { return nil }

type syncSink26 struct{ *countSink }

func (syncSink26) Sync() error { return nil }

type allSink26 struct{ *countSink }

func (allSink26) Flush() error                          { return nil }
func (allSink26) Sync() error                           { return nil }
func (allSink26) Close() error                          { return nil }
func (allSink26) Seek(off int64, wh int) (int64, error) { return 0, nil }
func (s allSink26) WriteString(x string) (int, error)   { s.n += int64(len(x)); return len(x), nil }
func (s allSink26) WriteByte(b byte) error              { s.n++; return nil }
func (s allSink26) ReadFrom(r io.Reader) (int64, error) {
	n, err := io.Copy(struct{ io.Writer }{s.countSink}, r)
	return n, err
}

func sink26(s *countSink, kind int) io.Writer {
	switch kind & 3 {
	case 1:
		return flushSink26{s}
	case 2:
		return syncSink26{s}
	case 3:
		return allSink26{s}
	}
	return s
}

// data26 makes n bytes of a kind from a running state.
func data26(kind, n, seed int) []byte {
	switch kind {
	case 0:
		return noise(n, uint64(seed))
	case 1:
		return texty(n, uint64(seed))
	case 2:
		return zeros(n)
	}
	switch seed % 3 {
	case 0:
		return noise(n, uint64(seed))
	case 1:
		return texty(n, uint64(seed))
	}
	return zeros(n)
}

// lag26 writes total bytes and reports what a flush then pushes out.
func lag26(t *T, o wOpt, kind, piece, total int) {
	sink := &countSink{}
	fw := flate.NewWriter(sink26(sink, kind+piece/50+o.Mem+o.Lvl), o.opts()...)
	var all []byte
	for i := 0; len(all) < total; i++ {
		all = append(all, data26(kind, 50000, i)...)
	}
	sent := 0
	k := 0
	lim := int64(wLag(o.Mem))
	for sent < total {
		n := piece
		if n == 0 || n > total-sent {
			n = total - sent
		}
		p := all[sent : sent+n]
		writeAll(t, fw, p)
		sent += n
		k++
		if kind == 0 && int64(sent) > sink.n+lim {
			t.Failf("%v: %d incompressible bytes were written in pieces of %d, and only %d have come out", o, sent, piece, sink.n)
		}
		if k&1023 == 0 {
			t.c.crumb.tick()
		}
	}
	before := sink.n
	if err := fw.Flush(flate.SyncFlush); err != nil {
		t.Failf("Flush returned %v", err)
	}
	if held := sink.n - before; held > lim {
		t.Failf("%v: after %d bytes (kind %d, pieces of %d) %d bytes of compressed data were held back until a flush", o, total, kind, piece, held)
	}
	if err := fw.Close(); err != nil {
		t.Failf("Close returned %v", err)
	}
	t.State(o.String(), kind, piece, total)
	t.Trace()
}

// Streams for Readers, generated without end (or for n units).
type shape26 struct {
	name  string
	k     fmtKind
	head  []byte
	unit  []byte // repeated
	data  []byte // content of the unit
	multi bool   // a unit is a number of members
}

func shapes26() []shape26 {
	var out []shape26
	d1 := noise(1000, 3)
	tx := texty(1500, 4)
	for _, k := range allKinds {
		var head []byte
		switch k {
		case kZlib:
			head = zlibHeader(15, 2, nil)
		case kGzip:
			head = gzHead{os: 3, name: []byte("n"), hcrc: true}.bytes()
		}
		// Units must fill whole bytes: an empty stored block ends each.
		add := func(name string, data []byte, f func(w *bitw)) {
			w := &bitw{}
			f(w)
			w.stored(false, nil)
			out = append(out, shape26{fmt.Sprintf("%s-%v", name, k), k, head, w.p, data, false})
		}
		add("stored", d1, func(w *bitw) { w.stored(false, d1) })
		add("fixed", tx, func(w *bitw) { w.fixed(false, lits(tx)) })
		add("dynamic", tx, func(w *bitw) { w.autoDyn(false, lits(tx), false, true) })
		toks := []tk{lit(0)}
		for i := 0; i < 400; i++ {
			toks = append(toks, mt(258, 1))
		}
		bomb := applyToks(nil, toks)
		add("bomb", bomb, func(w *bitw) { w.autoDyn(false, toks, false, true) })
		add("small", []byte("abc"), func(w *bitw) { w.fixed(false, lits([]byte("abc"))) })
		add("emptyblocks", []byte("x"), func(w *bitw) {
			for i := 0; i < 50; i++ {
				w.stored(false, nil)
				w.fixed(false, nil)
			}
			w.fixed(false, lits([]byte("x")))
		})
		member := func(name string, data []byte, n int, f func(w *bitw)) {
			w := &bitw{}
			f(w)
			m := wrap(k, w.p, data, nil)
			out = append(out, shape26{fmt.Sprintf("%s-%v", name, k), k, nil, bytes.Repeat(m, n), bytes.Repeat(data, n), true})
		}
		member("members", tx, 1, func(w *bitw) { w.autoDyn(true, lits(tx), false, true) })
		member("smallmembers", []byte("y"), 40, func(w *bitw) { w.fixed(true, lits([]byte("y"))) })
		member("bombmembers", bomb, 1, func(w *bitw) { w.autoDyn(true, toks, false, true) })
	}
	return out
}

// endless is a shape as an underlying reader.
type endless struct {
	s     *shape26
	limit int64 // units; afterwards it blocks no one: end-of-file
	pos   atomic.Int64
	calls atomic.Int64
	chunk int
}

func (e *endless) Read(p []byte) (int, error) {
	e.calls.Add(1)
	pos := e.pos.Load()
	if e.chunk > 0 && len(p) > e.chunk {
		p = p[:e.chunk]
	}
	n := 0
	h := int64(len(e.s.head))
	u := int64(len(e.s.unit))
	for n < len(p) {
		if pos < h {
			m := copy(p[n:], e.s.head[pos:])
			n += m
			pos += int64(m)
			continue
		}
		if (pos-h)/u >= e.limit {
			break
		}
		m := copy(p[n:], e.s.unit[(pos-h)%u:])
		n += m
		pos += int64(m)
	}
	e.pos.Store(pos)
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// rest waits until the decoder asks for nothing more.
func (e *endless) rest() {
	last := int64(-1)
	for i, same := 0, 0; i < 2000 && same < 4; i++ {
		c := e.calls.Load()
		if c == last {
			same++
		} else {
			same = 0
		}
		last = c
		time.Sleep(100 * time.Microsecond)
	}
}

// ahead26 reads from a shape, holding progress against delivery.
func ahead26(t *T, s *shape26, mem, size, total int) {
	src := &endless{s: s, limit: 1 << 40}
	var blocks, begun atomic.Int64
	tr := flate.TracerFunc(func(e flate.Event) {
		switch e.Type {
		case flate.BlockEndEvent:
			blocks.Add(1)
		case flate.StreamBeginEvent:
			begun.Add(1)
		}
	})
	base := runtime.NumGoroutine()
	fr := flate.NewReader(src, rOpt{K: s.k, Mem: mem, W: 15, Tr: []flate.Tracer{tr}}.opts()...)
	buf := make([]byte, size)
	f := refDecode(append(append([]byte(nil), s.head...), s.unit...), s.k, nil, 15)
	unitBlocks := int64(0)
	for _, m := range f.Members {
		unitBlocks += int64(len(m.S.Blocks))
	}
	got := 0
	ud := int64(len(s.data))
	uz := int64(len(s.unit))
	every := total/size/12 + 1
	for i := 0; got < total; i++ {
		n, err := fr.Read(buf)
		if err != nil {
			t.Failf("%s: error %v after %d bytes of an endless stream", s.name, err, got)
		}
		for _, b := range buf[:n] {
			if b != s.data[int64(got)%ud] {
				t.Failf("%s: wrong data at %d", s.name, got)
			}
			got++
		}
		t.c.res.Transitions++
		if i%every != 0 {
			continue
		}
		src.rest()
		pos := src.pos.Load()
		units := int64(got)/ud + 1
		if over := pos - int64(len(s.head)) - units*uz; over > rLag(mem)+uz/ud*4<<uint(mem+6) {
			t.Failf("%s, memory level %d, reads of %d: with %d bytes delivered the Reader has taken in %d bytes, %d more than that needs", s.name, mem, size, got, pos, over)
		}
		dec := blocks.Load() / unitBlocks * ud
		if ahead := dec - int64(got) - ud; ahead > rLag(mem) {
			t.Failf("%s, memory level %d, reads of %d: with %d bytes delivered the Reader has decoded some %d bytes", s.name, mem, size, got, dec)
		}
		t.State(s.name, mem, size, i)
		t.Trace()
	}
	if err := fr.Close(); err != nil {
		t.Failf("Close returned %v", err)
	}
	calls := src.calls.Load()
	if n := settled(base); n > base {
		t.Failf("%s: %d goroutines after Close, %d before", s.name, n, base)
	}
	if c := src.calls.Load(); c != calls {
		t.Failf("%s: the underlying reader was read from after Close had returned", s.name)
	}
}

func runP26(c *C) {
	// What a Writer holds back.
	for ki, k := range allKinds {
		for si, s := range allStrats {
			for li, l := range []int{0, 1, 6, 9} {
				for m := 0; m <= 9; m++ {
					for wi, w := range []int{8, 15} {
						if c.Quick() && ((ki+si+li+m+wi)%3 != 0 || m == 0 || m == 4 || m == 6 || m == 7) {
							continue
						}
						o := wOpt{K: k, Strat: s, Lvl: l, Mem: m, W: w}
						ki, si, li, m := ki, si, li, m
						c.CaseF("held", func() string { return o.String() }, func(t *T) {
							lim := wLag(m)
							for kind := 0; kind < 4; kind++ {
								for pi, piece := range []int{0, 65536, 4096, 100, 1} {
									total := lim*2 + 12345
									if piece == 1 {
										total = lim + 77
									}
									if c.Quick() && (kind+pi+ki+si+li+m)%4 != 0 {
										continue
									}
									t.Note("%v kind %d piece %d", o, kind, piece)
									lag26(t, o, kind, piece, total)
									if !c.Quick() || kind == 0 && piece == 65536 {
										lag26(t, o, kind, piece, 4*lim)
									}
								}
							}
						})
					}
				}
			}
		}
	}
	// What a Writer keeps.
	for si, s := range allStrats {
		for li, l := range []int{0, 1, 6, 9} {
			for m := 1; m <= 9; m++ {
				for wi, w := range []int{8, 12, 15} {
					if c.Quick() && (si+li+m+wi)%4 != 0 {
						continue
					}
					o := wOpt{K: allKinds[(m+li)%3], Strat: s, Lvl: l, Mem: m, W: w}
					c.CaseF("writer heap", func() string { return o.String() }, func(t *T) {
						parts := [][]byte{noise(1<<18, 1), texty(1<<18, 2), zeros(1 << 18), bytes.Repeat([]byte("ab"), 1<<17)}
						base := heapNow()
						fw := flate.NewWriter(sink26(&countSink{}, si+li/2+m), o.opts()...)
						first := int64(0)
						for mb := 1; mb <= c.Pick(4, 16); mb++ {
							for i, p := range parts {
								for len(p) > 0 {
									n := minInt(len(p), 1<<uint(10+2*i))
									writeAll(t, fw, p[:n])
									p = p[n:]
								}
								if mb%2 == 0 {
									if err := fw.Flush([]flate.FlushType{flate.SyncFlush, flate.FullFlush, flate.PartialFlush, flate.FinishFlush}[i]); err != nil {
										t.Failf("Flush returned %v", err)
									}
								}
							}
							t.Note("%v %d MB", o, mb)
							if mb > 2 && mb&(mb-1) != 0 {
								continue
							}
							lim := wHeap(m, w)
							if mb > 2 && first+64<<10 < lim {
								lim = first + 64<<10
							}
							h := heapAt(base+lim) - base
							if h > wHeap(m, w) {
								t.Failf("%v: %d bytes of live memory after %d MB (%d at most are to be expected at this memory level and window)", o, h, mb, wHeap(m, w))
							}
							if mb == 2 {
								first = h
							}
							if mb > 2 && h > first+64<<10 {
								t.Failf("%v: live memory grew from %d bytes after 2 MB to %d after %d MB", o, first, h, mb)
							}
							t.State(o.String(), mb)
							t.Trace()
						}
						if err := fw.Close(); err != nil {
							t.Failf("Close returned %v", err)
						}
						runtime.KeepAlive(parts)
					})
				}
			}
		}
	}
	// How far a Reader runs ahead.
	shapes := shapes26()
	for i := range shapes {
		s := &shapes[i]
		for m := 1; m <= 9; m++ {
			for zi, size := range []int{1, 100, 5000} {
				if c.Quick() && (i+m+zi)%3 != 0 {
					continue
				}
				m, size := m, size
				c.CaseF("ahead", func() string { return fmt.Sprintf("%s/m%d/%d", s.name, m, size) }, func(t *T) {
					total := int(3*rLag(m)) + 1000
					if size == 1 {
						total = 20000
					}
					if len(s.data) < 10 {
						total = 3000
					}
					t.Note("%s memory level %d reads of %d", s.name, m, size)
					ahead26(t, s, m, size, total)
				})
			}
		}
	}
	// What a Reader keeps.
	for i := range shapes {
		s := &shapes[i]
		for m := 1; m <= 9; m++ {
			for _, w := range []int{15} {
				if c.Quick() && (i+m)%3 != 0 {
					continue
				}
				m, w := m, w
				c.CaseF("reader heap", func() string { return fmt.Sprintf("%s/m%d/w%d", s.name, m, w) }, func(t *T) {
					src := &endless{s: s, limit: 1 << 40}
					buf := make([]byte, 1<<16)
					base := heapNow()
					rec := 0
					tr := flate.TracerFunc(func(flate.Event) { rec++ })
					fr := flate.NewReader(src, rOpt{K: s.k, Mem: m, W: w, Tr: []flate.Tracer{tr}}.opts()...)
					first := int64(0)
					in := int64(c.Pick(1, 4)) << 20
					for step := 1; step <= 16; step++ {
						// Until so much was read or delivered.
						out := int64(0)
						for src.pos.Load() < in*int64(step)/16*int64(1+step/8) && out < 1<<20 {
							n, err := fr.Read(buf)
							if err != nil {
								t.Failf("%s: error %v", s.name, err)
							}
							out += int64(n)
							t.c.res.Transitions++
						}
						t.Note("%s step %d", s.name, step)
						if step != 2 && step != 4 && step != 8 && step != 16 {
							continue
						}
						src.rest()
						lim := rHeap(m, w)
						if step > 2 && first+64<<10 < lim {
							lim = first + 64<<10
						}
						h := heapAt(base+lim) - base
						if h > rHeap(m, w) {
							t.Failf("%s, memory level %d: %d bytes of live memory (%d at most are to be expected)", s.name, m, h, rHeap(m, w))
						}
						if step == 2 {
							first = h
						}
						if step > 2 && h > first+64<<10 {
							t.Failf("%s, memory level %d: live memory grew from %d to %d bytes", s.name, m, first, h)
						}
						t.State(s.name, m, step)
						t.Trace()
					}
					if err := fr.Close(); err != nil {
						t.Failf("Close returned %v", err)
					}
					if h := heapAt(base+rHeap(m, w)) - base; h > rHeap(m, w) {
						t.Failf("%s: %d bytes after Close", s.name, h)
					}
					runtime.KeepAlive(buf)
				})
			}
		}
	}
	// What is left of each of very many calls.
	manyOps26(c)
	// Use over and over.
	files, fail := corpusQuiet(c)
	if fail != "" {
		c.Case("corpus", "corpus", func(t *T) { t.Failf("%s", fail) })
		return
	}
	// how: 0 read to the end; 1 one Read; 2 none; 3 damaged; 4 cut; 5 with
	// dictionaries and headers used never before
	for how := 0; how < 6; how++ {
		// end: 0 Reset only; 1 Close and Reset; 2 new instance each time, closed; 3 new instance, left at its end
		for end := 0; end < 4; end++ {
			if end == 3 && how == 1 {
				continue // neither closed nor read to the end
			}
			how, end := how, end
			c.CaseF("readers", func() string { return fmt.Sprintf("how%d/end%d", how, end) }, func(t *T) {
				goros := runtime.NumGoroutine()
				base := int64(0)
				var fr *flate.Reader
				buf := make([]byte, 64)
				rounds := c.Pick(300, 3000)
				for r := 0; r < rounds; r++ {
					f := files[r*5%len(files)]
					in := f.in
					switch how {
					case 3:
						in = append([]byte(nil), in...)
						in[len(in)*2/3] ^= 0x24
					case 4:
						in = in[:len(in)*3/4]
					}
					o := f.o
					if how == 5 {
						w := &bitw{}
						w.fixed(true, lits([]byte("own")))
						if r%2 == 0 {
							d := noise(20000, uint64(r))
							in = wrapZlib(w.p, []byte("own"), 15, d)
							o = rOpt{K: []fmtKind{kZlib, kAuto}[r/2%2], W: 15, Dict: d}
						} else {
							in = wrapGzip(w.p, []byte("own"), gzHead{os: 3, name: texty(20000, uint64(r)), extra: validExtra(20000)})
							o = rOpt{K: kGzip, W: 15}
						}
					}
					o.Mem = 1 + r%3
					if o.Dict == nil {
						o.Dict = nil
					}
					opts := append([]flate.Option{flate.WithDictionary(nil)}, o.opts()...)
					if fr == nil || end >= 2 {
						fr = flate.NewReader(bytes.NewReader(in), opts...)
					} else {
						fr.Reset(bytes.NewReader(in), opts...)
					}
					var err error
					for n := 0; err == nil && !(how == 2 || how == 1 && n == 1); n++ {
						_, err = fr.Read(buf)
						t.c.res.Transitions++
					}
					if end == 1 || end == 2 {
						_ = fr.Close()
					}
					if r%64 == 0 {
						t.c.crumb.tick()
					}
					if r == rounds/3 {
						base = heapNow()
					}
				}
				if end < 2 {
					_ = fr.Close()
				}
				t.Trace()
				if n := settled(goros); n > goros {
					t.Failf("%d goroutines are left over from %d uses (%d before)", n, rounds, goros)
				}
				if h := heapAt(base + 256<<10); h > base+256<<10 {
					t.Failf("live memory grew from %d bytes after %d uses to %d after %d", base, rounds/3, h, rounds)
				}
			})
		}
	}
	for end := 0; end < 4; end++ {
		end := end
		c.CaseF("writers", func() string { return fmt.Sprintf("end%d", end) }, func(t *T) {
			goros := runtime.NumGoroutine()
			base := int64(0)
			var fw *flate.Writer
			rounds := c.Pick(300, 3000)
			tx := texty(3000, 1)
			for r := 0; r < rounds; r++ {
				o := wOpt{K: allKinds[r%3], Strat: allStrats[r/3%4], Lvl: r % 10, Mem: 1 + r%4, W: 8 + r%8, Dict: dictFor(r%3, 12)}
				if r%4 == 1 {
					// A dictionary used never before.
					o.Dict = noise(20000, uint64(r*4+end))
				}
				opts := append([]flate.Option{flate.WithDictionary(nil)}, o.opts()...)
				if fw == nil || end >= 1 {
					fw = flate.NewWriter(&countSink{}, opts...)
				} else {
					fw.Reset(&countSink{}, opts...)
				}
				if r%4 == 3 {
					if err := fw.SetHeader(flate.Header{FileName: string(texty(250, uint64(r))), ExtraData: flate.ExtraData{Records: []flate.ExtraDataRecord{{Bytes: noise(20000, uint64(r))}}}}); err != nil {
						t.Failf("SetHeader returned %v", err)
					}
				}
				writeAll(t, fw, tx[:r%3000])
				if end != 2 {
					if err := fw.Close(); err != nil {
						t.Failf("Close returned %v", err)
					}
				} else if err := fw.Flush(flate.FinishFlush); err != nil {
					t.Failf("Flush returned %v", err)
				}
				if r%64 == 0 {
					t.c.crumb.tick()
				}
				if r == rounds/3 {
					base = heapNow()
				}
			}
			t.Trace()
			if n := settled(goros); n > goros {
				t.Failf("%d goroutines are left over from %d uses of Writers (%d before)", n, rounds, goros)
			}
			// The last Writer's options differ.
			if h := heapAt(base + 512<<10); h > base+512<<10 {
				t.Failf("live memory grew from %d bytes after %d uses to %d after %d", base, rounds/3, h, rounds)
			}
			runtime.KeepAlive(fw)
		})
	}
}

// repeatSrc repeats a piece forever.
type repeatSrc struct {
	head, piece []byte
	pos         int64
}

func (r *repeatSrc) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		k := 0
		if r.pos < int64(len(r.head)) {
			k = copy(p[n:], r.head[r.pos:])
		} else {
			k = copy(p[n:], r.piece[(r.pos-int64(len(r.head)))%int64(len(r.piece)):])
		}
		n += k
		r.pos += int64(k)
	}
	return n, nil
}

func manyOps26(c *C) {
	rounds := c.Pick(60000, 600000)
	grown := func(t *T, what string, n int, op func(i int)) {
		base := int64(0)
		for i := 0; i < n; i++ {
			if i == n/8 {
				base = heapNow()
			}
			op(i)
			if i&1023 == 0 {
				t.c.crumb.tick()
				t.c.res.Transitions += 1024
			}
		}
		if h := heapAt(base + 96<<10); h > base+96<<10 {
			t.Failf("%s: live memory grew from %d bytes after %d calls to %d after %d", what, base, n/8, h, n)
		}
		t.State(what)
		t.Trace()
	}
	for oi, op := range []string{"BlockFlush", "PartialFlush", "SyncFlush", "FullFlush", "FinishFlush", "Write", "empty Write", "SetHeader", "accessors", "Reset"} {
		for v := 0; v < 3; v++ {
			oi, op, v := oi, op, v
			if c.Quick() && oi > 4 && v > 0 {
				continue
			}
			c.CaseF("many writer calls", func() string { return fmt.Sprintf("%s/%d", op, v) }, func(t *T) {
				o := wOpt{K: allKinds[v], Strat: allStrats[(oi+v)%4], Lvl: []int{6, 1, 0}[v], Mem: 1, W: 8}
				if v == 2 {
					o.Strat = flate.DefaultStrategy
				}
				fw := flate.NewWriter(sink26(&countSink{}, v), o.opts()...)
				one := []byte("x")
				grown(t, fmt.Sprintf("%v %s", o, op), rounds, func(i int) {
					var err error
					switch {
					case oi < 5:
						one[0] = byte(i * 7)
						writeAll(t, fw, one)
						err = fw.Flush(flate.FlushType(oi))
					case oi == 5:
						one[0] = byte(i * i >> 3)
						writeAll(t, fw, one)
					case oi == 6:
						_, err = fw.Write(nil)
					case oi == 7:
						err = fw.SetHeader(flate.Header{FileName: fmt.Sprint("file", i)})
						if err == nil && i%4 == 0 {
							writeAll(t, fw, one)
							err = fw.Flush(flate.FinishFlush)
						}
					case oi == 8:
						_, _, _, _ = fw.Format(), fw.Tracers(), fw.Dict(), fw.UnderlyingWriter()
					case oi == 9:
						if err = fw.Close(); err == nil {
							fw.Reset(&countSink{})
						}
					}
					if err != nil {
						t.Failf("%s: call %d returned %v", op, i, err)
					}
				})
				_ = fw.Close()
			})
		}
	}
	empty := func(w *bitw, kind int) {
		switch kind {
		case 0, 1:
			for i := 0; i < 20; i++ {
				if kind == 0 {
					w.stored(false, nil)
				} else {
					w.fixed(false, nil)
				}
			}
			w.stored(false, []byte("a"))
		case 2:
			w.stored(false, []byte("a"))
		case 3:
			w.autoDyn(false, lits([]byte("a")), true, true)
		}
	}
	for kind := 0; kind < 8; kind++ {
		for _, k := range allKinds {
			kind, k := kind, k
			if k == kRaw && kind >= 4 {
				continue
			}
			c.CaseF("many blocks and members", func() string { return fmt.Sprintf("%d/%v", kind, k) }, func(t *T) {
				src := &repeatSrc{}
				w := &bitw{}
				if kind < 4 {
					whole := wrap(k, []byte{1, 0, 0, 0xff, 0xff}, nil, nil)
					for i := 0; i+5 <= len(whole); i++ {
						if bytes.Equal(whole[i:i+5], []byte{1, 0, 0, 0xff, 0xff}) {
							src.head = whole[:i]
							break
						}
					}
					empty(w, kind)
					w.stored(false, nil) // up to a byte
					src.piece = w.p
				} else {
					x := &bitw{}
					empty(x, kind-4)
					x.stored(true, nil)
					f := refDecode(x.p, kRaw, nil, 15)
					src.piece = wrap(k, x.p, f.Out, nil)
				}
				var evs int
				fr := flate.NewReader(src, rOpt{K: k, Mem: 1, W: 15, Tr: []flate.Tracer{flate.TracerFunc(func(e flate.Event) { evs++ })}}.opts()...)
				buf := make([]byte, 16)
				grown(t, fmt.Sprintf("%v pieces of kind %d", k, kind), rounds/4, func(i int) {
					if _, err := fr.Read(buf[:1+i%16]); err != nil {
						t.Failf("Read returned %v", err)
					}
				})
				_ = fr.Close()
			})
		}
	}
	// Headers, each with contents of its own.
	for v := 0; v < 5; v++ {
		v := v
		c.CaseF("many headers", func() string { return fmt.Sprint(v) }, func(t *T) {
			x := &bitw{}
			x.fixed(true, lits([]byte("z")))
			src := &funcSrc{next: func(i int) []byte {
				text := []byte(fmt.Sprintf("%d is the number of this", i))
				h := gzHead{mtime: uint32(i), hcrc: i%2 == 0}
				if v == 0 || v == 3 {
					h.name = text
				}
				if v == 1 || v == 3 {
					h.com = text
				}
				if v == 2 || v == 3 {
					h.extra = concat([]byte{'a', byte(i), byte(len(text)), 0}, text, []byte{'b', byte(i), 0, 0})
				}
				return wrapGzip(x.p, []byte("z"), h)
			}}
			k := kGzip
			if v == 4 {
				k = kAuto
			}
			var seen flate.Header
			fr := flate.NewReader(src, rOpt{K: k, Mem: 1, W: 15, Tr: []flate.Tracer{flate.CaptureHeader(&seen)}}.opts()...)
			buf := make([]byte, 1)
			grown(t, fmt.Sprintf("headers %d", v), rounds/4, func(i int) {
				if _, err := fr.Read(buf); err != nil {
					t.Failf("Read returned %v", err)
				}
			})
			_ = fr.Close()
		})
		c.CaseF("many written headers", func() string { return fmt.Sprint(v) }, func(t *T) {
			var sink countSink
			fw := flate.NewWriter(&sink, flate.WithFormat(flate.GZIPFormat), flate.WithMemoryLevel(1))
			grown(t, fmt.Sprintf("written headers %d", v), rounds/4, func(i int) {
				text := fmt.Sprintf("%d is the number of this", i)
				var h flate.Header
				switch v {
				case 0:
					h.FileName = text
				case 1:
					h.Comment = text
				case 2:
					h.ExtraData.Records = []flate.ExtraDataRecord{{ID: [2]byte{'a', byte(i)}, Bytes: []byte(text)}}
				case 3:
					h.LastModified = time.Unix(int64(i)+1, 0)
				}
				if err := fw.SetHeader(h); err != nil {
					t.Failf("SetHeader returned %v", err)
				}
				if _, err := fw.Write([]byte(text)); err != nil {
					t.Failf("Write returned %v", err)
				}
				if err := fw.Flush(flate.FinishFlush); err != nil {
					t.Failf("Flush returned %v", err)
				}
			})
			if err := fw.Close(); err != nil {
				t.Failf("Close returned %v", err)
			}
		})
	}
	c.Case("many reader resets", "resets", func(t *T) {
		fr := flate.NewReader(bytes.NewReader(goodZlib), flate.WithMemoryLevel(1))
		buf := make([]byte, 100)
		grown(t, "Reset", rounds/4, func(i int) {
			fr.Reset(bytes.NewReader(goodZlib))
			if i%2 == 0 {
				_, _ = io.ReadFull(fr, buf[:len(goodContent)])
			}
			if i%3 == 0 {
				_ = fr.Close()
			}
		})
		_ = fr.Close()
	})
}

// funcSrc is an endless reader of what next returns.
type funcSrc struct {
	next func(i int) []byte
	i    int
	p    []byte
}

func (s *funcSrc) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		if len(s.p) == 0 {
			s.p = s.next(s.i)
			s.i++
		}
		k := copy(p[n:], s.p)
		s.p = s.p[k:]
		n += k
	}
	return n, nil
}
