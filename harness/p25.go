package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{ID: "P25", Run: runP25,
		Bounds:      "Writer: 3 formats x 4 strategies x 5 levels x memory levels 1 and 5 x 6 contents x 8 write patterns x 2 flush patterns, the caller's slice being one reused buffer with canaries that is scribbled over after every call, against the same calls with fresh slices; every byte of the slice compared after every call; Reader: corpus of valid, truncated and corrupt files x read sizes 0..300, 4096, 70000 with canaries around the slice, the delivered part scribbled over after every call and the whole kept under observation until Close; underlying readers that use all of the slice as scratch space, with short, empty and final reads; underlying writers that hash the slice on entry and exit of the call; dictionaries, dictionary accessor results, tracer lists and tracer accessor results overwritten at every step of the use (before construction, before use, mid-stream, before Reset), for Reader and Writer, 3 formats",
		Assumptions: []string{"Extra-data slices inside a Header given to SetHeader are not covered: nothing says whether they are copied."},
	})
}

// retainReader hands out data and uses the whole slice as scratch space.
type scratchReader struct {
	in    []byte
	pos   int
	chunk int
	style int // 0 scratch after the data, 1 scratch before too and empty reads, 2 EOF with data
	n     int
}

func (s *scratchReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(0xC3 + i*7 + s.n)
	}
	s.n++
	if s.style == 1 && s.n%2 == 0 {
		return 0, nil
	}
	if s.pos >= len(s.in) {
		return 0, io.EOF
	}
	n := s.chunk
	if n == 0 {
		n = s.n % 17
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.in[s.pos:])
	s.pos += n
	for i := n; i < len(p); i++ {
		p[i] ^= 0x5A
	}
	if s.style == 2 && s.pos >= len(s.in) {
		return n, io.EOF
	}
	return n, nil
}

// hashWriter checks that what it is shown does not change under its eyes and
// takes a copy.
type hashWriter struct {
	t   *T
	buf bytes.Buffer
	cal int
}

func (h *hashWriter) Write(p []byte) (int, error) {
	a := refCRC(p)
	h.buf.Write(p)
	h.cal++
	if refCRC(p) != a {
		h.t.Failf("the slice shown to the underlying writer changed during the call")
	}
	return len(p), nil
}

const canary = 32

// arena is a caller's buffer between canaries.
type arena struct {
	all  []byte
	snap []byte
}

func newArena(n int) *arena {
	a := &arena{all: make([]byte, n+2*canary)}
	a.fill(0xE7)
	return a
}

func (a *arena) fill(x byte) {
	for i := range a.all {
		a.all[i] = x + byte(i*13)
	}
	a.save()
}

func (a *arena) save() { a.snap = append(a.snap[:0], a.all...) }

// slice is the usable part; its capacity reaches into the canary.
func (a *arena) slice(n int) []byte { return a.all[canary : canary+n] }

// unchanged checks that nothing but [from,to) of the slice changed.
func (a *arena) unchanged(t *T, what string, from, to int) {
	for i := range a.all {
		if a.all[i] != a.snap[i] {
			k := i - canary
			if k < from || k >= to {
				t.Failf("%s: byte %d of the caller's slice was changed (allowed: [%d,%d))", what, k, from, to)
			}
		}
	}
}

func p25Contents() [][]byte {
	return [][]byte{
		{}, []byte("abcabcabcabcabcd"), texty(3000, 1), noise(900, 2),
		concat(texty(9000, 3), zeros(700), noise(3000, 4), texty(9000, 3)),
		concat(bytes.Repeat([]byte("0123456789abcdef"), 300), noise(70000, 6)),
	}
}

func runP25(c *C) {
	contents := p25Contents()
	levels := []int{0, 1, 3, 6, 9}
	for _, k := range allKinds {
		for _, st := range allStrats {
			for _, lv := range levels {
				for _, mem := range []int{1, 5} {
					for ci, data := range contents {
						if c.Quick() && mem == 5 && ci < 3 {
							continue
						}
						o := wOpt{K: k, Strat: st, Lvl: lv, Mem: mem, W: 15}
						c.CaseF("write", func() string { return fmt.Sprintf("%v content=%d", o, ci) }, func(t *T) {
							sizes := []int{0, 1, 3, 64, 100, 512, 4096, 5000}
							for _, sz := range sizes {
								if sz != 0 && len(data)/sz > 1200 {
									continue
								}
								for fl := 0; fl < 2; fl++ {
									t.Note("pieces of %d flush %d", sz, fl)
									p25Write(t, o, data, sz, fl)
								}
							}
						})
					}
				}
			}
		}
	}

	// Reader.
	var files []vfile
	{
		t := &T{c: c}
		if f := t.run(func(t *T) { files = validFiles(t, c.Quick()) }); f != "" {
			c.Case("corpus", "corpus", func(t *T) { t.Failf("%s", f) })
			return
		}
	}
	var all []vfile
	for _, f := range files {
		all = append(all, f)
		if len(f.in) > 20 {
			cut := f
			cut.name += "-cut"
			cut.in = f.in[:len(f.in)-9]
			all = append(all, cut)
			bad := f
			bad.name += "-bad"
			bad.in = append([]byte(nil), f.in...)
			bad.in[len(bad.in)*2/3] ^= 0x10
			all = append(all, bad)
		}
	}
	for _, f := range all {
		c.Case("read", f.name, func(t *T) {
			base := observe(t, bytes.NewReader(f.in), f.o, nil)
			var sizes []int
			for n := 1; n <= 300; n++ {
				if c.Quick() && n > 20 && n%41 != 0 {
					continue
				}
				sizes = append(sizes, n)
			}
			sizes = append(sizes, 4096, 70000)
			for _, n := range sizes {
				if len(base.out)/n > 3000 {
					continue
				}
				for _, mem := range []int{1, 9} {
					t.Note("read size %d mem %d", n, mem)
					o := f.o
					o.Mem = mem
					p25Read(t, f.in, o, n, base)
				}
			}
		})
		c.Case("scratch", f.name, func(t *T) {
			base := observe(t, bytes.NewReader(f.in), f.o, nil)
			for _, ch := range []int{0, 1, 2, 7, 100, 1 << 20} {
				for style := 0; style < 3; style++ {
					if ch == 1 && len(f.in) > 20000 {
						continue
					}
					for _, mem := range []int{1, 4, 9} {
						t.Note("chunk %d style %d mem %d", ch, style, mem)
						o := f.o
						o.Mem = mem
						got := observe(t, &scratchReader{in: f.in, chunk: ch, style: style}, o, nil)
						sameOutcome(t, "an underlying reader that uses its slice as scratch space", base, got)
					}
				}
			}
		})
	}

	// Dictionaries.
	for _, k := range allKinds {
		for dk := 0; dk < 4; dk++ {
			for step := 0; step < 7; step++ {
				c.Case("dictionary", fmt.Sprintf("%v dict=%d overwritten at step %d", k, dk, step), func(t *T) { p25Dict(t, k, dk, step) })
			}
		}
	}
	// Tracers.
	for step := 0; step < 7; step++ {
		for n := 1; n <= 4; n++ {
			c.Case("tracers", fmt.Sprintf("%d tracers, overwritten at step %d", n, step), func(t *T) { p25Tracers(t, n, step) })
		}
	}
}

func p25Write(t *T, o wOpt, data []byte, size int, fl int) {
	pieces := split(data, size)
	var flush []int
	for i := range pieces {
		if fl == 1 && i%3 == 1 {
			flush = append(flush, 1+i/3%4)
		} else {
			flush = append(flush, -1)
		}
	}
	w := wrun{o: o, pieces: pieces, flush: flush}
	base := w.exec(t)

	max := 1
	for _, p := range pieces {
		if len(p) > max {
			max = len(p)
		}
	}
	a := newArena(max)
	h := &hashWriter{t: t}
	fw := flate.NewWriter(h, o.opts()...)
	for i, p := range pieces {
		a.fill(byte(i * 5))
		s := a.slice(len(p))
		copy(s, p)
		a.save()
		n, err := fw.Write(s)
		t.Step(1)
		if n != len(p) || err != nil {
			t.Failf("Write(%d) = %d, %v", len(p), n, err)
		}
		a.unchanged(t, "Write", 0, 0)
		a.fill(byte(i*5 + 99))
		if flush[i] >= 0 {
			if err := fw.Flush(flate.FlushType(flush[i])); err != nil {
				t.Failf("Flush: %v", err)
			}
			t.Step(1)
			a.unchanged(t, "Flush after Write", 0, 0)
		}
	}
	if err := fw.Close(); err != nil {
		t.Failf("Close: %v", err)
	}
	t.Step(1)
	a.unchanged(t, "Close", 0, 0)
	if !bytes.Equal(h.buf.Bytes(), base.stream) {
		t.Failf("overwriting the caller's slice after Write returned changed the output: %s", diffAt(h.buf.Bytes(), base.stream))
	}
	got, err := decodeAll(t, base.stream, o.reader(5))
	if err != io.EOF || !bytes.Equal(got, data) {
		t.Failf("the output does not decode: %v %s", err, diffAt(got, data))
	}
	t.State("w", o, size, fl, len(data))
	t.Trace()
}

func p25Read(t *T, in []byte, o rOpt, size int, base outcome) {
	fr := flate.NewReader(bytes.NewReader(in), o.opts()...)
	// Two slices in turn: one that was read into earlier must stay alone.
	as := [2]*arena{newArena(size), newArena(size)}
	var out []byte
	zero := 0
	for i := 0; ; i++ {
		a, b := as[i&1], as[1-i&1]
		a.fill(byte(i))
		n, err := fr.Read(a.slice(size))
		t.Step(1)
		if n < 0 || n > size {
			t.Failf("Read(%d) returned %d", size, n)
		}
		a.unchanged(t, "Read", 0, n)
		b.unchanged(t, "Read into another slice", 0, 0)
		out = append(out, a.slice(n)...)
		a.fill(byte(i + 101))
		if err != nil {
			if err.Error() != base.err {
				t.Failf("ended with %v, want %s", err, base.err)
			}
			break
		}
		if n == 0 {
			zero++
			if zero > 100 {
				t.Failf("Read returns 0, nil for ever")
			}
		} else {
			zero = 0
		}
	}
	n, err := fr.Read(as[0].slice(size))
	if n != 0 || err == nil {
		t.Failf("Read after the end returned %d, %v", n, err)
	}
	_ = fr.Close()
	t.Step(2)
	as[0].unchanged(t, "at the end", 0, 0)
	as[1].unchanged(t, "at the end", 0, 0)
	if !bytes.Equal(out, base.out) {
		t.Failf("overwriting the caller's slice after Read returned changed what is read later: %s", diffAt(out, base.out))
	}
	t.State("r", len(in), refCRC(in), o, size)
	t.Trace()
}

func scribble(p []byte) {
	for i := range p {
		p[i] = byte(0x3C + i*11)
	}
}

// p25Dict uses a dictionary whose original slice, and the slices handed out by
// the accessors, are overwritten at the given step.
func p25Dict(t *T, k fmtKind, dk, step int) {
	var orig []byte
	switch dk {
	case 0:
		orig = []byte("hello, dictionary world")
	case 1:
		orig = noise(258, 3)
	case 2:
		orig = texty(32768, 4)
	case 3:
		orig = noise(40000, 5)
	}
	tail := orig
	if len(tail) > 3000 {
		tail = tail[len(tail)-3000:]
	}
	data := concat(tail, []byte("--"), tail)
	for _, mem := range []int{1, 9} {
		d := append(make([]byte, 0, len(orig)+64), orig...)
		hit := func(s int, acc func() []byte) {
			if s == step {
				scribble(d[:cap(d)])
				if acc != nil {
					scribble(acc())
				}
			}
		}
		// Writer.
		opts := []flate.Option{flate.WithFormat(k.format()), flate.WithMemoryLevel(flate.MemoryLevel(mem)), flate.WithDictionary(d)}
		hit(0, nil)
		var sink bytes.Buffer
		fw := flate.NewWriter(&sink, opts...)
		hit(1, fw.Dict)
		n, err := fw.Write(data[:len(data)/2])
		if n != len(data)/2 || err != nil {
			t.Failf("Write: %d, %v", n, err)
		}
		hit(2, fw.Dict)
		if err := fw.Flush(flate.FinishFlush); err != nil {
			t.Failf("Flush: %v", err)
		}
		hit(3, fw.Dict)
		writeAll(t, fw, data[len(data)/2:])
		hit(4, fw.Dict)
		if err := fw.Close(); err != nil {
			t.Failf("Close: %v", err)
		}
		o := wOpt{K: k, Dict: orig, Mem: mem}
		strictCheck(t, "Writer", sink.Bytes(), o, data)
		hit(5, fw.Dict)
		first := append([]byte(nil), sink.Bytes()...)
		var sink2 bytes.Buffer
		fw.Reset(&sink2)
		hit(6, fw.Dict)
		if !bytes.Equal(fw.Dict(), orig) {
			t.Failf("the Writer's dictionary is no longer the one given")
		}
		writeAll(t, fw, data)
		if err := fw.Close(); err != nil {
			t.Failf("Close: %v", err)
		}
		strictCheck(t, "Writer after Reset", sink2.Bytes(), o, data)
		// The same option value again, in another Writer.
		var sink3 bytes.Buffer
		fw3 := flate.NewWriter(&sink3, opts...)
		writeAll(t, fw3, data)
		if err := fw3.Close(); err != nil {
			t.Failf("Close: %v", err)
		}
		strictCheck(t, "another Writer with the same option", sink3.Bytes(), o, data)
		t.Step(10)

		// Reader.
		copy(d, orig)
		ropts := []flate.Option{flate.WithFormat(k.format()), flate.WithMemoryLevel(flate.MemoryLevel(mem)), flate.WithDictionary(d)}
		hit(0, nil)
		pr := &slicer{in: first, chunk: func(int) int { return 50 }}
		fr := flate.NewReader(pr, ropts...)
		hit(1, fr.Dict)
		buf := make([]byte, 700)
		var out []byte
		for i := 0; ; i++ {
			n, err := fr.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil {
				if err != io.EOF {
					t.Failf("Reader: %v after %d bytes", err, len(out))
				}
				break
			}
			hit(2+i, fr.Dict)
		}
		if !bytes.Equal(out, data) {
			t.Failf("Reader: %s", diffAt(out, data))
		}
		if !bytes.Equal(fr.Dict(), orig) {
			t.Failf("the Reader's dictionary is no longer the one given")
		}
		fr.Reset(bytes.NewReader(sink2.Bytes()))
		hit(6, fr.Dict)
		out, err = drainR(t, fr, nil)
		if err != io.EOF || !bytes.Equal(out, data) {
			t.Failf("Reader after Reset: %v %s", err, diffAt(out, data))
		}
		_ = fr.Close()
		out, err = drainR(t, flate.NewReader(bytes.NewReader(sink3.Bytes()), ropts...), nil)
		if err != io.EOF || !bytes.Equal(out, data) {
			t.Failf("another Reader with the same option: %v %s", err, diffAt(out, data))
		}
		t.Step(10)
		t.State("d", k, dk, step, mem)
		t.Trace()
	}
}

// p25Tracers does the same to lists of tracers.
func p25Tracers(t *T, n, step int) {
	intruder := &evRec{}
	list := make([]flate.Tracer, n, n+3)
	recs := make([]*evRec, n)
	for i := range recs {
		recs[i] = &evRec{}
		list[i] = recs[i]
	}
	smash := func(l []flate.Tracer) {
		l = l[:cap(l)]
		for i := range l {
			l[i] = intruder
		}
	}
	hit := func(s int, acc func() []flate.Tracer) {
		if s == step {
			smash(list)
			if acc != nil {
				smash(acc())
			}
		}
	}
	check := func(what string, events int) {
		if len(intruder.evs) != 0 {
			t.Failf("%s: a tracer put into the caller's list after the fact received events", what)
		}
		for i, r := range recs {
			if len(r.evs) < events || len(r.evs) == 0 {
				t.Failf("%s: tracer %d of %d received %d events", what, i, n, len(r.evs))
			}
			if a, b := evKeys(r.evs, true), evKeys(recs[0].evs, true); a != b {
				t.Failf("%s: tracers received different events:\n%s\n%s", what, a, b)
			}
		}
	}
	same := func(what string, l []flate.Tracer) {
		if len(l) != n {
			t.Failf("%s: Tracers() has %d entries, want %d", what, len(l), n)
		}
		for i := range l {
			if l[i] != flate.Tracer(recs[i]) {
				t.Failf("%s: entry %d of Tracers() is not the one given", what, i)
			}
		}
	}
	data := texty(2000, 1)
	opts := []flate.Option{flate.WithMemoryLevel(1), flate.WithTracers(list...)}
	hit(0, nil)
	var sink bytes.Buffer
	fw := flate.NewWriter(&sink, opts...)
	hit(1, fw.Tracers)
	writeAll(t, fw, data[:1000])
	hit(2, fw.Tracers)
	_ = fw.Flush(flate.SyncFlush)
	hit(3, fw.Tracers)
	writeAll(t, fw, data[1000:])
	hit(4, fw.Tracers)
	_ = fw.Close()
	check("Writer", 5)
	same("Writer", fw.Tracers())
	hit(5, fw.Tracers)
	k := len(recs[0].evs)
	var sink2 bytes.Buffer
	fw.Reset(&sink2)
	hit(6, fw.Tracers)
	writeAll(t, fw, data)
	_ = fw.Close()
	check("Writer after Reset", k+5)
	same("Writer after Reset", fw.Tracers())
	t.Step(8)

	for i := range recs {
		recs[i].evs = nil
		list[i] = recs[i]
	}
	ropts := []flate.Option{flate.WithFormat(flate.ZlibFormat), flate.WithMemoryLevel(1), flate.WithTracers(list...)}
	hit(0, nil)
	fr := flate.NewReader(bytes.NewReader(sink.Bytes()), ropts...)
	hit(1, fr.Tracers)
	buf := make([]byte, 300)
	for i := 0; ; i++ {
		_, err := fr.Read(buf)
		if err != nil {
			break
		}
		hit(2+i, fr.Tracers)
	}
	check("Reader", 5)
	same("Reader", fr.Tracers())
	k = len(recs[0].evs)
	hit(5, fr.Tracers)
	fr.Reset(bytes.NewReader(sink2.Bytes()))
	hit(6, fr.Tracers)
	out, err := drainR(t, fr, nil)
	if err != io.EOF || !bytes.Equal(out, data) {
		t.Failf("Reader: %v %s", err, diffAt(out, data))
	}
	_ = fr.Close()
	check("Reader after Reset", k+5)
	same("Reader after Reset", fr.Tracers())
	t.Step(8)
	t.State("t", n, step)
	t.Trace()
}
