package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P07", Run: runP07,
		Bounds: "every composition (way of slicing) of all corpus files of up to 14 bytes (20 thorough) x 3 end-of-file styles; every single and (short files) double cut position, every chunk size 1..300, of files up to several buffers, valid, truncated and corrupt, single and multi-member; files of three streams in which the later ones, whole and cut short, lie at every place in the Reader's buffer; read sizes 0..4097 in 12 patterns; memory levels 1..9; declared and auto-detected formats; bytes, final error text, and events with counters at stream boundaries compared",
	})
}

// slicer is a reader that hands out data in given chunks.
type slicer struct {
	in    []byte
	chunk func(i int) int // size of i'th chunk; <= 0 means an empty read
	mode  int             // 0: EOF after data; 1: EOF with the last data; 2: empty reads in between
	i     int
	pos   int
	flip  bool
}

func (s *slicer) Read(p []byte) (int, error) {
	if s.mode == 2 {
		s.flip = !s.flip
		if s.flip {
			return 0, nil
		}
	}
	if s.pos >= len(s.in) {
		return 0, io.EOF
	}
	n := s.chunk(s.i)
	s.i++
	if n > len(s.in)-s.pos {
		n = len(s.in) - s.pos
	}
	if n > len(p) {
		n = len(p)
	}
	if n < 0 {
		n = 0
	}
	copy(p, s.in[s.pos:s.pos+n])
	s.pos += n
	if s.mode == 1 && s.pos >= len(s.in) {
		return n, io.EOF
	}
	return n, nil
}

type outcome struct {
	out []byte
	err string
	evs string
}

func observe(t *T, r io.Reader, o rOpt, sizes func(int) int) outcome {
	rec := &evRec{}
	o.Tr = []flate.Tracer{rec}
	out, err := decodeFrom(t, r, o, sizes)
	return outcome{out, err.Error(), evKeys(rec.evs, true)}
}

func sameOutcome(t *T, what string, a, b outcome) {
	if !bytes.Equal(a.out, b.out) {
		t.Failf("%s: different data: %s", what, diffAt(b.out, a.out))
	}
	if a.err != b.err {
		t.Failf("%s: different error: %q, expected %q", what, b.err, a.err)
	}
	if a.evs != b.evs {
		t.Failf("%s: different events:\n%s\nexpected:\n%s", what, b.evs, a.evs)
	}
}

func runP07(c *C) {
	var files []vfile
	{
		t := &T{c: c}
		if f := t.run(func(t *T) { files = validFiles(t, true) }); f != "" {
			c.Case("corpus", "corpus", func(t *T) { t.Failf("%s", f) })
			return
		}
	}
	// short files
	var short []vfile
	add := func(name string, in []byte, k fmtKind) {
		short = append(short, vfile{name, in, rOpt{K: k}})
	}
	w := &bitw{}
	empty := w.fixed(true, nil).p
	w = &bitw{}
	abc := w.fixed(true, append(lits([]byte("ab")), mt(9, 2))).p
	abcd := []byte("ababababababab")[:11]
	w = &bitw{}
	st := w.stored(true, []byte("xyz")).p
	add("raw-empty", empty, kRaw)
	add("raw-abc", abc, kRaw)
	add("raw-stored", st, kRaw)
	add("raw-two", concat(abc, st), kRaw)
	add("raw-junk", concat(abc, []byte{7, 8, 9}), kRaw)
	add("raw-auto", concat(st), kAuto)
	add("raw-auto2", concat(abc), kAuto)
	add("zlib-empty", wrapZlib(empty, nil, 15, nil), kZlib)
	add("zlib-abc", wrapZlib(abc, abcd, 15, nil), kZlib)
	add("zlib-auto", wrapZlib(abc, abcd, 15, nil), kAuto)
	add("zlib-cut", wrapZlib(abc, abcd, 15, nil)[:9], kAuto)
	add("zlib-bad", append(wrapZlib(abc, abcd, 15, nil)[:10], 0), kZlib)
	add("zlib-one", []byte{0x78}, kAuto)
	add("gzip-one", []byte{0x1f}, kAuto)
	add("gzip-two", []byte{0x1f, 0x8b}, kAuto)
	add("gzip-cut", wrapGzip(abc, abcd, gzHead{})[:14], kAuto)
	add("zlib-trailing-1f", concat(wrapZlib(empty, nil, 15, nil), []byte{0x1f}), kAuto)
	add("zlib-zlib-head", concat(wrapZlib(empty, nil, 15, nil), []byte{0x78, 0x9c}), kAuto)
	add("zlib-raw", concat(wrapZlib(empty, nil, 15, nil), empty, empty), kAuto)
	add("gzip-empty", wrapGzip(empty, nil, gzHead{}), kAuto)
	limit := c.Pick(14, 20)
	for _, f := range short {
		n := len(f.in)
		if n > limit {
			continue
		}
		total := 1 << uint(n-1)
		for s := 0; s < total; s += 1024 {
			f, s := f, s
			c.CaseF("compositions", func() string { return fmt.Sprintf("%s/%d", f.name, s) }, func(t *T) {
				o := f.o
				o.Mem, o.W = 9, 8
				base := observe(t, bytes.NewReader(f.in), o, nil)
				ref := refDecode(f.in, o.K, nil, 8)
				if !ref.Soft && !bytes.Equal(base.out, ref.Out) {
					t.Failf("%s: %s", f.name, diffAt(base.out, ref.Out))
				}
				o.Mem = 1
				for m := s; m < s+1024 && m < total; m++ {
					cuts := func(i int) int {
						// length of the i'th part of composition m
						pos := 0
						for ; i >= 0; i-- {
							start := pos
							pos++
							for pos < n && m>>uint(pos-1)&1 == 0 {
								pos++
							}
							if i == 0 {
								return pos - start
							}
						}
						return 0
					}
					for mode := 0; mode < 3; mode++ {
						t.Note("%s composition %b mode %d", f.name, m, mode)
						sameOutcome(t, t.note, base, observe(t, &slicer{in: f.in, chunk: cuts, mode: mode}, o, nil))
					}
				}
				t.State(f.name, s)
			})
		}
	}

	// longer files, also cut and corrupted
	var long []vfile
	for i, f := range files {
		long = append(long, f)
		x := f
		x.name += "-cut"
		x.in = f.in[:len(f.in)-minInt(len(f.in), 1+i%9)]
		long = append(long, x)
		y := f
		y.name += "-bad"
		y.in = append([]byte(nil), f.in...)
		if len(y.in) > 0 {
			y.in[len(y.in)*(i%7+1)/8] ^= 0x15
		}
		long = append(long, y)
		if f.o.K != kRaw && f.o.Dict == nil {
			z := f
			z.name += "-auto"
			z.o.K = kAuto
			long = append(long, z)
		}
	}
	sizePats := []struct {
		name string
		f    func(i int) int
	}{
		{"1", func(i int) int { return 1 }},
		{"2", func(i int) int { return 2 }},
		{"3", func(i int) int { return 3 }},
		{"64", func(i int) int { return 64 }},
		{"127", func(i int) int { return 127 }},
		{"128", func(i int) int { return 128 }},
		{"129", func(i int) int { return 129 }},
		{"0,1", func(i int) int { return i % 2 }},
		{"0,5,0,200", func(i int) int { return []int{0, 5, 0, 200}[i%4] }},
		{"up", func(i int) int { return i % 300 }},
		{"4097", func(i int) int { return 4097 }},
		{"100000", func(i int) int { return 100000 }},
	}
	for fi, f := range long {
		fi, f := fi, f
		c.CaseF("long", func() string { return f.name }, func(t *T) {
			o := f.o
			o.Mem, o.W = 9, 15
			base := observe(t, bytes.NewReader(f.in), o, nil)
			t.State(f.name, base.err, len(base.out))
			// memory levels
			for m := 1; m <= 9; m++ {
				o.Mem = m
				t.Note("%s memory level %d", f.name, m)
				sameOutcome(t, t.note, base, observe(t, bytes.NewReader(f.in), o, nil))
			}
			// read sizes
			for _, p := range sizePats {
				for _, m := range []int{1, 2, 9} {
					o.Mem = m
					t.Note("%s read sizes %s memory level %d", f.name, p.name, m)
					sameOutcome(t, t.note, base, observe(t, bytes.NewReader(f.in), o, p.f))
				}
			}
			// chunk sizes
			step := 1
			if c.Quick() && fi%3 != 0 {
				step = 7
			}
			for n := 1; n <= 300 && n <= len(f.in)+1; n += step {
				for mode := 0; mode < 3; mode++ {
					o.Mem = []int{1, 2, 9}[(n+mode)%3]
					t.Note("%s chunks of %d mode %d memory level %d", f.name, n, mode, o.Mem)
					n := n
					sameOutcome(t, t.note, base, observe(t, &slicer{in: f.in, chunk: func(int) int { return n }, mode: mode}, o, sizePats[n%len(sizePats)].f))
				}
			}
			// empty chunks in runs
			for _, k := range []int{2, 5, 50} {
				o.Mem = 1
				sameOutcome(t, fmt.Sprintf("%s %d empty reads", f.name, k), base, observe(t, &slicer{in: f.in, chunk: func(i int) int {
					if i%(k+1) != 0 {
						return 0
					}
					return 3
				}}, o, nil))
			}
			// very many empty reads at one place
			for _, k := range []int{99, 100, 101, 1000, 70000} {
				for _, at := range []int{0, 1, len(f.in) / 2, len(f.in) - 1, len(f.in)} {
					if at < 0 || k > 1000 && (fi+at)%4 != 0 {
						continue
					}
					at, k := at, k
					o.Mem = 1 + fi%9
					sameOutcome(t, fmt.Sprintf("%s %d empty reads at %d", f.name, k, at), base, observe(t, &slicer{in: f.in, chunk: func(i int) int {
						switch {
						case i == 0 && at > 0:
							return at
						case i <= k:
							return 0
						}
						return 1 << 20
					}}, o, nil))
				}
			}
		})
		for s := 0; s < len(f.in); s += 256 {
			s := s
			c.CaseF("cuts", func() string { return fmt.Sprintf("%s/%d", f.name, s) }, func(t *T) {
				o := f.o
				o.Mem, o.W = 9, 15
				base := observe(t, bytes.NewReader(f.in), o, nil)
				for cut := s; cut < s+256 && cut < len(f.in); cut++ {
					if cut == 0 {
						continue
					}
					for mode := 0; mode < 3; mode++ {
						o.Mem = []int{1, 9}[(mode+cut)%2]
						t.Note("%s cut at %d mode %d", f.name, cut, mode)
						sameOutcome(t, t.note, base, observe(t, &slicer{in: f.in, chunk: func(i int) int {
							if i == 0 {
								return cut
							}
							return 1 << 20
						}, mode: mode}, o, nil))
					}
					// second cut
					lim := c.Pick(4, 40)
					for d := 1; d <= lim && cut+d < len(f.in); d++ {
						o.Mem = 1 + cut%2
						d := d
						sameOutcome(t, t.note+" and again", base, observe(t, &slicer{in: f.in, chunk: func(i int) int {
							switch i {
							case 0:
								return cut
							case 1:
								return d
							}
							return 1 << 20
						}, mode: d % 2}, o, nil))
					}
				}
				t.State(f.name, s)
			})
		}
	}

	// every part of the later streams at every place in the Reader's buffer
	heads := []gzHead{{}, {extra: []byte("ab\x02\x00xy"), name: []byte("name"), com: []byte("comment"), hcrc: true}, {name: []byte("n"), mtime: 77, os: 3}, {hcrc: true}}
	for hi := 0; hi < len(heads)+3; hi++ {
		for _, auto := range []bool{false, true} {
			hi, auto := hi, auto
			c.CaseF("alignment", func() string { return fmt.Sprintf("%d %v", hi, auto) }, func(t *T) {
				o := rOpt{W: 15}
				enc := func(body, content []byte) []byte {
					switch {
					case hi < len(heads):
						o.K = kGzip
						return wrapGzip(body, content, heads[hi])
					case hi == len(heads):
						o.K = kZlib
						return wrapZlib(body, content, 15, nil)
					case hi == len(heads)+1:
						o.K, o.Dict = kZlib, []byte("dictionary")
						return wrapZlib(body, content, 15, o.Dict)
					}
					o.K = kRaw
					return append([]byte(nil), body...)
				}
				second := enc(abc, abcd)
				for n := 0; n <= 260; n++ {
					x := texty(n, 5)
					w := &bitw{}
					in := concat(enc(w.stored(true, x).p, x), second, second)
					if auto {
						o.K = kAuto
					}
					cuts := []int{len(in)}
					for i := len(in) - 2*len(second); i < len(in); i++ {
						if (i+n)%c.Pick(8, 1) == 0 {
							cuts = append(cuts, i)
						}
					}
					for _, cut := range cuts {
						o.Mem = 9
						base := observe(t, bytes.NewReader(in[:cut]), o, nil)
						for _, m := range []int{1, 2} {
							o.Mem = m
							t.Note("head %d auto %v first stream of %d, memory level %d, cut at %d of %d", hi, auto, n, m, cut, len(in))
							sameOutcome(t, t.note, base, observe(t, bytes.NewReader(in[:cut]), o, nil))
						}
						if cut == len(in) && base.err != "EOF" {
							t.Failf("%s: %s", t.note, base.err)
						}
					}
					t.State(hi, auto, n)
				}
			})
		}
	}
}
