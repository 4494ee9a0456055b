package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{ID: "P27", Run: runP27,
		Bounds: "every class of format violation after 0..70000 valid bytes, behind 0, 1 and 3 complete members (with long names and extra fields, stored and compressed), in raw, zlib, gzip and detected format; every header and trailer fault (magic, method, flags, header CRC, window, dictionary, checksums, length, trailing garbage) in first and later members; all single-bit flips of a corpus of small files; memory levels 1, 5 and 9; the input given whole, byte by byte and with the end-of-file; fresh Readers, and Readers reset after a complete stream, in the middle of one, and after a cut header",
		Assumptions: []string{"\"at/near\" is taken as: not before the byte in which the faulty element (block header with its trees, symbol, header or trailer field) starts, and at most 16 bytes behind what has to be read to see the fault",
			"streams with an incomplete code are left out (the fault may be seen at the code or at its use)"},
	})
}

const nearSlack = 16

// p27one decodes in and checks the position reported.
func p27one(t *T, what string, in []byte, o rOpt) {
	f := refDecode(in, o.K, o.Dict, o.wbits())
	if f.Err != refCorrupt || f.Soft {
		return
	}
	m := &f.Members[len(f.Members)-1]
	var lo, hi int
	switch {
	case m.S.Err != refOK: // in the data
		lo = m.Body + int(m.S.ElemBit/8)
		hi = m.Body + int((m.S.EndBit+7)/8)
	default: // in header or trailer
		lo, hi = f.Elem, f.Pos
	}
	lo -= m.Start
	hi -= m.Start
	var first flate.CorruptInputError
	have := false
	for i := 0; i < 6; i++ {
		var src io.Reader = bytes.NewReader(in)
		switch i {
		case 1:
			if len(in) > 3000 {
				src = &slicer{in: in, chunk: func(i int) int { return 1 + i*7%300 }}
			} else {
				src = iotest.OneByteReader(src)
			}
		case 2:
			src = iotest.DataErrReader(src)
		}
		o := o
		o.Mem = []int{1, 5, 9, 1, 2, 1}[i]
		fr := flate.NewReader(src, o.opts()...)
		reset := i >= 3
		if reset {
			// Something else was read before: to its end, part of it, or a
			// header which is cut.
			fr.Reset(bytes.NewReader(before27[i-3]), flate.WithFormat(flate.DefaultFormat), flate.WithDictionary(nil))
			var b [1]byte
			_, _ = fr.Read(b[:])
			fr.Reset(src, o.opts()...)
		}
		_, err := drainR(t, fr, nil)
		_ = fr.Close()
		t.Trace()
		var ce flate.CorruptInputError
		if !errors.As(err, &ce) {
			t.Failf("%s: expected a corruption report, got %v; reference: %s; input %s", what, err, f.Msg, hexs(in))
		}
		off := int64(ce.OffsetStream)
		if off < int64(lo) || off > int64(hi)+nearSlack || off > int64(len(in)-m.Start) {
			t.Failf("%s (%s, way %d): the fault (%s) is in bytes %d..%d of the stream, which has %d bytes; reported at offset %d of the stream: %v; input %s", what, o, i, f.Msg, lo, hi, len(in)-m.Start, off, err, hexs(in))
		}
		if !reset && int64(ce.OffsetTotal)-off != int64(m.Start) {
			t.Failf("%s (%s, way %d): the faulty stream starts at offset %d; reported total offset %d, stream offset %d; input %s", what, o, i, m.Start, ce.OffsetTotal, off, hexs(in))
		}
		if !strings.Contains(ce.Error(), fmt.Sprintf(" %d", off)) || ce.Problem == "" || !strings.Contains(ce.Error(), ce.Problem) {
			t.Failf("%s: the message %q does not name offset %d and the problem %q", what, ce.Error(), off, ce.Problem)
		}
		if have && !reset && ce != first {
			t.Failf("%s (%s, way %d): reported %+v, but %+v for the same input otherwise; input %s", what, o, i, ce, first, hexs(in))
		}
		if !have {
			first, have = ce, true
		}
	}
	t.State(what, f.Msg, lo, hi)
}

var before27 = [3][]byte{
	{0x4b, 0x04, 0x00},
	func() []byte {
		w := &bitw{}
		w.stored(true, noise(3000, 8))
		return wrapGzip(w.p, noise(3000, 8), gzHead{os: 3, name: []byte("abandoned")})
	}(),
	gzHead{os: 3, name: []byte("abandoned")}.bytes()[:15],
}

// front returns n complete members of a kind.
func front27(k fmtKind, n int) []byte {
	var out []byte
	for i := 0; i < n; i++ {
		w := &bitw{}
		var data []byte
		switch i {
		case 0:
			data = []byte("first member")
			w.fixed(true, lits(data))
		case 1:
			data = noise(400, 3)
			w.stored(true, data)
		default:
			data = texty(3000, 4)
			w.autoDyn(true, lits(data), false, true)
		}
		switch {
		case k == kGzip || k == kAuto && i%2 == 0:
			out = append(out, wrapGzip(w.p, data, gzHead{os: 3, extra: validExtra(40 * i), name: texty(100*i, 5), com: texty(9, 6), hcrc: true})...)
		case k == kAuto:
			out = append(out, wrapZlib(w.p, data, 15, nil)...)
		default:
			out = append(out, wrap(k, w.p, data, nil)...)
		}
	}
	return out
}

func runP27(c *C) {
	ns := []int{0, 1, 129, 513, 5000}
	if !c.Quick() {
		ns = append(ns, 3, 64, 127, 128, 255, 256, 257, 1000, 4096, 32768, 33000, 70000)
	}
	kinds := []fmtKind{kRaw, kZlib, kGzip, kAuto}
	for vi, v := range violations() {
		for ni, n := range ns {
			vi, v, ni, n := vi, v, ni, n
			c.CaseF("data", func() string { return fmt.Sprintf("%s/n%d", v.name, n) }, func(t *T) {
				data := texty(n, 9)
				for ki, k := range kinds {
					for fi, nf := range []int{0, 1, 3} {
						style := (vi + ni + ki + fi) % 3
						if c.Quick() && (vi+ni+ki+fi)%3 != 0 {
							continue
						}
						w := &bitw{}
						switch style {
						case 0:
							for i := 0; i < len(data); i += 1000 {
								w.stored(false, data[i:minInt(i+1000, len(data))])
							}
						case 1:
							w.fixed(false, lits(data))
						case 2:
							w.autoDyn(false, lits(data), false, true)
						}
						if !v.put(w, len(data), 1<<15) {
							continue
						}
						w.fixed(false, lits([]byte("ZZZZZZZZZZ")))
						w.stored(true, bytes.Repeat([]byte("Z"), 200))
						kk := k
						if k == kAuto {
							kk = []fmtKind{kZlib, kGzip}[vi%2]
						}
						in := append(front27(k, nf), wrap(kk, w.p, data, nil)...)
						what := fmt.Sprintf("%s after %d bytes and %d members, style %d, %v", v.name, n, nf, style, k)
						t.Note("%s", what)
						p27one(t, what, in, rOpt{K: k, W: 15})
					}
				}
			})
		}
	}

	// Headers and trailers.
	type fault struct {
		name string
		k    fmtKind
		put  func(good []byte, m *refMember) []byte
	}
	var faults []fault
	flip := func(name string, k fmtKind, at func(m *refMember) int) {
		for bit := 0; bit < 8; bit++ {
			bit := bit
			faults = append(faults, fault{fmt.Sprintf("%s-bit%d", name, bit), k, func(g []byte, m *refMember) []byte {
				g[at(m)] ^= 1 << uint(bit)
				return g
			}})
		}
	}
	for i := 0; i < 2; i++ {
		i := i
		flip(fmt.Sprint("zlib-head", i), kZlib, func(m *refMember) int { return i })
	}
	for i := 0; i < 4; i++ {
		i := i
		flip(fmt.Sprint("zlib-dictid", i), kZlib, func(m *refMember) int { return 2 + i })
		flip(fmt.Sprint("zlib-trailer", i), kZlib, func(m *refMember) int { return m.Foot + i })
	}
	for i := 0; i < 4; i++ {
		i := i
		flip(fmt.Sprint("gzip-head", i), kGzip, func(m *refMember) int { return i })
	}
	for i := 0; i < 2; i++ {
		i := i
		flip(fmt.Sprint("gzip-hcrc", i), kGzip, func(m *refMember) int { return m.Body - 2 + i })
	}
	for i := 0; i < 8; i++ {
		i := i
		flip(fmt.Sprint("gzip-trailer", i), kGzip, func(m *refMember) int { return m.Foot + i })
	}
	for _, g := range [][]byte{{0}, {0xff, 0xff}, bytes.Repeat([]byte{0xff}, 40), bytes.Repeat([]byte{'x'}, 700), {0x1f}, {0x1f, 0x8b, 9, 0, 0, 0, 0, 0, 0, 0}, {0x78, 0x9d, 0}, {0x79, 0x9c, 0}, {7}, {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0, 7}} {
		g := g
		for _, k := range []fmtKind{kZlib, kGzip} {
			faults = append(faults, fault{fmt.Sprintf("garbage-%x", shorten(string(g), 12)), k, func(good []byte, m *refMember) []byte { return append(good, g...) }})
		}
	}
	dict := noise(60, 2)
	for _, fl := range faults {
		for _, n := range []int{0, 700, 70000}[:c.Pick(2, 3)] {
			fl, n := fl, n
			c.CaseF("container", func() string { return fmt.Sprintf("%s/n%d", fl.name, n) }, func(t *T) {
				for h := 0; h < 3; h++ {
					for _, nf := range []int{0, 1, 3} {
						data := texty(n, 3)
						w := &bitw{}
						w.fixed(true, lits(data))
						var good []byte
						o := rOpt{K: fl.k, W: 15}
						switch {
						case fl.k == kZlib && h == 1:
							if nf > 0 {
								continue
							}
							o.Dict = dict
							good = wrapZlib(w.p, data, 15, dict)
						case fl.k == kZlib:
							good = wrapZlib(w.p, data, []int{15, 0, 8}[h], nil)
						case h == 0:
							good = wrapGzip(w.p, data, gzHead{os: 3, hcrc: true})
						case h == 1:
							good = wrapGzip(w.p, data, gzHead{os: 3, extra: validExtra(300), name: texty(300, 4), com: texty(77, 5), hcrc: true})
						default:
							good = wrapGzip(w.p, data, gzHead{os: 3, name: texty(40, 4)})
						}
						g := refDecode(good, o.K, o.Dict, 15)
						in := fl.put(append([]byte(nil), good...), &g.Members[0])
						what := fmt.Sprintf("%s behind %d members, n %d, header %d", fl.name, nf, n, h)
						t.Note("%s", what)
						p27one(t, what, append(front27(fl.k, nf), in...), o)
						if nf > 0 {
							o.K = kAuto
							p27one(t, what+" detected", append(front27(kAuto, nf), in...), o)
						}
					}
				}
			})
		}
	}

	// Bit flips.
	files, err := corpusQuiet(c)
	if err != "" {
		c.Case("corpus", "corpus", func(t *T) { t.Failf("%s", err) })
		return
	}
	for fi, f := range files {
		if c.Quick() && (len(f.in) > 150 || fi%2 != 0) {
			continue
		}
		for s := 0; s < len(f.in); s += 16 {
			f, s := f, s
			c.CaseF("flip", func() string { return fmt.Sprintf("%s/%d", f.name, s) }, func(t *T) {
				for i := s * 8; i < (s+16)*8 && i < len(f.in)*8; i++ {
					in := append([]byte(nil), f.in...)
					in[i/8] ^= 1 << uint(i%8)
					t.Note("%s bit %d", f.name, i)
					p27one(t, fmt.Sprintf("%s bit %d", f.name, i), in, f.o)
					p27one(t, fmt.Sprintf("%s bit %d behind itself", f.name, i), append(append([]byte(nil), f.in...), in...), f.o)
				}
			})
		}
	}
}

// corpusQuiet is validFiles outside a case.
func corpusQuiet(c *C) (files []vfile, fail string) {
	t := &T{c: c}
	fail = t.run(func(t *T) { files = validFiles(t, false) })
	return
}
