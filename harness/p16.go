package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash"

	"github.com/chronos-tachyon/flate"
	"github.com/chronos-tachyon/flate/zz_vsum"
)

func init() {
	register(&Prop{
		ID: "P16", Run: runP16,
		// The second variant disables the CRC-32 instructions, which
		// selects the portable implementation.
		Variants: []string{"GODEBUG=", "GODEBUG=cpu.pclmulqdq=off"},
		Bounds:   "both checksum packages directly: every length 0..1200 and lengths around multiples of 5552, 64 and 65536 up to 140000, x memory alignments 0..15 x contents {0x00, 0xff, 0x80, text, noise, alternating}; every split into two updates of lengths up to 300, all splits into up to 6 updates of sizes from a boundary set, byte by byte; every one- and two-byte string; Sum32 between all updates; Sum appends big-endian; Reset; interleaved instances; data whose running checksum takes each of 14 (12) special values (0, 1, all ones, either half zero or maximal ...) exactly where they are split; then the checksums of stream-end events and trailers of Writer and Reader for data of such lengths",
	})
}

type sumAlgo struct {
	name string
	mk   func() hash.Hash32
	ref  func([]byte) uint32
	one  func([]byte) uint32
}

var sumAlgos = []sumAlgo{
	{"adler32", zz_vsum.Adler, refAdler, zz_vsum.AdlerChecksum},
	{"crc32", zz_vsum.CRC, refCRC, nil},
}

func sumContent(kind, n int) []byte {
	switch kind {
	case 0:
		return zeros(n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	case 2:
		return bytes.Repeat([]byte{0x80}, n)
	case 3:
		return texty(n, 3)
	case 4:
		return noise(n, 4)
	}
	return bytes.Repeat([]byte{0, 0xff, 0x55}, n/3+1)[:n]
}

// at returns a copy of p which starts at an address = a mod 16.
func at(p []byte, a int, pad byte) []byte {
	b := bytes.Repeat([]byte{pad}, len(p)+64)
	off := 0
	for addrOf(b[off:])%16 != uintptr(a) {
		off++
	}
	copy(b[off:], p)
	return b[off : off+len(p) : off+len(p)]
}

func (al sumAlgo) check(t *T, what string, parts ...[]byte) {
	h := al.mk()
	al.checkOn(t, h, what, parts...)
	h.Reset()
	if h.Sum32() != al.ref(nil) {
		t.Failf("%s %s: after Reset the checksum is %#x", al.name, what, h.Sum32())
	}
}

func (al sumAlgo) checkOn(t *T, h hash.Hash32, what string, parts ...[]byte) {
	all := concat(parts...)
	for i, p := range parts {
		n, err := h.Write(p)
		if n != len(p) || err != nil {
			t.Failf("%s %s: Write(%d bytes) returned %d, %v", al.name, what, len(p), n, err)
		}
		if len(parts) <= 4 && i < len(parts)-1 {
			if got, want := h.Sum32(), al.ref(concat(parts[:i+1]...)); got != want {
				t.Failf("%s %s: after part %d: %#08x, want %#08x", al.name, what, i, got, want)
			}
		}
	}
	want := al.ref(all)
	if got := h.Sum32(); got != want {
		t.Failf("%s %s: %d bytes in %d parts: %#08x, want %#08x", al.name, what, len(all), len(parts), got, want)
	}
	if got := h.Sum([]byte{7}); len(got) != 5 || got[0] != 7 || binary.BigEndian.Uint32(got[1:]) != want {
		t.Failf("%s %s: Sum gives %x, want %#08x", al.name, what, got, want)
	}
	if h.Size() != 4 {
		t.Failf("%s: Size is %d", al.name, h.Size())
	}
	if al.one != nil {
		if got := al.one(all); got != want {
			t.Failf("%s %s: Checksum of %d bytes: %#08x, want %#08x", al.name, what, len(all), got, want)
		}
	}
	t.Step(len(parts) + 2)
	t.Trace()
}

func runP16(c *C) {
	for _, al := range sumAlgos {
		al := al
		if al.mk == nil {
			c.res.Notes = appendUnique(c.res.Notes, "the internal checksum packages are not as they were; "+al.name+" is checked through the Reader and the Writer only")
			continue
		}
		// (a) lengths x alignments x contents
		var lens []int
		for n := 0; n <= 1200; n++ {
			lens = append(lens, n)
		}
		for _, b := range []int{2048, 4096, 5552, 5552 * 2, 5552 * 3, 5552 * 4, 16384, 32768, 65521, 65536, 5552 * 12, 131072, 5552 * 25} {
			for d := -17; d <= 17; d++ {
				lens = append(lens, b+d)
			}
		}
		for _, n := range lens {
			n := n
			c.CaseF(al.name+"-lengths", func() string { return fmt.Sprint(n) }, func(t *T) {
				for k := 0; k < 6; k++ {
					p := sumContent(k, n)
					for a := 0; a < 16; a++ {
						if n > 10000 && c.Quick() && (a+k+n)%4 != 0 {
							continue
						}
						al.check(t, fmt.Sprintf("content %d alignment %d", k, a), at(p, a, byte(0xa5*(k&1))))
					}
					t.State(al.name, n, k)
				}
			})
		}
		// (b) all short strings
		for b := 0; b < 256; b++ {
			b := b
			c.CaseF(al.name+"-short", func() string { return fmt.Sprint(b) }, func(t *T) {
				al.check(t, "1", []byte{byte(b)})
				for b2 := 0; b2 < 256; b2++ {
					al.check(t, fmt.Sprintf("%02x%02x", b, b2), []byte{byte(b), byte(b2)})
					// in the middle, at each offset of a block
					p := sumContent(4, 100)
					p[b2%100] = byte(b)
					al.check(t, fmt.Sprintf("%02x at %d", b, b2%100), p)
				}
				t.State(al.name, "short", b)
			})
		}
		// (c) all splits in two
		for n := 1; n <= c.Pick(300, 700); n++ {
			n := n
			c.CaseF(al.name+"-split2", func() string { return fmt.Sprint(n) }, func(t *T) {
				p := sumContent(n%6, n)
				q := at(p, n%16, 1)
				for i := 0; i <= n; i++ {
					al.check(t, fmt.Sprintf("split at %d of %d", i, n), q[:i:i], q[i:])
					if n <= 120 || i%8 == 0 {
						j := i + (n-i)/3
						al.check(t, "split in 3", q[:i:i], q[i:j:j], q[j:])
					}
				}
				var bs [][]byte
				for i := range q {
					bs = append(bs, q[i:i+1:i+1])
				}
				al.check(t, "byte by byte", bs...)
				t.State(al.name, "split", n)
			})
		}
		// (d) sequences of update sizes
		sizes := []int{0, 1, 7, 8, 15, 16, 17, 63, 64, 65, 5551, 5552, 5553}
		for i := range sizes {
			for j := range sizes {
				i, j := i, j
				c.CaseF(al.name+"-seq", func() string { return fmt.Sprint(sizes[i], sizes[j]) }, func(t *T) {
					h := al.mk()
					for k := range sizes {
						for k4 := range sizes {
							if c.Quick() && (i+j+k+k4)%3 != 0 {
								continue
							}
							n := sizes[i] + sizes[j] + sizes[k] + sizes[k4]
							p := at(sumContent((i+j+k+k4)%6, n), (i+k)%16, 9)
							var parts [][]byte
							for _, s := range []int{sizes[i], sizes[j], sizes[k], sizes[k4]} {
								parts = append(parts, p[:s:s])
								p = p[s:]
							}
							al.check(t, "sequence", parts...)
							// reused after Reset
							h.Reset()
							al.checkOn(t, h, "reused", parts...)
						}
						t.State(al.name, "seq", i, j, k)
					}
				})
			}
		}
		// (d2) the running sum takes a special value where the data are split
		for vi, v := range specialSums[al.name] {
			vi, v := vi, v
			c.CaseF(al.name+"-value", func() string { return fmt.Sprintf("%08x", v) }, func(t *T) {
				for _, n := range []int{560, 577, 1024, 5552, 6001} {
					p := reachSum(al.name, v, n)
					if got := al.ref(p); got != v {
						panic(fmt.Sprintf("reachSum(%s, %08x, %d) gives %08x", al.name, v, n, got))
					}
					for _, m := range []int{0, 1, 2, 15, 16, 17, 63, 64, 65, 200, 5552, 5600} {
						for _, k := range []int{4, 0, 1} {
							q := at(concat(p, sumContent(k, m)), (vi+m)%16, 1)
							al.check(t, "special value", q[:n:n], q[n:])
							al.check(t, "special value, empty update", q[:n:n], nil, q[n:])
							al.check(t, "special value", q[:n-1:n-1], q[n-1:n:n], q[n:])
							al.check(t, "special value", q[:100:100], q[100:n:n], q[n:n+m/2:n+m/2], q[n+m/2:])
							al.check(t, "special value at the end", q[:n:n])
							al.check(t, "special value inside", q)
						}
					}
					t.State(al.name, "value", v, n)
				}
			})
		}
		// (e) two instances, interleaved
		c.Case(al.name+"-instances", "", func(t *T) {
			for n := 1; n < 200; n++ {
				a, b := al.mk(), al.mk()
				p, q := noise(n*3, 1), noise(n*3, 2)
				for i := 0; i < 3; i++ {
					_, _ = a.Write(p[i*n : i*n+n])
					_, _ = b.Write(q[i*n : i*n+n])
				}
				if a.Sum32() != al.ref(p) || b.Sum32() != al.ref(q) {
					t.Failf("%s: two instances interfere", al.name)
				}
				t.Step(8)
				t.Trace()
			}
			t.State(al.name, "instances")
		})
	}
	// (f0) special values of the running sums in streams
	for ki, k := range allKinds {
		for _, name := range []string{"adler32", "crc32"} {
			for vi, v := range specialSums[name] {
				k, name, v := k, name, v
				o := wOpt{K: k, Strat: allStrats[(ki+vi)%len(allStrats)], Lvl: (vi * 3) % 10, Mem: 1 + vi%3, W: 8 + vi%8}
				c.CaseF("value-events", func() string { return fmt.Sprintf("%v %s %08x", o, name, v) }, func(t *T) {
					for _, n := range []int{560, 2000, 6000} {
						p := reachSum(name, v, n)
						for _, m := range []int{0, 1, 16, 300} {
							t.Note("%v: %s becomes %08x after %d of %d bytes", o, name, v, n, n+m)
							eventSums(t, o, [][]byte{concat(p, sumContent(4, m))}, n)
							eventSumsFlush(t, o, p, sumContent(3, m))
							t.State("value-events", o.String(), name, v, n, m)
						}
					}
				})
			}
		}
	}
	// (f) events and trailers
	for ki, k := range allKinds {
		for si, s := range allStrats {
			for l := 0; l < 10; l++ {
				if c.Quick() && (ki+si+l)%2 != 0 {
					continue
				}
				o := wOpt{K: k, Strat: s, Lvl: l, Mem: 1 + l%3, W: 8 + l%8}
				c.CaseF("events", func() string { return o.String() }, func(t *T) {
					for _, n := range []int{0, 1, 15, 16, 17, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1000, 5551, 5552, 5553, 12000, 70000} {
						for ck := 0; ck < 6; ck++ {
							if n > 20000 && (ck+l+si)%6 != 0 {
								continue
							}
							data := sumContent(ck, n)
							t.Note("%v content %d length %d", o, ck, n)
							for _, sp := range []int{0, 7, 300} {
								if n > 20000 && sp == 7 {
									continue
								}
								eventSums(t, o, [][]byte{data}, sp)
							}
							eventSums(t, o, [][]byte{data, sumContent(5, 77), data}, 0)
							t.State("events", o.String(), n, ck)
						}
					}
				})
			}
		}
	}
	// streams with different shapes for the Reader
	for _, mem := range []int{1, 5, 9} {
		for style := 0; style < 3; style++ {
			mem, style := mem, style
			c.CaseF("reader", func() string { return fmt.Sprintf("m%d/%d", mem, style) }, func(t *T) {
				for _, n := range []int{0, 1, 64, 127, 128, 129, 130, 1000, 5552, 9000, 40000} {
					for _, k := range allKinds {
						m := mkMember(k, style, n)
						rec := &evRec{}
						got, err := decodeAll(t, concat(m.in, m.in), rOpt{K: k, Mem: mem, W: 15, Tr: []flate.Tracer{rec}})
						expect(t, "member", got, err, concat(m.out, m.out), endEOF)
						checkFooters(t, "Reader", rec.evs, [][]byte{m.out, m.out})
						t.State("reader", mem, style, n, k)
					}
				}
			})
		}
	}
}

var specialSums = map[string][]uint32{
	"adler32": {0, 1, 0x00010000, 0x00010001, 0x0000fff0, 0xfff00000, 0xfff0fff0, 0xfff00001, 0x00008000, 0x80000000, 0x80008000, 0x12340000, 0x00001234, 0x7fff7fff},
	"crc32":   {0, 1, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x0000ffff, 0xffff0000, 0x000000ff, 0xff000000, 0xedb88320, 0x12477cdf},
}

// reachSum returns n bytes with the given checksum.
func reachSum(name string, v uint32, n int) []byte {
	if name == "crc32" {
		p := noise(n, uint64(v>>8)+uint64(n))
		// CRC-32 is affine in the last four bytes: solve for them.
		cur := p[:n-4]
		base := refCRC(concat(cur, []byte{0, 0, 0, 0}))
		var cols [32]uint32
		for i := range cols {
			x := []byte{0, 0, 0, 0}
			x[i/8] = 1 << uint(i%8)
			cols[i] = refCRC(concat(cur, x)) ^ base
		}
		want := v ^ base
		// Gauss-Jordan over GF(2)
		var rows [32]uint64 // low 32: coefficients, bit 32: right-hand side
		for b := 0; b < 32; b++ {
			for i := range cols {
				rows[b] |= uint64(cols[i]>>uint(b)&1) << uint(i)
			}
			rows[b] |= uint64(want>>uint(b)&1) << 32
		}
		for i := 0; i < 32; i++ {
			for r := i; r < 32; r++ {
				if rows[r]>>uint(i)&1 == 1 {
					rows[i], rows[r] = rows[r], rows[i]
					break
				}
			}
			for r := range rows {
				if r != i && rows[r]>>uint(i)&1 == 1 {
					rows[r] ^= rows[i]
				}
			}
		}
		copy(p[n-4:], []byte{0, 0, 0, 0})
		for i := 0; i < 32; i++ {
			p[n-4+i/8] |= byte(rows[i]>>32&1) << uint(i%8)
		}
		return p
	}
	const M = 65521
	s1, s2 := int(v&0xffff), int(v>>16)
	sum := (s1 - 1 + M) % M
	for sum < n*40 {
		sum += M
	}
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(sum / n)
		if sum/n > 200 {
			panic("reachSum: too short")
		}
	}
	for i := 0; i < sum%n; i++ {
		p[i]++
	}
	// moving one unit forward by d positions raises s2 by d
	d := (s2 - int(refAdler(p)>>16) + M) % M
	for i, h := 0, n/2; d >= h; i = (i + 1) % h {
		if p[i+h] > 0 && p[i] < 255 {
			p[i+h]--
			p[i]++
			d -= h
		}
	}
	if d > 0 {
		for i := 0; i+d < n; i++ {
			if p[i] < 255 && p[i+d] > 0 {
				p[i]++
				p[i+d]--
				break
			}
		}
	}
	return p
}

// eventSumsFlush has a flush between two parts of the data.
func eventSumsFlush(t *T, o wOpt, p, q []byte) {
	var sink bytes.Buffer
	rec := &evRec{}
	ow := o
	ow.Tr = []flate.Tracer{rec}
	fw := flate.NewWriter(&sink, ow.opts()...)
	writeAll(t, fw, p)
	if err := fw.Flush(flate.SyncFlush); err != nil {
		t.Failf("Flush: %v", err)
	}
	writeAll(t, fw, q)
	if err := fw.Close(); err != nil {
		t.Failf("Close: %v", err)
	}
	all := concat(p, q)
	strictCheck(t, o.String(), sink.Bytes(), o, all)
	checkFooters(t, "Writer", rec.evs, [][]byte{all})
	for _, mem := range []int{1, 9} {
		rec2 := &evRec{}
		ro := o.reader(mem)
		ro.Tr = []flate.Tracer{rec2}
		got, err := decodeAll(t, sink.Bytes(), ro)
		expect(t, o.String(), got, err, all, endEOF)
		checkFooters(t, "Reader", rec2.evs, [][]byte{all})
	}
}

// eventSums writes one stream per data and checks every checksum in sight.
func eventSums(t *T, o wOpt, datas [][]byte, sp int) {
	var sink bytes.Buffer
	rec := &evRec{}
	o.Tr = []flate.Tracer{rec}
	fw := flate.NewWriter(&sink, o.opts()...)
	for i, d := range datas {
		for _, p := range split(d, sp) {
			writeAll(t, fw, p)
		}
		if i < len(datas)-1 {
			if err := fw.Flush(flate.FinishFlush); err != nil {
				t.Failf("Flush: %v", err)
			}
		}
	}
	if err := fw.Close(); err != nil {
		t.Failf("Close: %v", err)
	}
	o.Tr = nil
	// a stream with nothing in it is written only once
	var want [][]byte
	for i, d := range datas {
		if i == 0 || len(d) > 0 {
			want = append(want, d)
		}
	}
	f := strictCheck(t, o.String(), sink.Bytes(), o, concat(datas...))
	if len(f.Members) < len(want) {
		t.Failf("%d streams for %d contents", len(f.Members), len(want))
	}
	want = nil
	for i := range f.Members {
		want = append(want, f.Members[i].S.Out)
	}
	checkFooters(t, "Writer", rec.evs, want)
	rec2 := &evRec{}
	ro := o.reader(o.Mem)
	ro.Tr = []flate.Tracer{rec2}
	got, err := decodeAll(t, sink.Bytes(), ro)
	expect(t, o.String(), got, err, concat(datas...), endEOF)
	checkFooters(t, "Reader", rec2.evs, want)
}

func checkFooters(t *T, who string, evs []flate.Event, datas [][]byte) {
	i := 0
	for _, e := range evs {
		if e.Type != flate.StreamEndEvent {
			continue
		}
		if i >= len(datas) {
			t.Failf("%s: more end events than streams", who)
		}
		if e.Footer == nil {
			t.Failf("%s: end event without footer", who)
		}
		if a, w := uint32(e.Footer.Adler32), refAdler(datas[i]); a != w {
			t.Failf("%s: stream %d (%d bytes): end event reports Adler-32 %#08x, want %#08x", who, i, len(datas[i]), a, w)
		}
		if a, w := uint32(e.Footer.CRC32), refCRC(datas[i]); a != w {
			t.Failf("%s: stream %d (%d bytes): end event reports CRC-32 %#08x, want %#08x", who, i, len(datas[i]), a, w)
		}
		i++
	}
	if i != len(datas) {
		t.Failf("%s: %d end events for %d streams", who, i, len(datas))
	}
}
