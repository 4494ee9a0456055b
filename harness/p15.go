package main

import (
	"bytes"
	"fmt"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P15", Run: runP15,
		Bounds: "Writer to strict decoder, own Reader and compress/zlib|flate with every dictionary length 1..600 (window 2^8) and lengths around each window size 2^8..2^15, x contents {zero, one byte, period 2, text, noise, equal to the data, data's prefix/suffix} x 3 formats x 4 strategies x levels, 1-3 streams per file and with flushes; Reader: every distance 1..len+3 into dictionaries of lengths around each window size as first match of a stream and after k literals, three streams; refusal: every single-byte change position class, each prefix/suffix/extension, equal window tail, none and unannounced, x formats zlib/auto x memory levels, in first and later streams, each failing before any data of that stream; 100 dictionaries whose Adler-32 halves take every pair of {0,1,2,ff,100,1f8b,789c,7fff,8000,65520}, zeros up to 131042, 22 DICTIDs meaning something else",
	})
}

// dictContent makes a dictionary of length n.
func dictContent(kind, n int) []byte {
	switch kind {
	case 0:
		return zeros(n)
	case 1:
		return bytes.Repeat([]byte{'x'}, n)
	case 2:
		return bytes.Repeat([]byte("xy"), n/2+1)[:n]
	case 3:
		return texty(n, 3)
	case 4:
		return noise(n, 9)
	}
	return append(zeros(n-n/2), noise(n/2, 9)...)
}

const nDictKinds = 6

// dictData makes data which refers to the dictionary d.
func dictData(kind int, d []byte, w int) []byte {
	tail := d
	if len(tail) > w {
		tail = tail[len(tail)-w:]
	}
	switch kind {
	case 0:
		return tail
	case 1:
		return tail[:minInt(len(tail), 30)]
	case 2:
		return tail[len(tail)-minInt(len(tail), 30):]
	case 3:
		return concat([]byte("q"), d[:minInt(len(d), 100)], []byte("r"), tail[len(tail)-minInt(len(tail), 258):])
	case 4:
		return zeros(300)
	}
	return texty(200, 3)
}

func dictRound(t *T, o wOpt, datas [][]byte, flush []int, rmem int) []byte {
	r := &wrun{o: o, pieces: datas, flush: flush}
	res := r.exec(t)
	what := fmt.Sprintf("%v dictionary %s data %d", o, hexs(o.Dict[:minInt(len(o.Dict), 8)]), len(res.data))
	f := strictCheck(t, what, res.stream, o, res.data)
	for i := range f.Members {
		m := &f.Members[i]
		if m.Kind == kZlib && (m.FLG&0x20 == 0 || m.DictID != refAdler(o.Dict)) {
			t.Failf("%s: stream %d announces dictionary %#x (FDICT %v), want %#x", what, i, m.DictID, m.FLG&0x20 != 0, refAdler(o.Dict))
		}
	}
	tail := o.Dict
	if n := 1 << uint(o.wbits()); len(tail) > n {
		tail = tail[len(tail)-n:]
	}
	stdBody(t, what, res.stream, f, tail)
	if o.kind() == kZlib && len(f.Members) == 1 {
		got, err := stdDecode(res.stream, kZlib, o.Dict)
		if err != nil || !bytes.Equal(got, res.data) {
			t.Failf("%s: compress/zlib: %v", what, err)
		}
	}
	ro := o.reader(rmem)
	got, err := decodeAll(t, res.stream, ro)
	expect(t, what, got, err, res.data, endEOF)
	if o.kind() == kZlib {
		ro.K = kAuto
		got, err = decodeAll(t, res.stream, ro)
		expect(t, what+" auto", got, err, res.data, endEOF)
	}
	return res.stream
}

func runP15(c *C) {
	// (a) every length
	for n := 1; n <= 600; n++ {
		n := n
		if c.Quick() && n > 40 && n < 250 && n%3 != 0 || c.Quick() && n > 265 && n%4 != 0 {
			continue
		}
		c.CaseF("lengths", func() string { return fmt.Sprint(n) }, func(t *T) {
			for dk := 0; dk < nDictKinds; dk++ {
				d := dictContent(dk, n)
				for xk := 0; xk < 6; xk++ {
					data := dictData(xk, d, 256)
					for ki, k := range allKinds {
						if c.Quick() && (n+dk+xk+ki)%3 != 0 {
							continue
						}
						o := wOpt{K: k, Strat: allStrats[(n+xk)%4], Lvl: (n + dk + xk) % 10, Mem: 1, W: 8, Dict: d}
						t.Note("%v n=%d dict %d data %d", o, n, dk, xk)
						dictRound(t, o, [][]byte{data}, nil, 1)
						o.Strat, o.Lvl = flate.DefaultStrategy, 6
						dictRound(t, o, [][]byte{data}, nil, 1)
						t.State(n, dk, xk, ki)
					}
				}
			}
		})
	}
	// (b) around each window size
	for w := 8; w <= 15; w++ {
		for d := -3; d <= 3; d++ {
			for _, mul := range []int{1, 2} {
				w, n := w, (1<<uint(w))*mul+d
				c.CaseF("windows", func() string { return fmt.Sprintf("w%d/%d", w, n) }, func(t *T) {
					for dk := 0; dk < nDictKinds; dk++ {
						dict := dictContent(dk, n)
						for xk := 0; xk < 6; xk++ {
							if c.Quick() && w > 11 && (dk+xk+d+9)%3 != 0 {
								continue
							}
							data := dictData(xk, dict, 1<<uint(w))
							o := wOpt{K: allKinds[(dk+xk)%3], Strat: allStrats[(xk+d+9)%4], Lvl: 1 + (dk+xk+d+9)%9, Mem: 1 + (dk+xk)%3, W: w, Dict: dict}
							t.Note("%v dict %d data %d", o, dk, xk)
							dictRound(t, o, [][]byte{data}, nil, 1+xk%2*8)
							o.Strat = flate.DefaultStrategy
							dictRound(t, o, [][]byte{data, data}, []int{4}, 1+dk%2*8)
							t.State(w, n, dk, xk)
						}
					}
				})
			}
		}
	}
	// (c) streams and flushes
	for ki, k := range allKinds {
		for si, s := range allStrats {
			for l := 0; l <= 9; l++ {
				if c.Quick() && (ki+si+l)%2 != 0 && si != 0 {
					continue
				}
				k, s, l := k, s, l
				c.CaseF("streams", func() string { return fmt.Sprintf("%v/%d/%d", k, s, l) }, func(t *T) {
					for dk := 0; dk < nDictKinds; dk++ {
						for _, n := range []int{1, 3, 4, 20, 300, 1000} {
							d := dictContent(dk, n)
							for f1 := -1; f1 <= 4; f1++ {
								for f2 := -1; f2 <= 4; f2++ {
									x := dictData((f1+f2+2)%6, d, 512)
									o := wOpt{K: k, Strat: s, Lvl: l, Mem: 1, W: 9, Dict: d}
									t.Note("%v dict %d,%d flushes %d %d", o, dk, n, f1, f2)
									dictRound(t, o, [][]byte{x, x, x}, []int{f1, f2, -1}, 1)
								}
							}
							t.State("streams", ki, si, l, dk, n)
						}
					}
				})
			}
		}
	}
	// (d) Reader: every distance
	for w := 8; w <= 15; w++ {
		for _, n := range []int{1, 2, 3, 30, 1<<uint(w) - 1, 1 << uint(w), 1<<uint(w) + 1, 1<<uint(w)*2 + 5} {
			for pre := 0; pre < 3; pre++ {
				w, n, pre := w, n, pre
				if c.Quick() && pre == 2 && w > 12 {
					continue
				}
				c.CaseF("distances", func() string { return fmt.Sprintf("w%d/%d/%d", w, n, pre) }, func(t *T) {
					ws := 1 << uint(w)
					dict := texty(n, 4)
					for i := range dict {
						dict[i] ^= byte(i>>8) * 7
					}
					eff := dict
					if len(eff) > ws {
						eff = eff[len(eff)-ws:]
					}
					// all valid distances, batched over streams;
					// the next member begins with the dictionary again
					var ds []int
					step := 1
					if c.Quick() && ws > 1024 {
						step = ws/1024*2 - 1
					}
					for d := 1; d <= minInt(len(eff)+pre, ws); d += step {
						ds = append(ds, d)
					}
					for d := minInt(len(eff)+pre, ws) - 3; d <= minInt(len(eff)+pre, ws); d++ {
						if d >= 1 {
							ds = append(ds, d)
						}
					}
					var in, want []byte
					for i, d := range ds {
						toks := append(lits([]byte("QR")[:pre]), mt(3+i%7, d))
						content := applyToks(append([]byte(nil), eff...), toks)[len(eff):]
						bw := &bitw{}
						bw.fixed(true, toks)
						in = append(in, wrapZlib(bw.p, content, w, dict)...)
						want = append(want, content...)
						t.State(w, n, pre, d)
					}
					for _, k := range []fmtKind{kZlib, kAuto} {
						for _, m := range []int{1, 9} {
							got, err := decodeAll(t, in, rOpt{K: k, Mem: m, W: w, Dict: dict})
							expect(t, fmt.Sprintf("window %d, dictionary of %d, %d literals first", w, n, pre), got, err, want, endEOF)
						}
					}
					// too far
					for d := len(eff) + pre + 1; d <= len(eff)+pre+3 && d <= 32768; d++ {
						bw := &bitw{}
						bw.fixed(true, append(lits([]byte("QR")[:pre]), mt(5, d)))
						for _, k := range []fmtKind{kRaw, kGzip, kZlib} {
							agreeRef(t, fmt.Sprintf("distance %d with dictionary of %d", d, n), wrap(k, bw.p, nil, dict), rOpt{K: k, Mem: 1, W: w, Dict: dict})
						}
					}
					// first match, with raw and gzip
					for i := 0; i < len(ds); i += 1 + len(ds)/16 {
						toks := append(lits([]byte("QR")[:pre]), mt(258, ds[i]), mt(3, ds[i]))
						content := applyToks(append([]byte(nil), eff...), toks)[len(eff):]
						bw := &bitw{}
						bw.autoDyn(true, toks, i%2 == 0, true)
						for _, k := range []fmtKind{kRaw, kGzip} {
							got, err := decodeAll(t, wrap(k, bw.p, content, nil), rOpt{K: k, Mem: 1 + i%9, W: w, Dict: dict})
							expect(t, fmt.Sprintf("%v window %d dictionary %d distance %d", k, w, n, ds[i]), got, err, content, endEOF)
						}
					}
				})
			}
		}
	}
	// (e) refusal
	refusal := func(t *T, what string, dict []byte, given []byte, w int) {
		data := []byte("some content, some content")
		for style := 0; style < 3; style++ {
			bw := &bitw{}
			switch style {
			case 0:
				bw.stored(true, data)
			case 1:
				bw.fixed(true, lits(data))
			case 2:
				bw.autoDyn(true, lits(data), false, true)
			}
			bad := wrapZlib(bw.p, data, w, dict)
			ok := wrapZlib(bw.p, data, w, given)
			for _, k := range []fmtKind{kZlib, kAuto} {
				for _, m := range []int{1, 9} {
					o := rOpt{K: k, Mem: m, W: w, Dict: given}
					rec := &evRec{}
					o.Tr = []flate.Tracer{rec}
					got, err := decodeAll(t, bad, o)
					if len(got) != 0 || classify(err) != endCorrupt {
						t.Failf("%s: the Reader delivered %d bytes and then %v instead of refusing the stream", what, len(got), err)
					}
					for _, e := range rec.evs {
						if e.Type == flate.BlockBeginEvent || e.Type == flate.StreamEndEvent {
							t.Failf("%s: event %v for a refused stream", what, e.Type)
						}
					}
					// later in the file
					got, err = decodeAll(t, concat(ok, bad), o)
					if !bytes.Equal(got, data) || classify(err) != endCorrupt {
						t.Failf("%s: second stream: delivered %d bytes (the first stream has %d), then %v", what, len(got), len(data), err)
					}
					got, err = decodeAll(t, concat(ok, ok, bad, ok), o)
					if !bytes.Equal(got, concat(data, data)) || classify(err) != endCorrupt {
						t.Failf("%s: third stream: delivered %d bytes, then %v", what, len(got), err)
					}
				}
			}
		}
		t.State(what)
	}
	for w := 8; w <= 15; w += 1 {
		for _, n := range []int{1, 2, 7, 255, 256, 257, 300, 1 << uint(w), 1<<uint(w) + 9} {
			w, n := w, n
			c.CaseF("refusal", func() string { return fmt.Sprintf("w%d/%d", w, n) }, func(t *T) {
				for _, dk := range []int{0, 3, 4} {
					d := dictContent(dk, n)
					mut := func(i int, x byte) []byte {
						e := append([]byte(nil), d...)
						e[i] ^= x
						return e
					}
					step := 1
					if n > 300 || c.Quick() {
						step = 1 + n/16
					}
					for i := 0; i < n; i += step {
						t.Note("w%d n%d kind %d byte %d", w, n, dk, i)
						for _, x := range []byte{1, 0x80, 0xff} {
							refusal(t, t.note, d, mut(i, x), w)
						}
					}
					refusal(t, t.note+" longer", d, append(append([]byte(nil), d...), 0), w)
					refusal(t, t.note+" zero in front", d, append([]byte{0}, d...), w)
					if n > 1 {
						refusal(t, t.note+" shorter", d, d[:n-1], w)
						refusal(t, t.note+" shorter at the front", d, d[1:], w)
					}
					if n > 1<<uint(w) {
						refusal(t, t.note+" window part only", d, d[n-1<<uint(w):], w)
					}
					refusal(t, t.note+" none given", d, nil, w)
					refusal(t, t.note+" none announced", nil, d, w)
				}
			})
		}
	}
	// (f) announced dictionary IDs: all single-bit changes
	for bit := 0; bit < 32; bit++ {
		bit := bit
		c.CaseF("dictid", func() string { return fmt.Sprint(bit) }, func(t *T) {
			for _, n := range []int{1, 5, 300} {
				d := texty(n, 5)
				bw := &bitw{}
				bw.fixed(true, lits([]byte("zz")))
				in := wrapZlib(bw.p, []byte("zz"), 15, d)
				in[2+bit/8] ^= 1 << uint(bit%8)
				for _, k := range []fmtKind{kZlib, kAuto} {
					got, err := decodeAll(t, in, rOpt{K: k, Mem: 1, W: 15, Dict: d})
					if len(got) != 0 || classify(err) != endCorrupt {
						t.Failf("DICTID with bit %d flipped: %d bytes, %v", bit, len(got), err)
					}
				}
			}
			t.State("dictid", bit)
		})
	}
	// (g) dictionaries whose checksum has special values
	halves := []uint32{0, 1, 2, 0xff, 0x100, 0x1f8b, 0x789c, 0x7fff, 0x8000, 65520}
	for _, hi := range halves {
		for _, lo := range halves {
			hi, lo := hi, lo
			c.CaseF("sums", func() string { return fmt.Sprintf("%#x/%#x", hi, lo) }, func(t *T) {
				d := dictOfSum(600+int(hi+lo)%7, lo, hi)
				if refAdler(d) != hi<<16|lo {
					t.Failf("INTERNAL: dictionary has checksum %#08x, not %#x %#x", refAdler(d), hi, lo)
				}
				for ki, k := range allKinds {
					o := wOpt{K: k, Strat: flate.DefaultStrategy, Lvl: 6, Mem: 1 + ki, W: 10, Dict: d}
					for xk := 0; xk < 6; xk++ {
						dictRound(t, o, [][]byte{dictData(xk, d, 1024)}, nil, 1)
					}
					x := dictData(3, d, 1024)
					dictRound(t, o, [][]byte{x, x}, []int{4}, 1)
				}
				refusal(t, t.note+" none given", d, nil, 10)
				refusal(t, t.note+" none announced", nil, d, 10)
				refusal(t, t.note+" another given", d, texty(100, 5), 10)
				refusal(t, t.note+" another announced", texty(100, 5), d, 10)
				refusal(t, t.note+" low half differs", d, dictOfSum(600, lo^0x10, hi), 10)
				refusal(t, t.note+" high half differs", d, dictOfSum(600, lo, hi^0x10), 10)
				t.State("sum", hi, lo)
			})
		}
	}
	// nothing but zeros, up to the length at which the sum is that of nothing
	for _, n := range []int{65519, 65520, 65521, 65522, 131042} {
		n := n
		c.CaseF("zeros", func() string { return fmt.Sprint(n) }, func(t *T) {
			d := zeros(n)
			for ki, k := range allKinds {
				for _, w := range []int{8, 15} {
					o := wOpt{K: k, Strat: flate.DefaultStrategy, Lvl: 1 + ki, Mem: 1, W: w, Dict: d}
					x := zeros(300)
					dictRound(t, o, [][]byte{x, x}, []int{4}, 1)
				}
			}
			refusal(t, t.note+" none given", d, nil, 15)
			refusal(t, t.note+" none announced", nil, d, 15)
			refusal(t, t.note+" shorter", d, d[1:], 15)
			t.State("zeros", n)
		})
	}
	// (h) announced IDs which mean something else
	for _, n := range []int{1, 5, 300, 1025} {
		n := n
		c.CaseF("otherids", func() string { return fmt.Sprint(n) }, func(t *T) {
			d := texty(n, 5)
			data := []byte("some content, some content")
			a := refAdler(d)
			swap := func(v uint32) uint32 { return v<<24 | v>>24 | v<<8&0xff0000 | v>>8&0xff00 }
			ids := []uint32{0, 1, 0xffffffff, 0x00010000, 0x00010001, a + 1, a - 1, ^a, swap(a), a<<16 | a>>16, a & 0xffff, a &^ 0xffff,
				refCRC(d), swap(refCRC(d)), refAdler(data), refCRC(data), refAdler(d[1:]), refAdler(append(append([]byte(nil), d...), data...)), uint32(n), 65521<<16 | 65521, a + 65521, a + 65521<<16}
			for _, id := range ids {
				if id == a {
					continue
				}
				bw := &bitw{}
				bw.fixed(true, lits(data))
				in := wrapZlib(bw.p, data, 15, d)
				in[2], in[3], in[4], in[5] = byte(id>>24), byte(id>>16), byte(id>>8), byte(id)
				ok := wrapZlib(bw.p, data, 15, d)
				for _, k := range []fmtKind{kZlib, kAuto} {
					o := rOpt{K: k, Mem: 1, W: 15, Dict: d}
					got, err := decodeAll(t, in, o)
					if len(got) != 0 || classify(err) != endCorrupt {
						t.Failf("DICTID %#08x instead of %#08x: %d bytes, %v", id, a, len(got), err)
					}
					got, err = decodeAll(t, concat(ok, in), o)
					if !bytes.Equal(got, data) || classify(err) != endCorrupt {
						t.Failf("DICTID %#08x instead of %#08x in the second stream: %d bytes, %v", id, a, len(got), err)
					}
					o.Dict = nil
					got, err = decodeAll(t, in, o)
					if len(got) != 0 || classify(err) != endCorrupt {
						t.Failf("DICTID %#08x, no dictionary: %d bytes, %v", id, len(got), err)
					}
				}
				t.State("id", n, id)
			}
		})
	}
}

// dictOfSum makes a dictionary of n bytes (500 or more) whose Adler-32 has the
// given halves.
func dictOfSum(n int, lo, hi uint32) []byte {
	const m = 65521
	lo, hi = lo%m, hi%m
	sum := (int(lo)+m-1)%m + m // what the bytes add up to
	d := make([]byte, n)
	weight := n
	for i := n - 1; sum > 0; i-- { // as far back as possible
		x := minInt(sum, 255)
		d[i] = byte(x)
		sum -= x
		weight += (n - i) * x
	}
	need := ((int(hi)-weight)%m + m) % m
	// move units towards the front, each step of one place counting one
	first := 0
	for i := n - 1; need > 0 && i > first; {
		if d[i] == 0 {
			i--
			continue
		}
		to := i - minInt(need, i-first)
		for to < i && d[to] == 255 {
			to++
		}
		if to == i {
			i--
			continue
		}
		d[i]--
		d[to]++
		need -= i - to
		for first < n && d[first] == 255 {
			first++
		}
	}
	return d
}
