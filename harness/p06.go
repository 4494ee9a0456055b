package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P06", Run: runP06,
		Bounds: "all inputs of 1-2 bytes, all 3-byte inputs behind each format's magic, x 4 formats x memory levels 1/9 x windows 2^8/2^15 x with/without dictionary; code length sequences with every kind of repetition 0..138 lengths before the end, for HLIT x HDIST; every class of format violation after 0..40000 bytes, with Close and Reset; all 256 gzip FLG bytes x every truncation; all gzip extra fields of up to 3 bytes and up to 7 bytes over {0,1,2,5,255}; name/comment/extra fields up to 70000 bytes, names and comments up to 4 MiB, and their truncations; Close, Close twice and Reset after 0..6 Reads at 4 read sizes from each of 40 inputs",
	})
}

// safeDecode decodes in, then closes (twice) and resets the reader, which must
// afterwards decode a good stream.  Every call must return.
func safeDecode(t *T, what string, in []byte, o rOpt, reads int, size int, how int) {
	fr := flate.NewReader(bytes.NewReader(in), o.opts()...)
	buf := make([]byte, size)
	var err error
	for i := 0; (reads < 0 || i < reads) && err == nil; i++ {
		var n int
		n, err = fr.Read(buf)
		t.Step(1)
		if n < 0 || n > len(buf) {
			t.Failf("%s: Read returned n=%d", what, n)
		}
		if i > 1<<20 {
			t.Failf("%s: Read never ends", what)
		}
	}
	switch how {
	case 0:
		if err := fr.Close(); err != nil {
			t.Failf("%s: Close: %v", what, err)
		}
	case 1:
		_ = fr.Close()
		_ = fr.Close()
		fr.Reset(bytes.NewReader(goodZlib), flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(nil))
	case 2:
		fr.Reset(bytes.NewReader(goodZlib), flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(nil))
	case 3:
		fr.Reset(bytes.NewReader(nil))
		_ = fr.Close()
		return
	}
	t.Step(2)
	if how == 1 || how == 2 {
		if o.wbits() == 15 {
			got, err := io.ReadAll(fr)
			if err != nil || !bytes.Equal(got, goodContent) {
				t.Failf("%s: after Reset the reader fails: %d bytes, %v", what, len(got), err)
			}
		}
		_ = fr.Close()
	}
	t.Trace()
}

var goodContent = []byte("good content good content good content")

var goodZlib = func() []byte {
	w := &bitw{}
	w.fixed(true, lits(goodContent))
	return wrapZlib(w.p, goodContent, 15, nil)
}()

func runP06(c *C) {
	type cfg struct {
		name string
		o    rOpt
	}
	var cfgs []cfg
	for _, k := range []fmtKind{kAuto, kRaw, kZlib, kGzip} {
		for _, m := range []int{1, 9} {
			for _, d := range [][]byte{nil, []byte("dictionary")} {
				o := rOpt{K: k, Mem: m, W: 15, Dict: d}
				if m == 1 {
					o.W = 8
				}
				cfgs = append(cfgs, cfg{o.String(), o})
			}
		}
	}
	// (a) short inputs
	for _, cf := range cfgs {
		for b := 0; b < 256; b++ {
			if cf.o.Mem == 9 && c.Quick() && b%8 != 0 && b != 0x1f && b != 0x78 {
				continue
			}
			cf, b := cf, b
			c.CaseF("short", func() string { return fmt.Sprintf("%s/%02x", cf.name, b) }, func(t *T) {
				agreeRef(t, "1 byte", []byte{byte(b)}, cf.o)
				for b2 := 0; b2 < 256; b2++ {
					t.Note("%s %02x%02x", cf.name, b, b2)
					in := []byte{byte(b), byte(b2)}
					f := agreeRef(t, "2 bytes", in, cf.o)
					t.State(cf.name, f.Err, f.Msg)
					if b2%16 == b%16 {
						safeDecode(t, fmt.Sprintf("%s %x", cf.name, in), in, cf.o, -1, 64, 1+b2%2)
					}
				}
			})
		}
		for b := 0; b < 256; b++ {
			cf, b := cf, b
			c.CaseF("magic", func() string { return fmt.Sprintf("%s/%02x", cf.name, b) }, func(t *T) {
				for _, pre := range [][]byte{{0x1f, 0x8b}, {0x1f, 0x8b, 8}, {0x78, 0x9c}, {0x78, 0xbb}, {0x08, 0x1d}, {0x1f}, {0x78}} {
					for _, n := range []int{0, 1, 6, 30} {
						in := append(append([]byte(nil), pre...), byte(b))
						in = append(in, noise(n, uint64(b))...)
						f := agreeRef(t, "magic", in, cf.o)
						t.State("magic", cf.name, f.Err, f.Msg)
					}
				}
			})
		}
	}
	// (a2) code length sequences which run past the end, by every amount
	for hl := 0; hl < 32; hl++ {
		hl := hl
		c.CaseF("treeops", func() string { return fmt.Sprint(hl) }, func(t *T) {
			for hd := 0; hd < 32; hd++ {
				if c.Quick() && hl%5 != 0 && hl < 27 && hd%7 != 0 && hd < 28 {
					continue
				}
				n := 257 + hl + 1 + hd
				for _, rest := range []int{0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 31, 138} {
					for _, last := range []int{0, 1} {
						for _, op := range []clsym{{0, 0}, {1, 0}, {15, 0}, {16, 0}, {16, 3}, {17, 0}, {17, 7}, {18, 0}, {18, 127}} {
							h := &dynHeader{ll: make([]byte, 257), d: make([]byte, 1), rawHL: hl, rawHD: hd, nx: 19}
							h.cl = balanced(19, []int{0, 1, 15, 16, 17, 18}, op.s)
							at := 0
							for at+138 < n-rest {
								h.seq = append(h.seq, clsym{18, 127})
								at += 138
							}
							for at < n-rest-1 {
								h.seq = append(h.seq, clsym{0, 0})
								at++
							}
							h.seq = append(h.seq, clsym{last, 0}, op, op, op)
							w := &bitw{}
							w.dynHead(true, h)
							w.bits(0x5a5a5a5a, 32)
							f := agreeRef(t, fmt.Sprintf("hlit %d hdist %d, %d to go after %d, %v", hl, hd, rest, last, op), w.p, rOpt{K: kRaw, Mem: 1 + 8*(hd&1), W: 8})
							t.State("treeops", f.Err, f.Msg, op.s, rest)
						}
					}
				}
			}
		})
	}
	// (a3) violations of every kind, with Close and Reset
	for vi, v := range violations() {
		vi, v := vi, v
		c.CaseF("violations", func() string { return v.name }, func(t *T) {
			for _, n := range []int{0, 3, 300, 40000} {
				if c.Quick() && n > 300 && vi%8 != 0 {
					continue
				}
				data := texty(n, 5)
				for k, kind := range []fmtKind{kRaw, kZlib, kGzip} {
					w := &bitw{}
					w.fixed(false, lits(data))
					if !v.put(w, n, 1<<15) {
						continue
					}
					in := wrap(kind, w.p, data, nil)
					for m := 1; m <= 9; m += 4 {
						what := fmt.Sprintf("%s after %d bytes, %v m%d", v.name, n, kind, m)
						t.Note("%s", what)
						agreeRef(t, what, in, rOpt{K: kind, Mem: m, W: 15})
						safeDecode(t, what, in, rOpt{K: kind, Mem: m, W: 15}, -1, 1+vi%200, (vi+k)%4)
						safeDecode(t, what, in, rOpt{K: kind, Mem: m, W: 15}, 1, 1+vi%200, (vi+k+m)%4)
					}
				}
				t.State("violation", v.name, n)
			}
		})
	}
	// (b) FLG x truncation
	for flg := 0; flg < 256; flg++ {
		flg := flg
		c.CaseF("flg", func() string { return fmt.Sprint(flg) }, func(t *T) {
			data := []byte("flags")
			w := &bitw{}
			w.fixed(true, lits(data))
			head := gzHead{flg: byte(flg)}
			if flg&4 != 0 {
				head.extra = []byte{1, 2, 1, 0, 9, 3, 4, 0xff, 0xff, 1}
			}
			if flg&8 != 0 {
				head.name = []byte("n")
			}
			if flg&16 != 0 {
				head.com = []byte("c")
			}
			head.hcrc = flg&2 != 0
			in := wrapGzip(w.p, data, head)
			for n := 0; n <= len(in); n++ {
				for _, k := range []fmtKind{kAuto, kGzip} {
					for _, m := range []int{1, 5, 9} {
						agreeRef(t, fmt.Sprintf("flg %#x cut to %d", flg, n), in[:n:n], rOpt{K: k, Mem: m, W: 15})
					}
				}
			}
			for cm := 0; cm < 256; cm += 1 + 15*(flg&1) {
				bad := append([]byte(nil), in...)
				bad[2] = byte(cm)
				agreeRef(t, fmt.Sprintf("cm %#x", cm), bad, rOpt{K: kGzip, Mem: 1, W: 15})
			}
			t.State("flg", flg)
		})
	}
	// (c) extra fields
	extra := func(t *T, x []byte) {
		var xd flate.ExtraData
		if p, v := t.Panics(func() { xd.Parse(x) }); p {
			t.Failf("ExtraData.Parse(%x) panicked: %v", x, v)
		}
		t.Step(1)
		// Every record is a part of the field, in order.
		pos := 0
		for _, r := range xd.Records {
			if pos+4+len(r.Bytes) > len(x) || !bytes.Equal(x[pos:pos+2], r.ID[:]) || !bytes.Equal(x[pos+4:pos+4+len(r.Bytes)], r.Bytes) {
				t.Failf("ExtraData.Parse(%x) made up record %x:%x", x, r.ID, r.Bytes)
			}
			pos += 4 + len(r.Bytes)
		}
		w := &bitw{}
		w.stored(true, []byte("x"))
		in := wrapGzip(w.p, []byte("x"), gzHead{extra: append([]byte{}, x...)})
		got, err := decodeAll(t, in, rOpt{K: kGzip, Mem: 1, W: 8})
		expect(t, fmt.Sprintf("extra field %x", x), got, err, []byte("x"), endEOF)
	}
	for b := 0; b < 256; b++ {
		b := b
		c.CaseF("extra3", func() string { return fmt.Sprint(b) }, func(t *T) {
			if b == 0 {
				extra(t, nil)
			}
			extra(t, []byte{byte(b)})
			for b2 := 0; b2 < 256; b2++ {
				t.Note("%02x%02x", b, b2)
				extra(t, []byte{byte(b), byte(b2)})
				if !c.Quick() || b2 < 4 || b2 > 252 {
					for b3 := 0; b3 < 256; b3++ {
						extra(t, []byte{byte(b), byte(b2), byte(b3)})
					}
				}
				// and as the length of a record
				for _, n := range []int{0, 1, 2, 255, 256, 257} {
					extra(t, append([]byte{'a', 'b', byte(b), byte(b2)}, make([]byte, n)...))
				}
			}
			t.State("extra", b)
		})
	}
	alpha := []byte{0, 1, 2, 5, 255}
	for n := 4; n <= c.Pick(7, 8); n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		for s := 0; s < total; s += 625 {
			n, s := n, s
			c.CaseF("extraN", func() string { return fmt.Sprintf("%d/%d", n, s) }, func(t *T) {
				for x := s; x < s+625; x++ {
					v := make([]byte, n)
					for i, y := 0, x; i < n; i++ {
						v[i] = alpha[y%len(alpha)]
						y /= len(alpha)
					}
					t.Note("%x", v)
					extra(t, v)
				}
				t.State("extraN", n, s)
			})
		}
	}
	// (d) ExtraData round trip
	lens := []int{0, 1, 2, 3, 4, 255, 256, 257, 65535}
	for i := range lens {
		i := i
		c.CaseF("xdround", func() string { return fmt.Sprint(i) }, func(t *T) {
			rec := func(n int, id byte) flate.ExtraDataRecord {
				return flate.ExtraDataRecord{ID: [2]byte{id, byte(n)}, Bytes: noise(n, uint64(id))}
			}
			check := func(recs ...flate.ExtraDataRecord) {
				xd := flate.ExtraData{Records: recs}
				b := xd.AsBytes()
				var back flate.ExtraData
				if p, v := t.Panics(func() { back.Parse(b) }); p {
					t.Failf("Parse(AsBytes()) panicked: %v", v)
				}
				t.Step(2)
				t.Trace()
				if len(back.Records) != len(recs) {
					t.Failf("Parse(AsBytes()) of %d records gave %d", len(recs), len(back.Records))
				}
				for k := range recs {
					if recs[k].ID != back.Records[k].ID || !bytes.Equal(recs[k].Bytes, back.Records[k].Bytes) {
						t.Failf("Parse(AsBytes()) changed record %d of %d (length %d)", k, len(recs), len(recs[k].Bytes))
					}
				}
				if !bytes.Equal(xd.AsBytes(), b) || !reflect.DeepEqual(xd.Records, recs) {
					t.Failf("AsBytes changed its receiver")
				}
				// AsBytes as specified
				var want []byte
				for _, r := range recs {
					want = append(want, r.ID[0], r.ID[1], byte(len(r.Bytes)), byte(len(r.Bytes)>>8))
					want = append(want, r.Bytes...)
				}
				if !bytes.Equal(want, b) {
					t.Failf("AsBytes encodes wrongly: %s", diffAt(b, want))
				}
			}
			check()
			check(rec(lens[i], 1))
			for j := range lens {
				check(rec(lens[i], 1), rec(lens[j], 2))
				for k := range lens {
					check(rec(lens[i], 0), rec(lens[j], 255), rec(lens[k], 3))
					t.State(i, j, k)
				}
			}
		})
	}
	// (e) long fields
	for _, n := range []int{0, 1, 100, 127, 128, 129, 255, 256, 257, 1023, 4096, 32767, 32768, 65534, 65535, 70000} {
		n := n
		c.CaseF("long", func() string { return fmt.Sprint(n) }, func(t *T) {
			w := &bitw{}
			w.stored(true, []byte("y"))
			s := bytes.Repeat([]byte("s"), n)
			for m := 1; m <= 9; m++ {
				for k := 0; k < 4; k++ {
					h := gzHead{}
					switch k {
					case 0:
						h.name = s
					case 1:
						h.com = s
					case 2:
						if n <= 65535 {
							h.extra = s
						}
					case 3:
						h.name, h.com, h.hcrc = s, s, true
						if n <= 65535 {
							h.extra = validExtra(n)
						}
					}
					in := wrapGzip(w.p, []byte("y"), h)
					agreeRef(t, fmt.Sprintf("field %d of %d bytes", k, n), in, rOpt{K: kGzip, Mem: m, W: 15})
					for _, cut := range []int{10, 11, 12, n / 2, n, n + 9, n + 10, n + 11, n + 12, n + 13, 2 * n} {
						if cut < len(in) {
							agreeRef(t, fmt.Sprintf("field %d of %d bytes, cut to %d", k, n, cut), in[:cut:cut], rOpt{K: kGzip, Mem: m, W: 15})
						}
					}
				}
			}
			t.State("long", n)
		})
	}
	for _, n := range []int{1<<17 - 1, 1 << 17, 1<<18 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<22 + 3} {
		n := n
		c.CaseF("very long", func() string { return fmt.Sprint(n) }, func(t *T) {
			w := &bitw{}
			w.stored(true, []byte("y"))
			s := bytes.Repeat([]byte("s"), n)
			for k, h := range []gzHead{{name: s}, {com: s}, {name: []byte("x"), com: s, hcrc: true}, {name: s, com: []byte("x"), extra: validExtra(65535)}} {
				in := wrapGzip(w.p, []byte("y"), h)
				for m := 1; m <= 9; m += 4 {
					agreeRef(t, fmt.Sprintf("very long field %d of %d bytes", k, n), in, rOpt{K: kGzip, Mem: m, W: 15})
					for _, cut := range []int{n / 2, n + 9, n + 10, n + 11} {
						agreeRef(t, fmt.Sprintf("very long field %d of %d bytes, cut to %d", k, n, cut), in[:cut:cut], rOpt{K: kGzip, Mem: m, W: 15})
					}
				}
			}
			t.State("very long", n)
		})
	}
	// (f) Close and Reset at every stage
	var inputs []vfile
	{
		t := &T{c: c}
		if f := t.run(func(t *T) { inputs = validFiles(t, false) }); f != "" {
			panic(f)
		}
		for i, v := range inputs[:24] {
			if len(v.in) > 6 {
				x := v
				x.name += "-cut"
				x.in = v.in[:len(v.in)-5]
				inputs = append(inputs, x)
				y := v
				y.name += "-bad"
				y.in = append([]byte(nil), v.in...)
				y.in[len(y.in)*(i%7+1)/8] ^= 0x15
				inputs = append(inputs, y)
			}
		}
		w := &bitw{}
		var toks = []tk{lit(7)}
		for i := 0; i < 3000; i++ {
			toks = append(toks, mt(258, 1))
		}
		w.fixed(true, toks)
		inputs = append(inputs, vfile{"bomb-raw", w.p, rOpt{K: kRaw}}, vfile{"bomb-zlib", wrapZlib(w.p, applyToks(nil, toks), 15, nil), rOpt{K: kZlib}})
	}
	for _, v := range inputs {
		for how := 0; how < 4; how++ {
			v, how := v, how
			c.CaseF("stages", func() string { return fmt.Sprintf("%s/%d", v.name, how) }, func(t *T) {
				for _, m := range []int{1, 9} {
					for _, size := range []int{1, 7, 128, 5000} {
						for reads := 0; reads <= 6; reads++ {
							o := v.o
							o.Mem = m
							t.Note("%s mem %d size %d reads %d how %d", v.name, m, size, reads, how)
							safeDecode(t, t.note, v.in, o, reads, size, how)
						}
						o := v.o
						o.Mem = m
						safeDecode(t, t.note+" all", v.in, o, -1, size, how)
						// the wrong format
						for _, k := range []fmtKind{kAuto, kRaw, kZlib, kGzip} {
							o.K = k
							safeDecode(t, fmt.Sprintf("%s as %v", v.name, k), v.in, o, -1, size, how)
						}
					}
				}
				t.State(v.name, how)
			})
		}
	}
}
