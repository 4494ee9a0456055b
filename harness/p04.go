package main

import (
	"bytes"
	"fmt"
)

func init() {
	register(&Prop{
		ID: "P04", Run: runP04,
		Bounds:      "all raw inputs of 1 and 2 bytes (3 bytes thorough) under three continuations; all HLIT x HDIST x HCLEN fields; all code length vectors over 4-6 symbols for each of the three codes; every class of format violation after 0..40000 valid bytes in raw/zlib/gzip/second member, memory levels 1 and 9, windows 2^8..2^15, with and without dictionary; all single (thorough: double) bit flips of small streams",
		Assumptions: []string{"streams with an incomplete code may be refused at the code or at the first undefined code word"},
	})
}

type viol struct {
	name string
	// put appends the violation; have is the size of the window (dictionary
	// and output so far).
	put func(w *bitw, have, wsize int) bool
}

func violations() []viol {
	var vs []viol
	add := func(name string, put func(w *bitw)) {
		vs = append(vs, viol{name, func(w *bitw, have, wsize int) bool { put(w); return true }})
	}
	for _, f := range []bool{false, true} {
		f := f
		add(fmt.Sprintf("btype3-%v", f), func(w *bitw) { w.bits(b2u(f), 1).bits(3, 2) })
	}
	for k := 0; k < 32; k++ {
		k := k
		for _, n := range []int{0, 1, 7, 0xffff} {
			n := n
			add(fmt.Sprintf("nlen-bit%d-n%d", k, n), func(w *bitw) {
				w.bits(0, 3).align()
				v := uint64(n) | uint64(0xffff&^n)<<16
				w.bits(v^1<<uint(k), 32)
			})
		}
	}
	for _, n := range []int{0, 5, 300, 0xffff} {
		n := n
		add(fmt.Sprintf("nlen-same-%d", n), func(w *bitw) { w.bits(0, 3).align().bits(uint64(n)|uint64(n)<<16, 32) })
	}
	good := func() *dynHeader {
		return mkDyn(balanced(257, []int{65, 66, 67, 256}, 0), balanced(2, []int{0, 1}, 0), true)
	}
	for _, x := range []int{30, 31} {
		x := x
		add(fmt.Sprintf("hlit-%d", x), func(w *bitw) {
			h := good()
			h.rawHL = x
			h.seq = append(h.seq, h.seq...)
			w.dynHead(false, h)
		})
		add(fmt.Sprintf("hdist-%d", x), func(w *bitw) {
			h := good()
			h.rawHD = x
			h.seq = append(h.seq, clGreedy(make([]byte, 40))...)
			w.dynHead(false, h)
		})
		add(fmt.Sprintf("hboth-%d", x), func(w *bitw) {
			h := good()
			h.rawHD, h.rawHL = x, x
			w.dynHead(false, h)
		})
	}
	// over-subscribed code length codes
	for _, v := range [][]byte{
		{1, 1, 1}, {1, 1, 7}, {2, 2, 2, 2, 7}, {1, 2, 2, 2}, {4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4}, {1, 2, 3, 4, 5, 6, 7, 7, 7},
	} {
		v := v
		add(fmt.Sprintf("cl-over-%x", v), func(w *bitw) {
			nx := len(v)
			if nx < 4 {
				nx = 4
			}
			w.bits(0, 1).bits(2, 2).bits(0, 5).bits(0, 5).bits(uint64(nx-4), 4)
			for i := 0; i < nx; i++ {
				x := byte(0)
				if i < len(v) {
					x = v[i]
				}
				w.bits(uint64(x), 3)
			}
			w.bits(0, 40)
		})
	}
	add("cl-empty", func(w *bitw) { w.bits(4, 3).bits(0, 10+4+12).bits(0, 30) })
	// over-subscribed literal/length codes and distance codes
	over := func(name string, ll, d []byte) {
		add(name, func(w *bitw) {
			h := mkDyn(ll, d, true)
			w.dynHead(false, h)
		})
	}
	bal := func(n, k, l int) []byte {
		out := make([]byte, n)
		for i := 0; i < k; i++ {
			out[n-1-i] = byte(l)
		}
		return out
	}
	d2 := []byte{1, 1}
	over("ll-over-7", bal(257, 129, 7), d2)
	over("ll-over-8", bal(257, 257, 8), d2)
	over("ll-over-1", bal(257, 3, 1), d2)
	over("ll-over-286", bal(286, 286, 8), d2)
	x := skewed(257, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 256}, 15)
	x[0] = 15
	over("ll-over-15", x, d2)
	over("d-over-1", bal(257, 2, 1), []byte{1, 1, 1})
	over("d-over-2", bal(257, 2, 1), []byte{2, 2, 2, 2, 2})
	over("d-over-4", bal(257, 2, 1), bal(30, 17, 4))
	dx := skewed(30, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, 15)
	dx[20] = 15
	over("d-over-15", bal(257, 2, 1), dx)
	// repeats
	rep := func(name string, hlit int, seq ...clsym) {
		add(name, func(w *bitw) {
			h := &dynHeader{ll: make([]byte, hlit), d: make([]byte, 1), rawHL: -1, rawHD: -1, seq: seq, cl: balanced(19, []int{0, 1, 8, 16, 17, 18}, 0), nx: 19}
			w.dynHead(false, h)
		})
	}
	for e := 0; e < 4; e++ {
		rep(fmt.Sprintf("rep16-first-%d", e), 257, clsym{16, e}, clsym{1, 0}, clsym{18, 127}, clsym{18, 127})
	}
	base := []clsym{{18, 127}, {18, 107}} // 138+118 = 256 zeros
	for e := 0; e < 4; e++ {
		rep(fmt.Sprintf("rep16-past-%d", e), 257, append(append([]clsym(nil), base...), clsym{1, 0}, clsym{16, e})...)
	}
	for e := 0; e < 8; e++ {
		rep(fmt.Sprintf("rep17-past-%d", e), 257, append(append([]clsym(nil), base...), clsym{1, 0}, clsym{17, e})...)
	}
	for e := 0; e < 128; e += 1 {
		rep(fmt.Sprintf("rep18-past-%d", e), 257, append(append([]clsym(nil), base...), clsym{1, 0}, clsym{18, e})...)
	}
	rep("rep18-past-big", 286, clsym{18, 127}, clsym{18, 127}, clsym{18, 127})
	// symbols that must not occur
	for s := 286; s < 288; s++ {
		s := s
		add(fmt.Sprintf("fixed-ll-%d", s), func(w *bitw) { w.bits(0, 1).bits(1, 2).code(fixLLc[s]) })
		add(fmt.Sprintf("fixed-ll-%d-after", s), func(w *bitw) {
			w.bits(0, 1).bits(1, 2).code(fixLLc['q'])
			w.code(fixLLc[s])
		})
	}
	for s := 30; s < 32; s++ {
		for _, l := range []int{257, 265, 284, 285} {
			s, l := s, l
			add(fmt.Sprintf("fixed-d-%d-l%d", s, l), func(w *bitw) {
				w.bits(0, 1).bits(1, 2).code(fixLLc['q'])
				w.code(fixLLc[l])
				w.bits(0, lenExtra[l-257])
				w.code(fixDc[s])
			})
		}
	}
	dynMatch := func(name string, dl []byte, rest func(w *bitw)) {
		add(name, func(w *bitw) {
			ll := balanced(258, []int{113, 256, 257}, 0)
			h := mkDyn(ll, dl, true)
			w.dynHead(false, h)
			c := canon(ll)
			w.code(c[113])
			w.code(c[257])
			rest(w)
		})
	}
	dynMatch("d-undefined-one", []byte{1}, func(w *bitw) { w.bits(1, 1) })
	dynMatch("d-undefined-one-hi", []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, func(w *bitw) { w.bits(1, 1).bits(0, 20) })
	dynMatch("d-none", []byte{0}, func(w *bitw) {})
	dynMatch("d-none30", make([]byte, 30), func(w *bitw) { w.bits(1, 1) })
	// distances
	dist := func(name string, f func(have, wsize int) int) {
		for variant := 0; variant < 3; variant++ {
			variant := variant
			vs = append(vs, viol{fmt.Sprintf("%s-v%d", name, variant), func(w *bitw, have, wsize int) bool {
				d := f(have, wsize)
				if d < 1 || d > 32768 || (d <= have && d <= wsize) {
					return false
				}
				toks := []tk{mt([]int{3, 258, 11}[variant], d)}
				switch variant {
				case 0:
					w.bits(0, 1).bits(1, 2).tokens(fixLLc, fixDc, toks, true)
				case 1:
					w.autoDyn(false, toks, false, true)
				default:
					w.bits(0, 1).bits(1, 2).tokens(fixLLc, fixDc, append(toks, lits([]byte("tail"))...), true)
				}
				return true
			}})
		}
	}
	dist("dist-before-start", func(have, wsize int) int { return have + 1 })
	dist("dist-before-start+7", func(have, wsize int) int { return have + 8 })
	dist("dist-over-window", func(have, wsize int) int { return wsize + 1 })
	dist("dist-over-window+99", func(have, wsize int) int { return wsize + 100 })
	dist("dist-max", func(have, wsize int) int { return 32768 })
	dist("dist-24577", func(have, wsize int) int { return 24577 })
	return vs
}

func runP04(c *C) {
	mem := func(i int) int { return []int{1, 9}[i%2] }

	// (a) all short inputs
	pads := make([][]byte, 3)
	for i := 0; i < 40; i++ {
		pads[0] = append(pads[0], 0)
		pads[1] = append(pads[1], 0xff)
		pads[2] = append(pads[2], byte(i*37+0x25))
	}
	o8 := rOpt{K: kRaw, Mem: 1, W: 8}
	for b := 0; b < 256; b++ {
		b := b
		c.CaseF("short", func() string { return fmt.Sprintf("%02x", b) }, func(t *T) {
			for pi, pad := range pads {
				in := append([]byte{byte(b)}, pad...)
				agreeRef(t, fmt.Sprintf("%02x+pad%d", b, pi), in, o8)
				agreeRef(t, fmt.Sprintf("%02x", b), []byte{byte(b)}, o8)
				for b2 := 0; b2 < 256; b2++ {
					t.Note("%02x%02x pad %d", b, b2, pi)
					in := append([]byte{byte(b), byte(b2)}, pad...)
					f := agreeRef(t, fmt.Sprintf("%02x%02x+pad%d", b, b2, pi), in, o8)
					t.State("short", f.Err, f.Msg, len(f.Out), len(f.Members))
					if pi == 0 {
						agreeRef(t, fmt.Sprintf("%02x%02x", b, b2), in[:2], o8)
					}
				}
			}
		})
	}
	if !c.Quick() {
		// all inputs of three bytes
		for b := 0; b < 16384; b++ {
			b := b
			c.CaseF("short3", func() string { return fmt.Sprintf("%03x", b) }, func(t *T) {
				for x := 0; x < 1024; x++ {
					v := b | x<<14
					for pi, pad := range pads[:2] {
						if pi > 0 && x%16 != b%16 {
							continue
						}
						in := append([]byte{byte(v), byte(v >> 8), byte(v >> 16)}, pad...)
						agreeRef(t, "3 bytes", in, o8)
					}
				}
			})
		}
	}

	// (b) header fields
	for hl := 0; hl < 32; hl++ {
		hl := hl
		c.CaseF("fields", func() string { return fmt.Sprint(hl) }, func(t *T) {
			for hd := 0; hd < 32; hd++ {
				for hx := 0; hx < 16; hx++ {
					w := &bitw{}
					w.bits(1, 1).bits(2, 2).bits(uint64(hl), 5).bits(uint64(hd), 5).bits(uint64(hx), 4)
					cl := make([]byte, 19)
					cl[18], cl[0] = 2, 2
					cl[16], cl[17] = 2, 2
					if hx+4 >= 18 {
						// symbol 1 can be sent
						cl[1], cl[16], cl[17] = 1, 3, 3
						cl[0], cl[18] = 3, 3
					}
					for i := 0; i < hx+4; i++ {
						w.bits(uint64(cl[clOrder[i]]), 3)
					}
					cc := canon(cl)
					n := 257 + hl + hd + 1
					if hx+4 >= 18 {
						w.code(cc[1])
						w.code(cc[1])
						w.code(cc[18])
						w.bits(127, 7)
						w.code(cc[18])
						w.bits(105, 7)
						n -= 2 + 138 + 116
					} else {
						w.code(cc[18])
						w.bits(127, 7)
						w.code(cc[18])
						w.bits(127, 7)
						n -= 276
					}
					for n > 0 {
						w.code(cc[0])
						n--
					}
					w.bits(0x5a5a, 16)
					f := agreeRef(t, fmt.Sprintf("hlit %d hdist %d hclen %d", hl, hd, hx), w.p, rOpt{K: kRaw, Mem: mem(hx), W: 9})
					t.State("fields", hl, hd, hx, f.Err, f.Msg)
				}
			}
		})
	}

	// (c) all code length vectors
	vec := func(group string, k, max int, build func(v []byte) []byte) {
		total := 1
		for i := 0; i < k; i++ {
			total *= max + 1
		}
		const chunk = 256
		for s := 0; s < total; s += chunk {
			s := s
			c.CaseF(group, func() string { return fmt.Sprintf("%d/%d", s, k) }, func(t *T) {
				for x := s; x < s+chunk && x < total; x++ {
					v := make([]byte, k)
					for i, y := 0, x; i < k; i++ {
						v[i] = byte(y % (max + 1))
						y /= max + 1
					}
					t.Note("%s %x", group, v)
					in := build(v)
					f := agreeRef(t, fmt.Sprintf("%s %x", group, v), in, rOpt{K: kRaw, Mem: mem(x), W: 9})
					t.State(group, x, f.Err, len(f.Out))
				}
			})
		}
	}
	tailBits := func(w *bitw) {
		for i := 0; i < 6; i++ {
			w.bits(0xa61c, 16)
		}
		w.bits(0, 24)
	}
	vec("ll-vectors", c.Pick(5, 6), 4, func(v []byte) []byte {
		// symbols 97.. and 256
		ll := make([]byte, 257)
		for i, l := range v[:len(v)-1] {
			ll[97+i] = l
		}
		ll[256] = v[len(v)-1]
		w := &bitw{}
		w.stored(false, []byte("pre"))
		w.dynHead(true, mkDyn(ll, []byte{1, 1}, true))
		tailBits(w)
		return w.p
	})
	vec("d-vectors", c.Pick(5, 6), 4, func(v []byte) []byte {
		ll := balanced(258, []int{97, 256, 257}, 0)
		w := &bitw{}
		w.stored(false, noise(300, 1))
		w.dynHead(true, mkDyn(ll, append([]byte(nil), v...), true))
		tailBits(w)
		return w.p
	})
	vec("cl-vectors", c.Pick(4, 6), 7, func(v []byte) []byte {
		w := &bitw{}
		w.stored(false, []byte("pre"))
		w.bits(1, 1).bits(2, 2).bits(0, 5).bits(0, 5).bits(uint64(len(v)-4), 4)
		for _, l := range v {
			w.bits(uint64(l), 3)
		}
		tailBits(w)
		tailBits(w)
		return w.p
	})

	// (d) every kind of violation in every context
	ns := []int{0, 1, 3, 127, 128, 129, 256, 257, 512, 1000, 4096, 32767, 32768, 32769, 40000}
	if !c.Quick() {
		ns = append(ns, 2, 120, 126, 130, 255, 300, 511, 513, 4095, 4097, 32760, 65536, 65537)
	}
	dicts := [][]byte{nil, noise(77, 5)}
	for _, v := range violations() {
		for ni, n := range ns {
			v, ni, n := v, ni, n
			c.CaseF("viol", func() string { return fmt.Sprintf("%s/n%d", v.name, n) }, func(t *T) {
				data := texty(n, 9)
				for k := 0; k < 4; k++ { // raw, zlib, gzip, second gzip member
					for style := 0; style < 4; style++ {
						wb := []int{15, 8, 12}[(style+k)%3]
						if c.Quick() && (style+k+ni)%2 == 1 && n > 300 {
							continue
						}
						kind := []fmtKind{kRaw, kZlib, kGzip, kGzip}[k]
						data := data
						dict := dicts[(ni+style)%2]
						o := rOpt{K: kind, Mem: mem(style + k + ni), W: wb, Dict: dict}
						w := &bitw{}
						switch style {
						case 0:
							for i := 0; i < len(data); i += 1000 {
								w.stored(false, data[i:minInt(i+1000, len(data))])
							}
						case 1:
							w.fixed(false, lits(data))
						case 2:
							w.autoDyn(false, lits(data), false, true)
						case 3:
							// a block with many length and distance codes, so
							// that anything left over from it can be decoded
							toks := lits(data)
							for i, d := range []int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193} {
								if d <= len(data) {
									toks = append(toks, mt(3+i, d))
								}
							}
							data = applyToks(nil, toks)
							w.autoDyn(false, toks, false, true)
						}
						have := len(data)
						if dict != nil {
							have += len(dict)
						}
						if !v.put(w, have, 1<<uint(wb)) {
							continue
						}
						// what follows must never be delivered
						w.fixed(false, lits([]byte("ZZZZZZZZZZ")))
						w.stored(true, bytes.Repeat([]byte("Z"), 200))
						var in []byte
						want := data
						switch k {
						case 0:
							in = w.p
						case 1:
							in = wrapZlib(w.p, data, wb, dict)
						case 2:
							in = wrapGzip(w.p, data, gzHead{name: []byte("n")})
						case 3:
							g := &bitw{}
							g.fixed(true, lits([]byte("first")))
							in = append(wrapGzip(g.p, []byte("first"), gzHead{}), wrapGzip(w.p, data, gzHead{})...)
							want = append([]byte("first"), data...)
						}
						t.Note("%s n=%d k=%d style=%d", v.name, n, k, style)
						f := refDecode(in, o.K, o.Dict, o.wbits())
						if f.Err != refCorrupt || !bytes.HasPrefix(f.Out, want) || len(f.Out) > len(want)+2 {
							panic(fmt.Sprintf("harness: violation %s not a violation: %v %s %d/%d", v.name, f.Err, f.Msg, len(f.Out), len(want)))
						}
						got, err := decodeAll(t, in, o)
						agree(t, fmt.Sprintf("%s after %d bytes, style %d, %v", v.name, n, style, o), in, o, f, got, err)
						t.State("viol", v.name, n, k, style)
						// and with nothing at all after it
						got, err = decodeAll(t, append(in, noise(300, 2)...), o)
						agree(t, fmt.Sprintf("%s after %d bytes, style %d, %v, more input", v.name, n, style, o), in, o, f, got, err)
					}
				}
			})
		}
	}

	// (e) bit flips
	type base struct {
		name string
		in   []byte
		o    rOpt
	}
	var bases []base
	add := func(name string, body, content []byte, k fmtKind) {
		bases = append(bases, base{fmt.Sprintf("%s-%v", name, k), wrap(k, body, content, nil), rOpt{K: k, Mem: 1, W: 15}})
	}
	for _, k := range allKinds {
		toks := append(lits([]byte("bit flips ")), mt(5, 3), mt(20, 10), lit('!'))
		w := &bitw{}
		w.fixed(true, toks)
		add("fixed", w.p, applyToks(nil, toks), k)
		w = &bitw{}
		w.autoDyn(true, toks, false, true)
		add("dyn", w.p, applyToks(nil, toks), k)
		w = &bitw{}
		w.autoDyn(true, toks, true, false)
		add("dynskew", w.p, applyToks(nil, toks), k)
		w = &bitw{}
		w.stored(false, []byte("abc")).fixed(false, toks).stored(true, []byte("de"))
		add("mix", w.p, concat([]byte("abc"), applyToks(nil, toks), []byte("de")), k)
	}
	for _, b := range bases {
		n := len(b.in) * 8
		for i := 0; i < n; i++ {
			b, i := b, i
			c.CaseF("flip", func() string { return fmt.Sprintf("%s/%d", b.name, i) }, func(t *T) {
				in := append([]byte(nil), b.in...)
				in[i/8] ^= 1 << uint(i%8)
				f := agreeRef(t, fmt.Sprintf("%s bit %d", b.name, i), in, b.o)
				agreeRef(t, fmt.Sprintf("%s bit %d auto", b.name, i), in, rOpt{K: kAuto, Mem: 9, W: 15})
				t.State(b.name, i, f.Err, f.Msg)
				lim := i + c.Pick(33, n)
				for j := i + 1; j < n && j < lim; j++ {
					in[j/8] ^= 1 << uint(j%8)
					t.Note("%s bits %d,%d", b.name, i, j)
					agreeRef(t, fmt.Sprintf("%s bits %d,%d", b.name, i, j), in, b.o)
					in[j/8] ^= 1 << uint(j%8)
				}
			})
		}
	}
}
