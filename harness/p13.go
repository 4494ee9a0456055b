package main

import (
	"bytes"
	"fmt"
)

func init() {
	register(&Prop{
		ID: "P13", Run: runP13,
		Bounds: "two- and three-member files with the first member's size swept over 0..300 bytes (so that boundaries fall at every buffer offset at memory level 1 and 2) and around 512..65536 for larger levels; all format mixes (declared and auto-detected), all pairs and triples of 9 small members, up to 40 members; all pairs (thorough: triples) of members with windows of 2^8..2^15 bytes in every format; 27 kinds of trailing garbage; optionally sliced to one byte at a time; 70000 members",
	})
}

type member struct {
	name string
	k    fmtKind
	in   []byte
	out  []byte
}

func mkMember(k fmtKind, style, n int) member {
	data := noise(n, uint64(n+style))
	w := &bitw{}
	switch style {
	case 0:
		for i := 0; i+60000 < len(data); i += 60000 {
			w.stored(false, data[i:i+60000])
		}
		w.stored(true, data[len(data)/60000*60000:])
	case 1:
		w.fixed(true, lits(data))
	case 2:
		w.autoDyn(true, lits(data), false, true)
	}
	if style == 0 && n > 0 && n%60000 == 0 {
		w = &bitw{}
		w.stored(false, nil)
		for i := 0; i < len(data); i += 60000 {
			w.stored(i+60000 == len(data), data[i:i+60000])
		}
	}
	return member{fmt.Sprintf("%v-%d-%d", k, style, n), k, wrap(k, w.p, data, nil), data}
}

func runP13(c *C) {
	hugeCases(c)
	run := func(t *T, o rOpt, what string, ms ...member) {
		var in, want []byte
		for _, m := range ms {
			in = append(in, m.in...)
			want = append(want, m.out...)
		}
		if o.K == kAuto {
			// a raw member that looks like a header is no raw member
			f := refDecode(in, kAuto, nil, 15)
			if f.Err != refOK || !bytes.Equal(f.Out, want) {
				return
			}
		}
		t.Note("%v %s", o, what)
		got, err := decodeAll(t, in, o)
		expect(t, t.note, got, err, want, endEOF)
	}
	// sweep the boundary
	ns := []int{}
	for n := 0; n <= 300; n++ {
		ns = append(ns, n)
	}
	for _, b := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
		for d := -22; d <= 4; d++ {
			if c.Quick() && b > 1024 && d%3 != 0 {
				continue
			}
			ns = append(ns, b+d)
		}
	}
	for _, n := range ns {
		n := n
		c.CaseF("sweep", func() string { return fmt.Sprint(n) }, func(t *T) {
			for _, k := range allKinds {
				for style := 0; style < 3; style++ {
					if style == 2 && n > 5000 {
						continue
					}
					a := mkMember(k, style, n)
					for _, k2 := range allKinds {
						b := mkMember(k2, (style+n)%3, 5+n%7)
						e := mkMember(k2, 0, 0)
						for _, mem := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9} {
							if mem > 2 && 1<<uint(mem+6) < n-600 || mem > 2 && n <= 300 && (n+mem)%5 != 0 {
								continue
							}
							if k2 == k {
								run(t, rOpt{K: k, Mem: mem, W: 15}, a.name+"+"+b.name, a, b)
								run(t, rOpt{K: k, Mem: mem, W: 15}, a.name+"+empty+"+b.name, a, e, b)
							}
							run(t, rOpt{K: kAuto, Mem: mem, W: 15}, a.name+"+"+b.name, a, b)
							run(t, rOpt{K: kAuto, Mem: mem, W: 15}, b.name+"+"+a.name+"+"+e.name, b, a, e)
						}
					}
				}
			}
			t.State("sweep", n)
		})
	}
	// pairs and triples of small members
	var small []member
	for _, k := range allKinds {
		for _, x := range []struct{ s, n int }{{0, 0}, {1, 0}, {0, 3}, {1, 9}, {2, 30}} {
			small = append(small, mkMember(k, x.s, x.n))
		}
	}
	for i := range small {
		for j := range small {
			i, j := i, j
			c.CaseF("triples", func() string { return small[i].name + "+" + small[j].name }, func(t *T) {
				for mem := 1; mem <= 9; mem += 4 {
					if small[i].k == small[j].k {
						run(t, rOpt{K: small[i].k, Mem: mem, W: 15}, "pair", small[i], small[j])
					}
					run(t, rOpt{K: kAuto, Mem: mem, W: 15}, "pair", small[i], small[j])
					for k := range small {
						if small[i].k == small[j].k && small[j].k == small[k].k {
							run(t, rOpt{K: small[i].k, Mem: mem, W: 15}, "triple with "+small[k].name, small[i], small[j], small[k])
						}
						run(t, rOpt{K: kAuto, Mem: mem, W: 15}, "triple with "+small[k].name, small[i], small[j], small[k])
					}
				}
				t.State("triples", i, j)
			})
		}
	}
	// windows of different sizes one after another
	far := func(k fmtKind, w int) member {
		d := noise(1<<uint(w)-100, uint64(w))
		if w == 8 {
			d = noise(256, 8)
		}
		toks := lits(d)
		for i := 0; i < 5; i++ {
			toks = append(toks, mt(20+i, len(d)))
		}
		data := applyToks(nil, toks)
		b := &bitw{}
		b.autoDyn(true, toks, false, true)
		in := wrap(k, b.p, data, nil)
		if k == kZlib {
			in = wrapZlib(b.p, data, w, nil)
		}
		return member{fmt.Sprintf("%v-far%d", k, w), k, in, data}
	}
	var fars []member
	for _, k := range allKinds {
		for _, w := range []int{8, 9, 12, 15} {
			fars = append(fars, far(k, w))
		}
	}
	for i := range fars {
		for j := range fars {
			i, j := i, j
			c.CaseF("windows", func() string { return fars[i].name + "+" + fars[j].name }, func(t *T) {
				for _, mem := range []int{1, 5, 9} {
					for l := range fars {
						if c.Quick() && (i+j+l+mem/4)%3 != 0 {
							continue
						}
						ms := []member{fars[i], fars[j], fars[l]}
						run(t, rOpt{K: kAuto, Mem: mem, W: 15}, "triple with "+fars[l].name, ms...)
						if fars[i].k == fars[j].k && fars[j].k == fars[l].k {
							run(t, rOpt{K: fars[i].k, Mem: mem, W: 15}, "triple with "+fars[l].name, ms...)
						}
					}
				}
				t.State("windows", i, j)
			})
		}
	}
	// many members
	for n := 1; n <= 40; n++ {
		n := n
		c.CaseF("many", func() string { return fmt.Sprint(n) }, func(t *T) {
			for _, k := range []fmtKind{kAuto, kRaw, kZlib, kGzip} {
				for mem := 1; mem <= 9; mem += 2 {
					for size := 0; size <= 30; size++ {
						var ms []member
						for i := 0; i < n; i++ {
							kk := k
							if k == kAuto {
								kk = allKinds[(i+size)%3]
							}
							ms = append(ms, mkMember(kk, (i+size)%3, size))
						}
						run(t, rOpt{K: k, Mem: mem, W: 15}, fmt.Sprintf("%d members of %d", n, size), ms...)
					}
				}
			}
			t.State("many", n)
		})
	}
	// trailing garbage
	garbage := [][]byte{{0}, {1}, {2}, {3}, {7}, {0xff}, {0x1f}, {0x78}, {0x1f, 0x8b}, {0x78, 0x9c}, {0x1f, 0x8b, 8}, {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3},
		{0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, []byte("garbage"), []byte("\n"), []byte("PK\x03\x04"),
		{0x78, 0x9c, 7}, {0x78, 0x9d, 3, 0}, {3}, {1, 0, 0}, {1, 0, 0, 0xff, 0xfe}, {0, 0, 0, 0xff, 0xff}, {0x1f, 0x8c, 8, 0}, {0x1e, 0x8b, 8, 0}, noise(600, 3)}
	for gi, g := range garbage {
		gi, g := gi, g
		c.CaseF("garbage", func() string { return fmt.Sprintf("%x", g) }, func(t *T) {
			for _, m := range small {
				for n := 0; n < 2; n++ {
					mm := m
					if n == 1 {
						mm = mkMember(m.k, 0, 100+gi)
					}
					in := concat(mm.in, g)
					for mem := 1; mem <= 9; mem += 2 {
						for _, k := range []fmtKind{m.k, kAuto} {
							o := rOpt{K: k, Mem: mem, W: 15}
							f := agreeRef(t, fmt.Sprintf("%s followed by %x", mm.name, g), in, o)
							if k != kAuto && k != kRaw && f.Err == refOK {
								panic("harness: garbage accepted by the model")
							}
							got, err := decodeFrom(t, &slicer{in: in, chunk: func(int) int { return 1 }}, o, nil)
							agree(t, fmt.Sprintf("%s followed by %x, one byte at a time", mm.name, g), in, o, f, got, err)
						}
					}
				}
			}
			t.State("garbage", gi)
		})
	}
	// every 1- and 2-byte tail
	for b := 0; b < 256; b++ {
		b := b
		c.CaseF("tails", func() string { return fmt.Sprint(b) }, func(t *T) {
			for _, k := range allKinds {
				m := mkMember(k, 0, 4)
				for b2 := -1; b2 < 256; b2++ {
					in := append(append([]byte(nil), m.in...), byte(b))
					if b2 >= 0 {
						in = append(in, byte(b2))
					}
					agreeRef(t, fmt.Sprintf("%v with tail %x", k, in[len(m.in):]), in, rOpt{K: k, Mem: 1, W: 8})
					if (b+b2)%4 == 0 {
						agreeRef(t, fmt.Sprintf("%v (auto) with tail %x", k, in[len(m.in):]), in, rOpt{K: kAuto, Mem: 1, W: 15})
					}
				}
			}
			t.State("tails", b)
		})
	}
}
