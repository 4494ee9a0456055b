package main

import (
	"bytes"
	stdflate "compress/flate"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"fmt"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P03", Run: runP03,
		Bounds:      "all 32768 distances; all lengths x overlap distances; every window-wrap position up to 4 windows at 2^8 and around multiples of the window at 2^9..2^15; stored lengths 0..300 and boundaries at all 8 bit alignments; all complete literal/length, distance and code-length codes over up to 6 symbols (7 thorough), 15-bit codes; all HLIT x HDIST; all repeat counts and code-length encodings; every sequence of up to 4 (5 thorough) code length symbols out of 8 as a prefix of the literal and of the distance lengths; up to 2x65537 blocks without or with one byte in a row; all block-type sequences up to length 4 (5 thorough); raw/zlib/gzip/auto; memory levels 1..9; streams of more than 4 GiB and files of 70000 streams",
		Assumptions: []string{"the reference decoder in ref.go implements RFC 1950-1952 (cross-checked against the Go standard library in the same run)"},
	})
}

// p03one checks one valid stream given as raw body.
func p03one(t *T, what string, body []byte, content []byte, o rOpt) {
	in := wrap(o.kindOrRaw(), body, content, o.Dict)
	if o.K == kZlib && o.W != 0 {
		in = wrapZlib(body, content, o.W, o.Dict)
	}
	got, err := decodeAll(t, in, o)
	expect(t, what+" "+o.String(), got, err, content, endEOF)
}

func (o rOpt) kindOrRaw() fmtKind {
	if o.K == kAuto {
		return kGzip
	}
	return o.K
}

// completeCodes enumerates every complete prefix code over k symbols, as code
// lengths (lengths at most max).
func completeCodes(k, max int, f func(lens []byte)) {
	lens := make([]byte, k)
	var rec func(i int, left int)
	full := 1 << uint(max)
	rec = func(i int, left int) {
		if i == k {
			if left == 0 {
				f(lens)
			}
			return
		}
		for l := 1; l <= max; l++ {
			u := full >> uint(l)
			if u > left || (k-1-i > 0 && left-u <= 0) {
				continue
			}
			lens[i] = byte(l)
			rec(i+1, left-u)
		}
	}
	rec(0, full)
}

func runP03(c *C) {
	hugeCases(c)
	mems := []int{1, 9}
	if !c.Quick() {
		mems = []int{1, 2, 3, 4, 5, 6, 7, 8, 9}
	}
	kinds4 := []fmtKind{kRaw, kZlib, kGzip, kAuto}

	// (a) every distance
	base := noise(32768, 3)
	for start := 1; start <= 32768; start += 128 {
		for variant := 0; variant < 2; variant++ {
			start, variant := start, variant
			c.CaseF("dist", func() string { return fmt.Sprintf("%d+128,v%d", start, variant) }, func(t *T) {
				var toks []tk
				for i := 0; i < 128; i++ {
					d := start + i
					toks = append(toks, mt(3+(i*7+start)%9, d), lit(byte(i)))
				}
				w := &bitw{}
				w.stored(false, base)
				if variant == 0 {
					w.fixed(true, toks)
				} else {
					w.autoDyn(true, toks, true, true)
				}
				win := applyToks(append([]byte(nil), base...), toks)
				o := rOpt{K: kinds4[(start/128)%4], Mem: mems[(start/128)%len(mems)], W: 15}
				p03one(t, fmt.Sprintf("distances %d..", start), w.p, win, o)
				t.State("dist", start, variant)
			})
		}
	}

	// (b) every length with overlap
	for d := 1; d <= 300; d++ {
		d := d
		c.CaseF("len", func() string { return fmt.Sprint(d) }, func(t *T) {
			pre := noise(d, uint64(d))
			toks := lits(pre)
			for n := 3; n <= 258; n++ {
				toks = append(toks, mt(n, d), lit(byte(n)))
			}
			toks = append(toks, tk{Len: 258, Dist: d, Alt: true}, lit(1), tk{Len: 258, Dist: 1, Alt: true})
			win := applyToks(nil, toks)
			for _, k := range []int{0, 1} {
				w := &bitw{}
				if k == 0 {
					w.fixed(true, toks)
				} else {
					w.autoDyn(true, toks, d%2 == 0, d%3 == 0)
				}
				for _, m := range mems {
					p03one(t, "lengths", w.p, win, rOpt{K: kinds4[d%4], Mem: m, W: 15})
				}
			}
			t.State("len", d)
		})
	}

	// (c) window wrap
	wrapCase := func(wb, k int, ways []int, dists []int, lens []int, mem int) {
		c.CaseF("wrap", func() string { return fmt.Sprintf("w%d,k%d,m%d", wb, k, mem) }, func(t *T) {
			ws := 1 << uint(wb)
			pre := noise(k, uint64(k*31+wb))
			for _, way := range ways {
				for _, d := range dists {
					if d > k || d > ws {
						continue
					}
					for _, n := range lens {
						w := &bitw{}
						var win []byte
						switch way {
						case 0: // stored
							for p := pre; ; {
								q := p
								if len(q) > 60000 {
									q = q[:60000]
								}
								w.stored(false, q)
								p = p[len(q):]
								if len(p) == 0 {
									break
								}
							}
							win = append(win, pre...)
							w.bits(1, 1).bits(1, 2)
						case 1: // literals
							w.bits(1, 1).bits(1, 2)
							w.tokens(fixLLc, fixDc, lits(pre), false)
							win = append(win, pre...)
						case 2: // matches
							w.bits(1, 1).bits(1, 2)
							seed := pre
							if len(seed) > ws/2 {
								seed = seed[:ws/2]
							}
							toks := lits(seed)
							for got := len(seed); got < k; {
								m := 3 + got%97
								if got+m > k {
									m = k - got
								}
								if m < 3 {
									toks = append(toks, lit(byte(got)))
									got++
									continue
								}
								toks = append(toks, mt(m, 1+(got*13)%len(seed)))
								got += m
							}
							w.tokens(fixLLc, fixDc, toks, false)
							win = applyToks(win, toks)
						}
						// the match under test, then probe the whole window
						toks := []tk{mt(n, d), lit(0x55)}
						avail := k + n + 1
						if avail > ws {
							avail = ws
						}
						for got := 0; got < avail; got += 258 {
							m := avail - got
							if m > 258 {
								m = 258
							}
							if m < 3 {
								m = 3
							}
							toks = append(toks, mt(m, avail))
						}
						win = applyToks(win, toks)
						w.tokens(fixLLc, fixDc, toks, true)
						p03one(t, fmt.Sprintf("wrap way%d k=%d d=%d n=%d", way, k, d, n), w.p, win, rOpt{K: kZlib, Mem: mem, W: wb})
					}
				}
			}
			t.State("wrap", wb, k)
		})
	}
	for k := 1; k <= c.Pick(1040, 1400); k++ {
		wrapCase(8, k, []int{0, 1, 2}, []int{1, 2, 3, 131, 255, 256}, []int{3, 17, 258}, 1+8*(k%2))
	}
	for wb := 9; wb <= 15; wb++ {
		ws := 1 << uint(wb)
		for m := 1; m <= c.Pick(3, 5); m++ {
			for _, delta := range []int{-258, -257, -4, -3, -2, -1, 0, 1, 2, 3, 100} {
				wrapCase(wb, m*ws+delta, []int{0, 1, 2}, []int{1, 2, ws - 258, ws - 1, ws}, []int{3, 258}, mems[m%len(mems)])
			}
		}
	}

	// (d) stored blocks
	var storedLens []int
	for n := 0; n <= 300; n++ {
		storedLens = append(storedLens, n)
	}
	storedLens = append(storedLens, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 40000, 61440, 65533, 65534, 65535)
	for _, n := range storedLens {
		n := n
		c.CaseF("stored", func() string { return fmt.Sprint(n) }, func(t *T) {
			data := noise(n, uint64(n))
			for al := 0; al < 8; al++ {
				for vi, m := range mems {
					w := &bitw{}
					var pre []byte
					// 10 bits of an empty fixed block + al 9-bit literals
					for i := 0; i < al; i++ {
						pre = append(pre, byte(200+i))
					}
					w.fixed(false, lits(pre))
					w.stored(false, data)
					w.stored(true, data)
					p03one(t, fmt.Sprintf("stored %d align %d", n, al), w.p, concat(pre, data, data), rOpt{K: kinds4[(al+vi)%4], Mem: m, W: 15})
				}
			}
			t.State("stored", n)
		})
	}

	// very many blocks: stored, fixed and dynamic, without or with a byte
	for kind := 0; kind < 3; kind++ {
		for per := 0; per < 2; per++ {
			for _, n := range []int{20, 70, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 5000, 10001, 32769, 65537} {
				kind, per, n := kind, per, n
				c.CaseF("blocks", func() string { return fmt.Sprintf("%d/%d/%d", kind, per, n) }, func(t *T) {
					for _, lead := range []int{0, 2, 512} {
						w := &bitw{}
						data := texty(lead, 6)
						if lead > 0 {
							w.stored(false, data)
						}
						block := func(final bool, p []byte) {
							switch kind {
							case 0:
								w.stored(final, p)
							case 1:
								w.fixed(final, lits(p))
							case 2:
								w.autoDyn(final, lits(p), false, true)
							}
							data = append(data, p...)
						}
						for i := 0; i < n; i++ {
							block(false, []byte{byte(i)}[:per])
						}
						if lead > 0 {
							w.fixed(false, append(lits([]byte("c")), mt(3, 1)))
							data = append(data, "cccc"...)
						}
						for i := 0; i < n; i++ {
							block(i == n-1, []byte{byte(i >> 3)}[:per])
						}
						for ki, k := range kinds4 {
							p03one(t, fmt.Sprintf("%d bytes, %d blocks of kind %d with %d bytes", lead, n, kind, per), w.p, data, rOpt{K: k, Mem: mems[(ki+n)%len(mems)], W: 15})
						}
						t.State("blocks", kind, per, n, lead)
					}
				})
			}
		}
	}

	// (e) all complete codes
	litSyms := [][]int{{97, 98, 99, 100, 101, 256}, {0, 1, 143, 144, 255, 256}}
	for k := 2; k <= c.Pick(6, 7); k++ {
		completeCodes(k, k-1, func(lens0 []byte) {
			lens := append([]byte(nil), lens0...)
			c.CaseF("codeLL", func() string { return fmt.Sprint(lens) }, func(t *T) {
				for vi, set := range litSyms {
					syms := append([]int(nil), set...)
					if len(syms) < k {
						syms = append([]int{50}, syms...)
					}
					syms = syms[len(syms)-k:]
					ll := make([]byte, 257)
					for i, s := range syms {
						ll[s] = lens[i]
					}
					var toks []tk
					var data []byte
					n := k - 1
					for x := 0; x < n*n*n; x++ {
						data = append(data, byte(syms[x%n]), byte(syms[x/n%n]), byte(syms[x/n/n%n]))
					}
					toks = lits(data)
					w := &bitw{}
					w.dynamic(true, mkDyn(ll, []byte{0}, vi == 0), toks)
					p03one(t, "code", w.p, data, rOpt{K: kinds4[vi], Mem: 1, W: 15})
				}
				t.State("codeLL", lens)
			})
			c.CaseF("codeD", func() string { return fmt.Sprint(lens) }, func(t *T) {
				sets := [][]int{{0, 1, 2, 3, 4, 5, 6}, {0, 1, 8, 13, 17, 21, 24}}
				for vi, set := range sets {
					syms := set[:k]
					d := make([]byte, 30)
					for i, s := range syms {
						d[s] = lens[i]
					}
					pre := noise(8000, 5)
					var toks []tk
					for i := 0; i < 40; i++ {
						s := syms[(i*i+i/3)%k]
						x := (i * 37) & (1<<uint(dstExtra[s]) - 1)
						toks = append(toks, mt(3+i%200, dstBase[s]+x), lit(byte(i)))
					}
					ls, _ := symsOf(toks)
					w := &bitw{}
					w.stored(false, pre)
					w.dynamic(true, mkDyn(balanced(286, ls, 0), trimTo(d, 1), vi == 0), toks)
					p03one(t, "codeD", w.p, applyToks(append([]byte(nil), pre...), toks), rOpt{K: kinds4[vi], Mem: 1, W: 15})
				}
				t.State("codeD", lens)
			})
		})
	}
	// code length codes: all complete codes over the symbols needed
	for vi, set := range [][]int{{0, 1, 2, 3, 18}, {0, 2, 16, 17, 18}, {1, 2, 3, 17, 18}, {0, 1, 2, 16, 17, 18}} {
		k := len(set)
		set := set
		completeCodes(k, minInt(k-1, 7), func(lens0 []byte) {
			lens := append([]byte(nil), lens0...)
			c.CaseF("codeCL", func() string { return fmt.Sprint(vi, lens) }, func(t *T) {
				cl := make([]byte, 19)
				for i, s := range set {
					cl[s] = lens[i]
				}
				// LL code: 'a'=1 'b'=2 256=2 or four 2-bit symbols
				ll := make([]byte, 260)
				two := vi == 1 || vi == 3
				if two {
					ll['a'], ll['b'], ll['c'], ll[256] = 2, 2, 2, 2
				} else {
					ll['a'], ll['b'], ll[256] = 1, 2, 2
				}
				d := []byte{0}
				var seq []clsym
				switch vi {
				case 0:
					seq = append(seq, clsym{18, 97 - 11}, clsym{1, 0}, clsym{2, 0}, clsym{18, 138 - 11}, clsym{18, 256 - 99 - 138 - 11}, clsym{2, 0}, clsym{0, 0}, clsym{0, 0}, clsym{0, 0}, clsym{0, 0})
				case 1, 3:
					seq = append(seq, clsym{18, 97 - 11}, clsym{2, 0}, clsym{2, 0}, clsym{2, 0}, clsym{18, 138 - 11}, clsym{17, 0}, clsym{17, 5}, clsym{17, 7 - 3 - 3 + 2}, clsym{2, 0})
					// 100 + 138 + 3 + 8 + 6 = 255; one more zero
					seq = append(seq[:8], clsym{0, 0}, clsym{2, 0}, clsym{17, 0}, clsym{0, 0})
				case 2:
					seq = append(seq, clsym{18, 97 - 11}, clsym{1, 0}, clsym{2, 0}, clsym{18, 138 - 11}, clsym{17, 0}, clsym{17, 5}, clsym{17, 5}, clsym{2, 0}, clsym{17, 1})
				}
				// fix the filler so that counts agree
				seq, ok := fixSeq(seq, append(append([]byte(nil), ll...), d...))
				if !ok {
					t.Failf("harness: bad sequence for set %d", vi)
				}
				for nx := 19; nx >= 4; nx-- {
					if nx < 19 && cl[clOrder[nx]] != 0 {
						break
					}
					w := &bitw{}
					data := []byte("abbaab")
					w.dynamic(true, &dynHeader{ll: ll, d: d, seq: seq, cl: cl, nx: nx, rawHL: -1, rawHD: -1}, lits(data))
					p03one(t, fmt.Sprintf("codeCL nx=%d", nx), w.p, data, rOpt{K: kRaw, Mem: 1, W: 15})
				}
				t.State("codeCL", vi, lens)
			})
		})
	}
	// deep codes
	for rot := 0; rot < 40; rot++ {
		for _, max := range []int{7, 9, 12, 13, 14, 15} {
			rot, max := rot, max
			c.CaseF("deep", func() string { return fmt.Sprintf("%d,%d", rot, max) }, func(t *T) {
				var syms []int
				for i := 0; i < 25; i++ {
					syms = append(syms, (rot*11+i*7)%256)
				}
				syms = append(syms, 256)
				r := (rot * 3) % len(syms)
				syms = append(append([]int(nil), syms[r:]...), syms[:r]...)
				ll := skewed(257, syms, max)
				var data []byte
				for i := 0; i < 300; i++ {
					s := syms[(i*i+i)%len(syms)]
					if s != 256 {
						data = append(data, byte(s))
					}
				}
				for _, s := range syms {
					if s != 256 {
						data = append(data, byte(s))
					}
				}
				w := &bitw{}
				w.dynamic(false, mkDyn(ll, []byte{0}, true), lits(data))
				// deep distance code too
				var dsy []int
				for i := 0; i < 24; i++ {
					dsy = append(dsy, (i+rot)%24)
				}
				d := skewed(24, dsy, max)
				var toks []tk
				pre := append([]byte(nil), data...)
				pre = append(pre, noise(6000, 9)...)
				w.stored(false, pre[len(data):])
				for i := 0; i < 24; i++ {
					toks = append(toks, mt(3+i*9, dstBase[i]), lit(byte(i)), mt(4, dstBase[i]+1<<uint(dstExtra[i])-1))
				}
				ls, _ := symsOf(toks)
				w.dynamic(true, mkDyn(skewed(286, ls, max+1-max/15), d, rot%2 == 0), toks)
				p03one(t, "deep", w.p, applyToks(pre, toks), rOpt{K: kinds4[rot%4], Mem: 1, W: 15})
				t.State("deep", rot, max)
			})
		}
	}

	// (f) repeat codes
	for g := 0; g <= 256; g++ {
		g := g
		c.CaseF("zrun", func() string { return fmt.Sprint(g) }, func(t *T) {
			// zero run of g lengths, encoded every way
			ll := make([]byte, 257)
			if g > 254 {
				// zero run before the first literal only
				ll[minInt(g, 255)], ll[256] = 1, 1
			} else {
				ll[0], ll[g+1] = 1, 2
				ll[256] = 2
			}
			var data []byte
			for s := 0; s < 256; s++ {
				if ll[s] != 0 {
					data = append(data, byte(s), byte(s))
				}
			}
			all := append(append([]byte(nil), ll...), 0)
			for way := 0; way < 4; way++ {
				h := mkDyn(ll, []byte{0}, true)
				h.seq = zrunSeq(all, way)
				h.cl = clFor(h.seq)
				h.nx = 19
				w := &bitw{}
				w.dynamic(true, h, lits(data))
				p03one(t, fmt.Sprintf("zero run %d way %d", g, way), w.p, data, rOpt{K: kinds4[way], Mem: 1, W: 15})
			}
			t.State("zrun", g)
		})
	}
	for run := 1; run <= 64; run++ {
		run := run
		c.CaseF("nrun", func() string { return fmt.Sprint(run) }, func(t *T) {
			// run symbols with equal length, found by balanced()
			for off := 0; off < 4; off++ {
				var syms []int
				for i := 0; i < run; i++ {
					syms = append(syms, 30+off+i)
				}
				syms = append(syms, 256)
				ll := balanced(257, syms, off)
				var data []byte
				for _, s := range syms[:run] {
					data = append(data, byte(s))
				}
				for way := 0; way < 3; way++ {
					h := mkDyn(ll, []byte{0}, true)
					h.seq = nrunSeq(append(append([]byte(nil), ll...), 0), way)
					h.cl = clFor(h.seq)
					h.nx = 19
					w := &bitw{}
					w.dynamic(true, h, lits(data))
					p03one(t, fmt.Sprintf("run %d off %d way %d", run, off, way), w.p, data, rOpt{K: kRaw, Mem: 1, W: 15})
				}
			}
			t.State("nrun", run)
		})
	}
	// every sequence of up to 4 (5 thorough) code length symbols, legal ones
	// that no encoder uses included: repeating zeros by 16, a repeat in two
	// parts, zeros one by one; in the literal and in the distance lengths
	{
		type op struct {
			s, extra, n int
			self        bool // the length is that of the one before
			nz          bool // the length is not zero
		}
		ops := []op{{s: 0, n: 1}, {s: -1, n: 1, nz: true}, {s: 16, extra: 0, n: 3, self: true}, {s: 16, extra: 3, n: 6, self: true},
			{s: 17, extra: 0, n: 3}, {s: 17, extra: 7, n: 10}, {s: 18, extra: 0, n: 11}, {s: 18, extra: 60, n: 71}}
		// expand turns ops into lengths, nz being the length that is not zero
		expand := func(sel []int, nz byte, last byte) (lens []byte, seq []clsym, ok bool) {
			for i, k := range sel {
				o := ops[k]
				v := byte(0)
				switch {
				case o.self && i == 0 && last == 255:
					return nil, nil, false
				case o.self:
					v = last
				case o.nz:
					v = nz
				}
				sym := o.s
				if sym < 0 {
					sym = int(nz)
				}
				seq = append(seq, clsym{sym, o.extra})
				lens = append(lens, bytes.Repeat([]byte{v}, o.n)...)
				last = v
			}
			return lens, seq, true
		}
		// fill returns lengths which complete a code holding n of length nz
		fill := func(n int, nz byte) (out []byte) {
			for b := 0; b <= int(nz); b++ {
				if (1<<nz-n)>>uint(b)&1 != 0 {
					out = append(out, nz-byte(b))
				}
			}
			return
		}
		count := func(p []byte) (n int) {
			for _, x := range p {
				if x != 0 {
					n++
				}
			}
			return
		}
		finish := func(h *dynHeader, seq []clsym) {
			h.seq = seq
			h.cl = clFor(seq)
			h.nx = 19
		}
		var rec func(sel []int)
		depth := c.Pick(4, 5)
		rec = func(sel0 []int) {
			sel := append([]int(nil), sel0...)
			if len(sel) > 0 {
				c.CaseF("repeats", func() string { return fmt.Sprint(sel) }, func(t *T) {
					// literals
					const nz = 9
					pre, seq, ok := expand(sel, nz, 255)
					f := fill(count(pre), nz)
					if ok && count(pre) < 1<<nz && len(pre)+len(f) <= 257 && len(f) > 0 && f[0] != 0 {
						ll := make([]byte, 257)
						copy(ll, pre)
						copy(ll[len(pre):], f[1:])
						ll[256] = f[0]
						var data []byte
						for s := 0; s < 256; s++ {
							if ll[s] != 0 {
								data = append(data, byte(s), byte(s))
							}
						}
						h := mkDyn(ll, []byte{0}, true)
						finish(h, append(seq, clGreedy(append(append([]byte(nil), ll[len(pre):]...), 0))...))
						if len(f) > 1 || count(pre) > 0 {
							w := &bitw{}
							w.dynamic(true, h, lits(data))
							p03one(t, fmt.Sprintf("literal lengths by %v", h.seq), w.p, data, rOpt{K: kinds4[len(sel)%4], Mem: 1, W: 15})
							t.State("repeats", sel)
						}
					}
					// distances, after a length which is and one which is not zero
					for tail := 0; tail < 2; tail++ {
						const nzd = 6
						llc := make([]byte, 286)
						llc['a'], llc[257], llc[285] = 1, 2, 3
						llc['b'], llc['c'], llc[256] = 4, 5, 6
						lcopy := llc
						if tail == 0 {
							// the last length is that of a symbol
							llc['d'], llc[285] = 3, 6
						} else {
							lcopy = append(append([]byte(nil), llc[:284]...), 0)
							lcopy['d'], lcopy['e'], lcopy[256] = 3, 6, 6
						}
						last := lcopy[len(lcopy)-1]
						dp, dseq, ok := expand(sel, nzd, last)
						df := fill(count(dp), nzd)
						if !ok || count(dp) > 1<<nzd || len(dp)+len(df) > 30 || len(dp) == 0 {
							continue
						}
						for _, x := range df {
							if x == 0 {
								df = nil // a single code of no bits is none
							}
						}
						d := append(append([]byte(nil), dp...), df...)
						if count(d) < 2 {
							continue
						}
						h := mkDyn(lcopy, d, true)
						finish(h, append(append(clGreedy(lcopy), dseq...), clGreedy(df)...))
						w := &bitw{}
						far := 40
						for s := range d {
							if d[s] != 0 {
								far = dstBase[s]
							}
						}
						win := noise(far, 5)
						for p := win; len(p) > 0; {
							n := minInt(len(p), 65535)
							w.stored(false, p[:n])
							p = p[n:]
						}
						toks := lits([]byte("aab"))
						for s := range d {
							if d[s] != 0 {
								toks = append(toks, mt(3, dstBase[s]), lit('a'))
							}
						}
						w.dynamic(true, h, toks)
						p03one(t, fmt.Sprintf("distance lengths by %v", h.seq), w.p, applyToks(append([]byte(nil), win...), toks), rOpt{K: kRaw, Mem: 2, W: 15})
						t.State("repeatsD", tail, sel)
					}
				})
			}
			if len(sel) == depth {
				return
			}
			for k := range ops {
				rec(append(sel, k))
			}
		}
		rec(nil)
	}
	// runs crossing from literal/length to distance lengths
	for a := 0; a <= 10; a++ {
		for b := 0; b <= 10; b++ {
			a, b := a, b
			c.CaseF("cross", func() string { return fmt.Sprintf("%d,%d", a, b) }, func(t *T) {
				// zero run: a zeros at the end of LL, b zeros at the start of D
				ll := make([]byte, 263+a)
				ll['x'], ll['y'], ll[256], ll[262] = 2, 2, 2, 2
				d := make([]byte, b+2)
				d[b], d[b+1] = 1, 1
				pre := []byte("xyxxyyxyxyyyxxyxyxyxyxyxyxyxyxxyxyxyyyyxxxxyxyxyxyxyxxyxxyxyxyyyyxyxyxyx")
				toks := lits(pre)
				if dstBase[b] <= len(pre) {
					toks = append(toks, mt(8, dstBase[b]))
				}
				w := &bitw{}
				w.dynamic(true, mkDyn(ll, d, true), toks)
				p03one(t, "cross zero", w.p, applyToks(nil, toks), rOpt{K: kRaw, Mem: 1, W: 15})
				// nonzero run: length 4 on both sides
				nll := 257 + a
				if a == 0 {
					nll = 257
				}
				ll = make([]byte, nll)
				syms := 15 - a
				for i := 0; i < syms; i++ {
					ll['a'+i] = 4
				}
				for i := 0; i < a; i++ {
					ll[257+i] = 4
				}
				ll[256] = 4
				d = make([]byte, 16)
				for i := range d {
					d[i] = 4
				}
				toks = lits([]byte("abc"))
				for i := 0; i < syms; i++ {
					toks = append(toks, lit('a'+byte(i)))
				}
				for i := 0; i < a && i < 8; i++ {
					toks = append(toks, mt(3+i, 1+i%3))
				}
				w = &bitw{}
				w.dynamic(true, mkDyn(ll, d, true), toks)
				p03one(t, "cross nonzero", w.p, applyToks(nil, toks), rOpt{K: kGzip, Mem: 1, W: 15})
				t.State("cross", a, b)
			})
		}
	}

	// (g) every HLIT x HDIST
	for nll := 257; nll <= 286; nll++ {
		nll := nll
		c.CaseF("counts", func() string { return fmt.Sprint(nll) }, func(t *T) {
			for nd := 1; nd <= 30; nd++ {
				ll := make([]byte, nll)
				ll['p'], ll['q'], ll[256] = 2, 2, 2
				if nll == 257 {
					ll['r'] = 2
				} else {
					ll[nll-1] = 2
				}
				d := make([]byte, nd)
				d[nd-1] = 1
				if nd > 1 {
					d[0] = 1
				}
				pre := noiseK(24600, 2, 4)
				for i := range pre {
					pre[i] += 'p'
				}
				w := &bitw{}
				w.stored(false, pre)
				toks := lits([]byte("pq"))
				if nll > 257 {
					toks = append(toks, mt(lenBase[nll-258], dstBase[nd-1]))
				}
				toks = append(toks, lit('q'))
				w.dynamic(true, mkDyn(ll, d, nd%2 == 0), toks)
				p03one(t, fmt.Sprintf("HLIT %d HDIST %d", nll, nd), w.p, applyToks(append([]byte(nil), pre...), toks), rOpt{K: kinds4[nd%4], Mem: 9, W: 15})
			}
			t.State("counts", nll)
		})
	}
	// one-symbol distance codes
	for s := 0; s < 30; s++ {
		s := s
		c.CaseF("oneD", func() string { return fmt.Sprint(s) }, func(t *T) {
			pre := noise(32768, 8)
			d := make([]byte, s+1)
			d[s] = 1
			toks := []tk{mt(3, dstBase[s]), lit(1), mt(258, dstBase[s]+1<<uint(dstExtra[s])-1), mt(77, dstBase[s])}
			ls, _ := symsOf(toks)
			w := &bitw{}
			w.stored(false, pre)
			w.dynamic(true, mkDyn(trimTo(balanced(286, ls, 0), 257), d, true), toks)
			p03one(t, "oneD", w.p, applyToks(append([]byte(nil), pre...), toks), rOpt{K: kRaw, Mem: 9, W: 15})
			t.State("oneD", s)
		})
	}

	// (h) block sequences
	depth := c.Pick(4, 5)
	const nb = 7
	total := 1
	for i := 0; i < depth; i++ {
		total *= nb
	}
	for L := 1; L <= depth; L++ {
		n := 1
		for i := 0; i < L; i++ {
			n *= nb
		}
		L := L
		for x := 0; x < n; x += 49 {
			x := x
			c.CaseF("blocks", func() string { return fmt.Sprintf("L%d,%d..", L, x) }, func(t *T) {
				for y := x; y < x+49 && y < n; y++ {
					w := &bitw{}
					var win []byte
					v := y
					for i := 0; i < L; i++ {
						win = appendBlock(w, win, v%nb, i, i == L-1)
						v /= nb
					}
					p03one(t, fmt.Sprintf("blocks L%d #%d", L, y), w.p, win, rOpt{K: kinds4[y%4], Mem: 1 + 8*(y/4%2), W: 15})
					t.StateHash(mix(uint64(L)<<32 | uint64(y)))
				}
			})
		}
	}
	// one block sequence in the byte-exact smallest containers, all formats
	for _, k := range kinds4 {
		for _, m := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} {
			for wb := 8; wb <= 15; wb++ {
				k, m, wb := k, m, wb
				c.CaseF("opts", func() string { return fmt.Sprintf("%v,m%d,w%d", k, m, wb) }, func(t *T) {
					w := &bitw{}
					var win []byte
					for i := 0; i < 9; i++ {
						win = appendBlock(w, win, i%nb, i, i == 8)
					}
					o := rOpt{K: k, Mem: m, W: wb}
					p03one(t, "opts", w.p, win, o)
					big := texty(70000, 5)
					var toks []tk
					for i, b := range big[:40000] {
						toks = append(toks, lit(b))
						if i%50 == 49 {
							toks = append(toks, mt(258, 1+(i*7)%minInt(1<<uint(wb), i)))
						}
					}
					w = &bitw{}
					w.autoDyn(true, toks, false, true)
					p03one(t, "opts big", w.p, applyToks(nil, toks), o)
					t.State("opts", k, m, wb)
				})
			}
		}
	}

	// (k) parametrised long token streams
	for a := 1; a <= c.Pick(12, 40); a++ {
		for b := 1; b <= c.Pick(4, 12); b++ {
			a, b := a, b
			c.CaseF("long", func() string { return fmt.Sprintf("%d,%d", a, b) }, func(t *T) {
				pre := noise(1000, uint64(a*100+b))
				toks := lits(pre)
				out := len(pre)
				x, y := 0, 0
				for out < 150000 {
					x = (x + a*17 + 1) % 256
					y = (y + b*2731 + a) % 32768
					d := 1 + y%minInt(out, 32768)
					toks = append(toks, mt(3+x, d))
					out += 3 + x
					if x%5 == 0 {
						toks = append(toks, lit(byte(x)))
						out++
					}
				}
				w := &bitw{}
				w.fixed(true, toks)
				p03one(t, "long", w.p, applyToks(nil, toks), rOpt{K: kinds4[(a+b)%4], Mem: mems[(a+b)%len(mems)], W: 15})
				t.State("long", a, b)
			})
		}
	}

	// Headers of any length
	for _, n := range []int{0, 1, 255, 256, 4095, 4096, 32768, 65535, 65536, 65537, 131072, 1 << 20, 1<<21 + 1} {
		n := n
		c.CaseF("header", func() string { return fmt.Sprint(n) }, func(t *T) {
			s := bytes.Repeat([]byte("q"), n)
			data := texty(3000, uint64(n))
			w := &bitw{}
			w.autoDyn(true, lits(data), true, true)
			for k, h := range []gzHead{{name: s}, {com: s}, {name: s, com: s, hcrc: true}, {extra: validExtra(minInt(n, 65535)), hcrc: n%2 == 0}} {
				for _, o := range []rOpt{{K: kGzip, Mem: 1 + n%9, W: 15}, {K: kAuto, Mem: 1, W: 15}} {
					in := wrapGzip(w.p, data, h)
					got, err := decodeAll(t, in, o)
					expect(t, fmt.Sprintf("field %d of %d bytes", k, n), got, err, data, endEOF)
					got, err = decodeAll(t, concat(in, in), o)
					expect(t, fmt.Sprintf("field %d of %d bytes, twice", k, n), got, err, concat(data, data), endEOF)
				}
			}
			t.State("header", n)
		})
	}

	// (l) other encoders, and cross-check of the reference with the standard library
	corp := [][]byte{nil, []byte("a"), texty(100, 1), texty(5000, 2), noise(3000, 3), zeros(100000), texty(200000, 4), lucas(18, 0), noise(70000, 7)}
	for ci := range corp {
		for lvl := -2; lvl <= 9; lvl++ {
			ci, lvl := ci, lvl
			c.CaseF("std", func() string { return fmt.Sprintf("%d,l%d", ci, lvl) }, func(t *T) {
				data := corp[ci]
				var b1, b2, b3 bytes.Buffer
				fw, err := stdflate.NewWriter(&b1, lvl)
				must(err)
				zw, err := stdzlib.NewWriterLevel(&b2, lvl)
				must(err)
				gw, err := stdgzip.NewWriterLevel(&b3, lvl)
				must(err)
				_, _ = fw.Write(data)
				_, _ = zw.Write(data)
				_, _ = gw.Write(data)
				must(fw.Close())
				must(zw.Close())
				must(gw.Close())
				for i, s := range [][]byte{b1.Bytes(), b2.Bytes(), b3.Bytes()} {
					f := refDecode(s, allKinds[i], nil, 15)
					if f.Err != refOK || !bytes.Equal(f.Out, data) {
						t.Failf("harness: reference decoder rejects the standard library's output: %v %s", f.Err, f.Msg)
					}
					for _, m := range []int{1, 9} {
						got, err := decodeAll(t, s, rOpt{K: allKinds[i], Mem: m, W: 15})
						expect(t, "std "+allKinds[i].String(), got, err, data, endEOF)
						if i > 0 {
							got, err := decodeAll(t, s, rOpt{K: kAuto, Mem: m, W: 15})
							expect(t, "std auto "+allKinds[i].String(), got, err, data, endEOF)
						}
					}
				}
				t.State("std", ci, lvl)
			})
		}
	}

	// every zlib header (level bits x window) and gzip flag combination
	for cinfo := 0; cinfo < 8; cinfo++ {
		for lvl := 0; lvl < 4; lvl++ {
			cinfo, lvl := cinfo, lvl
			c.CaseF("zhead", func() string { return fmt.Sprintf("%d,%d", cinfo, lvl) }, func(t *T) {
				data := texty(200, 3)
				w := &bitw{}
				w.fixed(true, lits(data))
				for wb := cinfo + 8; wb <= 15; wb++ {
					for _, dict := range [][]byte{nil, []byte("d"), zeros(5), noise(40000, 2)} {
						in := append(zlibHeader(cinfo+8, lvl, dict), w.p...)
						a := refAdler(data)
						in = append(in, byte(a>>24), byte(a>>16), byte(a>>8), byte(a))
						got, err := decodeAll(t, in, rOpt{K: kZlib, Mem: 1, W: wb, Dict: dict})
						expect(t, "zlib header", got, err, data, endEOF)
						got, err = decodeAll(t, in, rOpt{K: kAuto, Mem: 1, W: wb, Dict: dict})
						expect(t, "zlib header, auto", got, err, data, endEOF)
					}
				}
				t.State("zhead", cinfo, lvl)
			})
		}
	}
	for x := 0; x < 32; x++ {
		x := x
		c.CaseF("ghead", func() string { return fmt.Sprint(x) }, func(t *T) {
			data := texty(300, 3)
			w := &bitw{}
			w.fixed(true, lits(data))
			for _, n := range []int{0, 1, 2, 100, 127, 128, 129, 255, 256, 1000, 40000, 65535} {
				h := gzHead{os: byte(x), xfl: byte(x * 3), mtime: uint32(x * 0x01010101)}
				if x&1 != 0 {
					h.flg = 1
				}
				h.hcrc = x&2 != 0
				if x&4 != 0 {
					h.extra = validExtra(n)
				}
				if x&8 != 0 {
					h.name = bytes.Repeat([]byte{'n'}, n)
				}
				if x&16 != 0 {
					h.com = bytes.Repeat([]byte{0xe9}, n)
				}
				in := wrapGzip(w.p, data, h)
				for _, m := range []int{1, 9} {
					got, err := decodeAll(t, in, rOpt{K: []fmtKind{kGzip, kAuto}[n%2], Mem: m, W: 15})
					expect(t, fmt.Sprintf("gzip flags %#x n=%d", x, n), got, err, data, endEOF)
				}
			}
			t.State("ghead", x)
		})
	}
	_ = flate.MaxWindowBits
}

// validExtra returns n bytes (n may be raised to 4) of well-formed records.
func validExtra(n int) []byte {
	if n < 4 {
		if n == 0 {
			return []byte{}
		}
		n = 4
	}
	out := []byte{'A', 'B', byte(n - 4), byte((n - 4) >> 8)}
	for len(out) < n {
		out = append(out, byte(len(out)))
	}
	return out
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// appendBlock writes one of seven kinds of block and returns the new output.
func appendBlock(w *bitw, win []byte, kind, i int, final bool) []byte {
	var toks []tk
	switch kind {
	case 0:
		w.stored(final, nil)
		return win
	case 1:
		p := noise(5+i*3, uint64(i))
		w.stored(final, p)
		return append(win, p...)
	case 2:
		w.fixed(final, nil)
		return win
	case 3:
		toks = append(lits([]byte("fixed\xf0\xff")), mt(5, 3), lit(byte(i)))
		w.fixed(final, toks)
	case 4:
		toks = lits([]byte("dynamic literals"))
		w.autoDyn(final, toks, false, true)
	case 5:
		toks = append(lits([]byte("mat")), mt(3, 1), mt(100, 2), mt(3, 3), mt(258, 3))
		if len(win) > 20 {
			toks = append(toks, mt(20, 20+len(win)), lit(9))
		}
		w.autoDyn(final, toks, true, i%2 == 0)
	case 6:
		w.autoDyn(final, nil, false, false)
		return win
	}
	return applyToks(win, toks)
}

// clFor returns a balanced code length code for the symbols used in seq.
func clFor(seq []clsym) []byte {
	used := map[int]bool{}
	for _, s := range seq {
		used[s.s] = true
	}
	for s := 0; len(used) < 2; s++ {
		used[s] = true
	}
	var syms []int
	for s := 0; s < 19; s++ {
		if used[s] {
			syms = append(syms, s)
		}
	}
	return balanced(19, syms, 0)
}

// zrunSeq encodes zero runs in one of four ways.
func zrunSeq(all []byte, way int) []clsym {
	var out []clsym
	for i := 0; i < len(all); {
		if all[i] != 0 {
			out = append(out, clsym{int(all[i]), 0})
			i++
			continue
		}
		j := i
		for j < len(all) && all[j] == 0 {
			j++
		}
		run := j - i
		i = j
		for run > 0 {
			n := 0
			switch way {
			case 0: // longest first
				n = minInt(run, 138)
			case 1: // only short repeats
				n = minInt(run, 10)
			case 2: // smallest long repeats
				n = minInt(run, 11)
			case 3: // leave a full 138 for the end
				n = run % 138
				if n == 0 {
					n = minInt(run, 138)
				}
			}
			switch {
			case n >= 11:
				out = append(out, clsym{18, n - 11})
			case n >= 3:
				out = append(out, clsym{17, n - 3})
			default:
				n = 1
				out = append(out, clsym{0, 0})
			}
			run -= n
		}
	}
	return out
}

// nrunSeq encodes nonzero runs in one of three ways.
func nrunSeq(all []byte, way int) []clsym {
	var out []clsym
	for i := 0; i < len(all); {
		j := i
		for j < len(all) && all[j] == all[i] {
			j++
		}
		run := j - i
		if all[i] == 0 {
			for run > 0 {
				n := minInt(run, 138)
				switch {
				case n >= 11:
					out = append(out, clsym{18, n - 11})
				case n >= 3:
					out = append(out, clsym{17, n - 3})
				default:
					n = 1
					out = append(out, clsym{0, 0})
				}
				run -= n
			}
			i = j
			continue
		}
		out = append(out, clsym{int(all[i]), 0})
		run--
		for run > 0 {
			n := minInt(run, []int{6, 3, 5}[way])
			if n < 3 {
				out = append(out, clsym{int(all[i]), 0})
				run--
				continue
			}
			out = append(out, clsym{16, n - 3})
			run -= n
		}
		i = j
	}
	return out
}

// fixSeq checks that seq expands to all, adjusting only zero repeats that are
// too short or too long.
func fixSeq(seq []clsym, all []byte) ([]clsym, bool) {
	// Re-encode: keep to the symbols that occur in seq.
	used := map[int]bool{}
	for _, s := range seq {
		used[s.s] = true
	}
	var out []clsym
	for i := 0; i < len(all); {
		if all[i] != 0 {
			if !used[int(all[i])] {
				return nil, false
			}
			if used[16] && i > 0 {
				j := i
				for j < len(all) && all[j] == all[i-1] {
					j++
				}
				if j-i >= 3 {
					n := minInt(j-i, 6)
					out = append(out, clsym{16, n - 3})
					i += n
					continue
				}
			}
			out = append(out, clsym{int(all[i]), 0})
			i++
			continue
		}
		j := i
		for j < len(all) && all[j] == 0 {
			j++
		}
		run := j - i
		i = j
		for run > 0 {
			n := 0
			switch {
			case used[18] && run >= 11 && (used[0] || run-minInt(run, 138) == 0 || run-minInt(run, 138) >= 3):
				n = minInt(run, 138)
				out = append(out, clsym{18, n - 11})
			case used[18] && run >= 14 && used[17]:
				n = 11
				out = append(out, clsym{18, 0})
			case used[17] && run >= 3 && (used[0] || run <= 10):
				n = minInt(run, 10)
				out = append(out, clsym{17, n - 3})
			case used[17] && run >= 6:
				n = 3
				out = append(out, clsym{17, 0})
			case used[0]:
				n = 1
				out = append(out, clsym{0, 0})
			default:
				return nil, false
			}
			run -= n
		}
	}
	return out, true
}
