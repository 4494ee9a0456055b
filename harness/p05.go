package main

import (
	"bytes"
	"fmt"
	"math/bits"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P05", Run: runP05,
		Bounds: "every sequence of up to 4 members of 4 contents (zlib, gzip, mixed), every field of every trailer damaged in up to 8 ways; every prefix of a corpus of valid files (raw/zlib/gzip, all block types, 1-3 members, with dictionaries and optional header fields, hand-assembled and Writer-made); every single bit flip of header and trailer; all 65536 zlib CMF/FLG pairs; all 65536 gzip header CRC values and every single-byte replacement of trailers; every trailer, header CRC and dictionary id field replaced by 80 degenerate and related values (zero, ones, reversed, shifted, off by each power of two, other fields); memory levels 1 and 9; with and without format auto-detection; 26 contents whose checksum is a special value; wrong trailers after more than 4 GiB of data",
	})
}

type vfile struct {
	name string
	in   []byte
	o    rOpt
}

// validFiles builds a corpus of valid files of moderate size.
func validFiles(t *T, big bool) []vfile {
	var out []vfile
	content := func() ([]byte, []tk) {
		toks := append(lits([]byte("The quick brown fox ")), mt(20, 20), mt(3, 1), lit('~'), mt(258, 23), lit(0xff))
		return applyToks(nil, toks), toks
	}
	data, toks := content()
	bodies := map[string][]byte{}
	w := &bitw{}
	bodies["fixed"] = w.fixed(true, toks).p
	w = &bitw{}
	w.autoDyn(true, toks, false, true)
	bodies["dyn"] = w.p
	w = &bitw{}
	w.autoDyn(true, toks, true, false)
	bodies["dynskew"] = w.p
	w = &bitw{}
	bodies["stored"] = w.stored(false, data[:7]).stored(false, nil).stored(true, data[7:]).p
	w = &bitw{}
	half := toks[:10]
	w.fixed(false, half).stored(false, nil)
	w.autoDyn(false, toks[10:], false, false)
	w.stored(true, nil)
	bodies["mix"] = w.p
	w = &bitw{}
	bodies["empty"] = w.fixed(true, nil).p
	w = &bitw{}
	bodies["emptystored"] = w.stored(true, nil).p
	dict := noise(300, 4)
	for _, name := range []string{"fixed", "dyn", "dynskew", "stored", "mix", "empty", "emptystored"} {
		d := data
		if name == "empty" || name == "emptystored" {
			d = nil
		}
		b := bodies[name]
		out = append(out,
			vfile{name + "-raw", append([]byte(nil), b...), rOpt{K: kRaw}},
			vfile{name + "-zlib", wrapZlib(b, d, 15, nil), rOpt{K: kZlib}},
			vfile{name + "-zlibdict", wrapZlib(b, d, 15, dict), rOpt{K: kZlib, Dict: dict}},
			vfile{name + "-gzip", wrapGzip(b, d, gzHead{os: 3}), rOpt{K: kGzip}},
			vfile{name + "-gzipfull", wrapGzip(b, d, gzHead{os: 3, mtime: 77, extra: validExtra(9), name: []byte("name.txt"), com: []byte("a comment"), hcrc: true}), rOpt{K: kGzip}},
			vfile{name + "-gzipname", wrapGzip(b, d, gzHead{name: []byte("n"), xfl: 4}), rOpt{K: kGzip}},
			vfile{name + "-gziplong", wrapGzip(b, d, gzHead{os: 3, extra: validExtra(300), name: texty(200, 5), com: texty(310, 6), hcrc: true}), rOpt{K: kGzip}},
			vfile{name + "-gziphcrc", wrapGzip(b, d, gzHead{hcrc: true}), rOpt{K: kGzip}},
			vfile{name + "-gzipextra0", wrapGzip(b, d, gzHead{extra: []byte{}, com: []byte{}}), rOpt{K: kGzip}},
		)
	}
	// members
	for _, k := range allKinds {
		m := concat(wrap(k, bodies["stored"], data, nil), wrap(k, bodies["emptystored"], nil, nil), wrap(k, bodies["dyn"], data, nil))
		out = append(out, vfile{fmt.Sprintf("members-%v", k), m, rOpt{K: k}})
	}
	if big {
		// Writer output over several buffers
		for i, k := range allKinds {
			for si, s := range allStrats {
				var data []byte
				switch si {
				case 0, 3:
					data = texty(1500+i, 3)
				case 1:
					data = noise(700, 3)
				case 2:
					data = concat(zeros(500), noise(200, 1), zeros(300))
				}
				wo := wOpt{K: k, Strat: s, Lvl: 6, Mem: 1, W: 15}
				out = append(out, vfile{fmt.Sprintf("writer-%v-%s", k, stratNames[s]), encode(t, wo, data), rOpt{K: k}})
			}
		}
	}
	return out
}

func runP05(c *C) {
	hugeCases(c)
	var files []vfile
	{
		t := &T{c: c}
		if f := t.run(func(t *T) { files = validFiles(t, true) }); f != "" {
			c.Case("corpus", "corpus", func(t *T) { t.Failf("%s", f) })
			return
		}
	}
	// contents whose checksum is a special value
	for _, name := range []string{"crc32", "adler32"} {
		for _, v := range specialSums[name] {
			if name == "adler32" && v>>16 >= 65521 {
				continue
			}
			p := reachSum(name, v, 560)
			k := kGzip
			if name == "adler32" {
				k = kZlib
			}
			w := &bitw{}
			w.fixed(true, lits(p))
			files = append(files, vfile{fmt.Sprintf("sum-%s-%08x", name, v), wrap(k, w.p, p, nil), rOpt{K: k}})
		}
	}
	// (a) every prefix
	for _, f := range files {
		for s := 0; s <= len(f.in); s += 64 {
			f, s := f, s
			c.CaseF("prefix", func() string { return fmt.Sprintf("%s/%d", f.name, s) }, func(t *T) {
				full := refDecode(f.in, f.o.K, f.o.Dict, f.o.wbits())
				if full.Err != refOK {
					t.Failf("corpus file %s is not valid: %v %s", f.name, full.Err, full.Msg)
				}
				for n := s; n < s+64 && n <= len(f.in); n++ {
					for _, m := range []int{1, 9} {
						o := f.o
						o.Mem = m
						for auto := 0; auto < 2; auto++ {
							if auto == 1 {
								if o.K == kRaw || o.Dict != nil || n < 2 {
									continue
								}
								o.K = kAuto
							}
							t.Note("%s prefix %d mem %d auto %d", f.name, n, m, auto)
							r := agreePrefix(t, fmt.Sprintf("%s cut to %d of %d bytes", f.name, n, len(f.in)), f.in[:n:n], o)
							if !bytes.HasPrefix(full.Out, r.Out) {
								t.Failf("harness: prefix")
							}
							t.State(f.name, n, r.Err, len(r.Out))
						}
					}
				}
			})
		}
	}
	// (b) bit flips in header and trailer
	for _, f := range files {
		f := f
		c.CaseF("flip", func() string { return f.name }, func(t *T) {
			full := refDecode(f.in, f.o.K, f.o.Dict, f.o.wbits())
			flip := func(i int) {
				for b := 0; b < 8; b++ {
					in := append([]byte(nil), f.in...)
					in[i] ^= 1 << uint(b)
					t.Note("%s byte %d bit %d", f.name, i, b)
					for _, m := range []int{1, 9} {
						o := f.o
						o.Mem = m
						r := agreeRef(t, fmt.Sprintf("%s byte %d bit %d", f.name, i, b), in, o)
						t.State(f.name, i, b, r.Err, r.Msg)
					}
				}
			}
			for _, m := range full.Members {
				for i := m.Start; i < m.Body; i++ {
					flip(i)
				}
				for i := m.Foot; i < m.End; i++ {
					flip(i)
				}
			}
		})
	}
	// (c) every value of every trailer byte, and swapped/shifted trailers
	for _, f := range files {
		if f.o.K == kRaw {
			continue
		}
		f := f
		c.CaseF("trailer", func() string { return f.name }, func(t *T) {
			full := refDecode(f.in, f.o.K, f.o.Dict, f.o.wbits())
			for _, m := range full.Members {
				for i := m.Foot; i < m.End; i++ {
					for v := 0; v < 256; v++ {
						in := append([]byte(nil), f.in...)
						in[i] = byte(v)
						o := f.o
						o.Mem = 1
						agreeRef(t, fmt.Sprintf("%s trailer byte %d = %#x", f.name, i, v), in, o)
					}
				}
				// all zero, all one, wrong order, trailer of other data
				for k := 0; k < 5; k++ {
					in := append([]byte(nil), f.in...)
					tr := in[m.Foot:m.End]
					switch k {
					case 0:
						for i := range tr {
							tr[i] = 0
						}
					case 1:
						for i := range tr {
							tr[i] = 0xff
						}
					case 2:
						for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
							tr[i], tr[j] = tr[j], tr[i]
						}
					case 3:
						in = append(append(append([]byte(nil), f.in[:m.Foot]...), f.in[m.Foot+1:]...), 0)
					case 4:
						if len(tr) == 8 {
							tr[4]++
						} else {
							tr[3]++
						}
					}
					o := f.o
					o.Mem = 9
					agreeRef(t, fmt.Sprintf("%s trailer variant %d", f.name, k), in, o)
				}
			}
		})
	}
	// (c2) whole fields replaced by related and by degenerate values
	for _, f := range files {
		if f.o.K == kRaw {
			continue
		}
		f := f
		c.CaseF("fields", func() string { return f.name }, func(t *T) {
			full := refDecode(f.in, f.o.K, f.o.Dict, f.o.wbits())
			type field struct{ at, n int }
			var fs []field
			for _, m := range full.Members {
				for i := m.Foot; i+4 <= m.End; i += 4 {
					fs = append(fs, field{i, 4})
				}
				if f.o.K == kGzip && f.in[m.Start+3]&2 != 0 {
					fs = append(fs, field{m.Body - 2, 2})
				}
				if f.o.K == kZlib && f.in[m.Start+1]&0x20 != 0 {
					fs = append(fs, field{m.Start + 2, 4})
				}
			}
			get := func(fd field) uint32 {
				v := uint32(0)
				for i := 0; i < fd.n; i++ {
					v = v<<8 | uint32(f.in[fd.at+i])
				}
				return v
			}
			for _, fd := range fs {
				v := get(fd)
				vals := []uint32{0, 1, 0xffffffff, 0x80000000, ^v, bits.ReverseBytes32(v), bits.Reverse32(v), -v, v << 8, v >> 8, v << 16, v >> 16,
					bits.RotateLeft32(v, 8), bits.RotateLeft32(v, 16), v & 0xffff, v &^ 0xffff, v & 0xff, v &^ 0xff, v & 0xff000000, v & 0x00ffffff}
				for i := uint(0); i < 32; i++ {
					vals = append(vals, v+1<<i, v-1<<i)
				}
				for _, o := range fs {
					vals = append(vals, get(o), bits.ReverseBytes32(get(o)))
				}
				for _, x := range vals {
					in := append([]byte(nil), f.in...)
					for i := fd.n - 1; i >= 0; i-- {
						in[fd.at+i] = byte(x)
						x >>= 8
					}
					o := f.o
					o.Mem = 1 + 8*(fd.at%2)
					t.Note("%s field at %d = %x", f.name, fd.at, in[fd.at:fd.at+fd.n])
					r := agreeRef(t, t.note, in, o)
					t.State(f.name, fd.at, in[fd.at:fd.at+fd.n], r.Err)
				}
			}
		})
	}
	// (d) all CMF/FLG
	for cmf := 0; cmf < 256; cmf++ {
		cmf := cmf
		c.CaseF("cmfflg", func() string { return fmt.Sprint(cmf) }, func(t *T) {
			data := []byte("zlib header")
			w := &bitw{}
			w.fixed(true, lits(data))
			dict := []byte("zlib dictionary")
			for flg := 0; flg < 256; flg++ {
				for _, d := range [][]byte{nil, dict} {
					for v, wb := range []int{15, 8 + cmf%8} {
						in := []byte{byte(cmf), byte(flg)}
						if flg&0x20 != 0 {
							a := refAdler(dict)
							in = append(in, byte(a>>24), byte(a>>16), byte(a>>8), byte(a))
						}
						in = append(in, w.p...)
						a := refAdler(data)
						in = append(in, byte(a>>24), byte(a>>16), byte(a>>8), byte(a))
						o := rOpt{K: kZlib, Mem: 1 + 8*v, W: wb, Dict: d}
						t.Note("cmf %#x flg %#x", cmf, flg)
						r := agreeRef(t, fmt.Sprintf("zlib header %02x%02x", cmf, flg), in, o)
						t.State("cmf", cmf, flg, d == nil, v, r.Err)
					}
				}
			}
		})
	}
	// (e) header CRC values
	for hi := 0; hi < 256; hi++ {
		hi := hi
		c.CaseF("fhcrc", func() string { return fmt.Sprint(hi) }, func(t *T) {
			data := []byte("hcrc")
			w := &bitw{}
			w.fixed(true, lits(data))
			h := gzHead{name: []byte("hc"), hcrc: true}
			for lo := 0; lo < 256; lo++ {
				h.badHC = uint16(hi<<8 | lo)
				agreeRef(t, fmt.Sprintf("header CRC xor %#x", h.badHC), wrapGzip(w.p, data, h), rOpt{K: kGzip, Mem: 1, W: 10})
			}
			t.State("fhcrc", hi)
		})
	}
	// (f) body bit flips that keep the bit stream well-formed are caught by
	// the trailer
	for _, f := range files {
		if f.o.K == kRaw || len(f.in) > 2000 {
			continue
		}
		f := f
		c.CaseF("body", func() string { return f.name }, func(t *T) {
			full := refDecode(f.in, f.o.K, f.o.Dict, f.o.wbits())
			for _, m := range full.Members {
				for i := m.Body; i < m.Foot; i++ {
					for b := 0; b < 8; b++ {
						in := append([]byte(nil), f.in...)
						in[i] ^= 1 << uint(b)
						o := f.o
						o.Mem = 1 + 8*(i%2)
						t.Note("%s byte %d bit %d", f.name, i, b)
						agreeRef(t, fmt.Sprintf("%s body byte %d bit %d", f.name, i, b), in, o)
					}
				}
			}
		})
	}
	// (h) every short sequence of members, each trailer of which is damaged in
	// turn: the damage must be noticed wherever the member is
	{
		contents := [][]byte{nil, []byte("a"), texty(40, 4), noise(300, 5)}
		const most = 4
		for first := 0; first < len(contents); first++ {
			for n := 1; n <= most; n++ {
				first, n := first, n
				c.CaseF("members", func() string { return fmt.Sprintf("%d,%d", first, n) }, func(t *T) {
					total := 1
					for i := 1; i < n; i++ {
						total *= len(contents)
					}
					for x := 0; x < total; x++ {
						seq := []int{first}
						for i, y := 1, x; i < n; i++ {
							seq = append(seq, y%len(contents))
							y /= len(contents)
						}
						for mix := 0; mix < 4; mix++ {
							var in []byte
							var foot []int
							for i, ci := range seq {
								k := kZlib
								if mix == 1 || mix == 2 && i%2 == 0 || mix == 3 && i%2 == 1 {
									k = kGzip
								}
								w := &bitw{}
								if (ci+i)%2 == 0 {
									w.fixed(true, lits(contents[ci]))
								} else {
									w.stored(true, contents[ci])
								}
								in = append(in, wrap(k, w.p, contents[ci], nil)...)
								if k == kZlib {
									foot = append(foot, len(in)-4)
								} else {
									foot = append(foot, len(in)-8, len(in)-4)
								}
							}
							o := rOpt{K: kAuto, Mem: 1 + (x+mix)%9, W: 15}
							if mix < 2 && x%2 == 0 {
								o.K = []fmtKind{kZlib, kGzip}[mix]
							}
							for fi, at := range foot {
								for v := 0; v < 8; v++ {
									bad := append([]byte(nil), in...)
									switch {
									case v < 4:
										bad[at+v] ^= []byte{1, 0x80, 0x10, 0xff}[(v+x+fi)%4]
									case v == 4:
										copy(bad[at:at+4], []byte{0, 0, 0, 0})
									case v == 5:
										copy(bad[at:at+4], []byte{0, 0, 0, 1})
									case v == 6 && fi > 0:
										copy(bad[at:at+4], in[foot[fi-1]:])
									case v == 7:
										copy(bad[at:at+4], []byte{0xff, 0xff, 0xff, 0xff})
									}
									if bytes.Equal(bad, in) {
										continue
									}
									agreeRef(t, fmt.Sprintf("contents %v mix %d, field %d damaged in way %d", seq, mix, fi, v), bad, o)
								}
							}
						}
					}
					t.State("members", first, n)
				})
			}
		}
	}
	// (g) long content: the length field counts modulo 2^32 and the
	// checksums cover all of it, at any distance from the end
	for _, n := range []int{5551, 5552, 5553, 11104, 32768, 65536, 100000} {
		n := n
		c.CaseF("long", func() string { return fmt.Sprint(n) }, func(t *T) {
			data := texty(n, 8)
			for _, k := range []fmtKind{kZlib, kGzip} {
				w := &bitw{}
				for i := 0; i < n; i += 60000 {
					w.stored(false, data[i:minInt(n, i+60000)])
				}
				w.stored(true, nil)
				in := wrap(k, w.p, data, nil)
				for i := 0; i < n; i += 997 {
					bad := append([]byte(nil), in...)
					// corrupt one byte of stored content
					off := len(in) - (n - i) - 40
					if off < 20 {
						continue
					}
					bad[off] ^= 4
					f := refDecode(bad, k, nil, 15)
					got, err := decodeAll(t, bad, rOpt{K: k, Mem: 9})
					agree(t, fmt.Sprintf("%v length %d, byte %d changed", k, n, off), bad, rOpt{K: k}, f, got, err)
				}
			}
			t.State("long", n)
		})
	}
	_ = flate.MaxWindowBits
}
