package main

import (
	"bytes"
	stdflate "compress/flate"
	"fmt"
	"io"
	"time"

	"github.com/chronos-tachyon/flate"
)

// A wrun is one use of a Writer: pieces, each followed by a flush if >= 0.
type wrun struct {
	o      wOpt
	name   string
	pieces [][]byte
	flush  []int // flush type after piece i, or -1
	tag    string
	hdr    *flate.Header
}

func (r *wrun) data() []byte { return concat(r.pieces...) }

// wres is the outcome of a wrun.
type wres struct {
	data   []byte
	stream []byte
	marks  []int // sink length after each piece and flush
}

func (r *wrun) exec(t *T, tracers ...flate.Tracer) wres {
	var sink bytes.Buffer
	o := r.o
	o.Tr = tracers
	fw := flate.NewWriter(&sink, o.opts()...)
	if r.hdr != nil {
		if err := fw.SetHeader(*r.hdr); err != nil {
			t.Failf("SetHeader(%s) returned %v", describeHdr(*r.hdr), err)
		}
	}
	var res wres
	for i, p := range r.pieces {
		writeAll(t, fw, p)
		if i < len(r.flush) && r.flush[i] >= 0 {
			t.Step(1)
			if err := fw.Flush(flate.FlushType(r.flush[i])); err != nil {
				t.Failf("Flush(%d) returned %v", r.flush[i], err)
			}
		}
		res.marks = append(res.marks, sink.Len())
	}
	t.Step(1)
	if err := fw.Close(); err != nil {
		t.Failf("Close returned %v", err)
	}
	res.data = r.data()
	res.stream = sink.Bytes()
	t.Trace()
	return res
}

// headerRuns are executions with every subset of the gzip header's fields.
func headerRuns(c *C, f func(t *T, r *wrun)) {
	for set := 0; set < 64; set++ {
		set := set
		c.CaseF("headers", func() string { return fmt.Sprintf("fields %06b", set) }, func(t *T) {
			var h flate.Header
			if set&1 != 0 {
				h.FileName = []string{"name.txt", "n\u00e4me", string(bytes.Repeat([]byte("n"), 255))}[set/2%3]
			}
			if set&2 != 0 {
				h.Comment = []string{"a comment", "two\nlines", string(bytes.Repeat([]byte("c"), 255))}[set%3]
			}
			if set&4 != 0 {
				h.LastModified = time.Unix(1234567890+int64(set), 0)
			}
			if set&8 != 0 {
				h.ExtraData.Records = []flate.ExtraDataRecord{{ID: [2]byte{'x', 'y'}, Bytes: noise(set*17%50, uint64(set))}, {ID: [2]byte{'A', 0}, Bytes: noise(600*(set%2), 5)}}
			}
			if set&16 != 0 {
				h.DataType = flate.BinaryData
				if set&1 != 0 {
					h.DataType = flate.TextData
				}
			}
			if set&32 != 0 {
				h.OSType = []flate.OSType{flate.OSTypeUnix, flate.OSTypeNTFS, flate.OSTypeFAT}[set%3]
			}
			for i, o := range []wOpt{
				{K: kGzip, Lvl: 6, Mem: 1, W: 15},
				{K: kGzip, Lvl: 9, Mem: 9, W: 9, Strat: allStrats[set%4]},
				{K: kGzip, Lvl: 1, Mem: 4, W: 12, Dict: texty(100, 9)},
				{K: kZlib, Lvl: 6, Mem: 2, W: 15},
				{K: kRaw, Lvl: 6, Mem: 2, W: 15},
			} {
				for j, d := range [][]byte{nil, texty(40, 1), texty(3000, 2), noise(300, 3)} {
					h := h
					r := &wrun{o: o, name: fmt.Sprintf("header %s, data %d", describeHdr(h), j), pieces: split(d, 1000), tag: "headers", hdr: &h}
					if (i+j)%2 == 0 {
						// a second stream behind the first
						r.pieces, r.flush = [][]byte{d, texty(20, 4)}, []int{4, -1}
					}
					t.Note("%v %s", o, r.name)
					f(t, r)
					t.State("headers", set, i, j)
				}
			}
		})
	}
}

// split cuts data into pieces of the given size; 0 = one piece, -1 = growing.
func split(data []byte, size int) [][]byte {
	if size == 0 || len(data) == 0 {
		return [][]byte{data}
	}
	var out [][]byte
	for i, k := 0, 1; i < len(data); k++ {
		n := size
		if size < 0 {
			n = k * k
		}
		j := minInt(i+n, len(data))
		out = append(out, data[i:j:j])
		i = j
	}
	return out
}

// clDeep returns data whose optimal literal code has code lengths distributed
// so that the code length code itself wants more than seven bits.
func clDeep() []byte {
	cnt := []struct{ l, n int }{{1, 1}, {2, 1}, {4, 1}, {6, 2}, {7, 5}, {8, 8}, {9, 13}, {10, 21}}
	var other []int
	for _, c := range cnt {
		for i := 0; i < c.n; i++ {
			other = append(other, c.l)
		}
	}
	// 81 byte symbols and end-of-block have 11 bits
	var lens []int
	rest := 81
	for len(other) > 0 || rest > 0 {
		for k := 0; k < 2 && rest > 0; k++ {
			lens = append(lens, 11)
			rest--
		}
		if len(other) > 0 {
			i := (len(lens) * 7) % len(other)
			lens = append(lens, other[i])
			other = append(other[:i], other[i+1:]...)
		}
	}
	var out []byte
	for i, l := range lens {
		for k := 0; k < 1<<uint(11-l); k++ {
			out = append(out, byte(255-i))
		}
	}
	r := rng(5)
	for i := len(out) - 1; i > 0; i-- {
		j := int(r.next() % uint64(i+1))
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// distDeep returns data made of matches at many distances with very uneven
// frequencies.
func distDeep(k int) []byte {
	base := noise(9000, 77)
	out := append([]byte(nil), base...)
	f := []int{1, 1, 3}
	for len(f) < k {
		f = append(f, f[len(f)-1]+f[len(f)-2])
	}
	// the i'th distance class is reached by copying from base
	x := 0
	for i := k - 1; i >= 0; i-- {
		for n := 0; n < f[i] && len(out) < 100000; n++ {
			d := dstBase[2*i%30] + 1
			if d > len(out) {
				d = len(out)
			}
			for j := 0; j < 5; j++ {
				out = append(out, out[len(out)-d])
			}
			x++
			out = append(out, byte(x*31), byte(x>>3))
		}
	}
	return out
}

type datum struct {
	name string
	b    []byte
}

var smallData = func() []datum {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	ds := []datum{
		{"empty", nil},
		{"1", []byte{0}},
		{"2", []byte{0xff, 0}},
		{"aaa", []byte("aaa")},
		{"abcabcabc", []byte("abcabcabcabc")},
		{"all", all},
		{"allall", concat(all, all)},
		{"zeros259", zeros(259)},
		{"zeros600", zeros(600)},
		{"noise100", noise(100, 1)},
		{"noise600", noise(600, 2)},
		{"texty700", texty(700, 3)},
		{"lucas12", lucas(12, 0)},
		{"runs", concat(zeros(100), noise(50, 9), bytes.Repeat([]byte{7}, 300), noise(3, 1), bytes.Repeat([]byte{8}, 5))},
		{"two", noiseK(500, 2, 4)},
		{"high", bytes.Repeat([]byte{0xfe, 0xff, 0xfd}, 100)},
	}
	return ds
}()

var midData = func() []datum {
	return []datum{
		{"texty5000", texty(5000, 3)},
		{"texty9000", texty(9000, 4)},
		{"noise5000", noise(5000, 5)},
		{"zeros20000", zeros(20000)},
		{"noise4k2", concat(noise(4000, 6), noise(4000, 6), noise(100, 6))},
		{"lucas17", lucas(17, 0)},
		{"lucas20", lucas(20, 0)},
		{"cldeep", clDeep()},
		{"k4", noiseK(12000, 4, 7)},
		{"debruijn16", deBruijn(16)},
		{"debruijn20", deBruijn(20)},
		{"mixed", concat(texty(3000, 1), noise(3000, 2), zeros(3000), texty(3000, 1), noiseK(3000, 3, 3))},
	}
}()

// deBruijn is a sequence over k symbols in which no three bytes occur twice: it
// has no match at all, and compresses only by its choice of symbols.
func deBruijn(k int) []byte {
	var out []byte
	a := make([]byte, 3*k)
	var db func(t, p int)
	db = func(t, p int) {
		if t > 3 {
			if 3%p == 0 {
				out = append(out, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for v := int(a[t-p]) + 1; v < k; v++ {
			a[t] = byte(v)
			db(t+1, t)
		}
	}
	db(1, 1)
	for i := range out {
		out[i] = byte(int(out[i])*11 + 3)
	}
	return out
}

var bigData = func() []datum {
	return []datum{
		{"texty140k", texty(140000, 3)},
		{"noise140k", noise(140000, 5)},
		{"zeros300k", zeros(300000)},
		{"lucas22", lucas(22, 130000)},
		{"far", concat(noise(32000, 9), noise(32000, 9), noise(33000, 10), noise(33000, 10))},
		{"distdeep", distDeep(15)},
		{"k2", noiseK(150000, 2, 7)},
	}
}()

// dictFor returns test dictionaries by number.
func dictFor(i, wbits int) []byte {
	switch i {
	case 0:
		return nil
	case 1:
		return []byte("abc texty dictionary")
	case 2:
		return texty(700, 3)
	case 3:
		return noise(1<<uint(wbits)+77, 2)
	case 4:
		return zeros(40)
	}
	return noise(1<<uint(wbits), 6)
}

// writerRuns enumerates Writer uses; want limits what is interesting.
func writerRuns(c *C, keep func(o wOpt) bool, f func(t *T, r *wrun)) {
	ok := func(o wOpt) bool { return keep == nil || keep(o) }
	emit := func(group string, o wOpt, ds []datum, splits []int) {
		if !ok(o) {
			return
		}
		c.CaseF(group, func() string { return o.String() }, func(t *T) {
			for di, d := range ds {
				sp := splits[di%len(splits)]
				t.Note("%v %s split %d", o, d.name, sp)
				f(t, &wrun{o: o, name: d.name, pieces: split(d.b, sp), tag: group})
				t.State(group, o.String(), d.name, sp)
			}
		})
	}
	// configurations on small data
	mems, ws, dn := []int{1, 4, 9}, []int{8, 12, 15}, 4
	if !c.Quick() {
		mems, ws, dn = []int{1, 2, 3, 4, 5, 6, 7, 8, 9}, []int{8, 9, 10, 11, 12, 13, 14, 15}, 6
	}
	n := 0
	for _, k := range allKinds {
		for _, s := range allStrats {
			for l := 0; l <= 9; l++ {
				for _, m := range mems {
					for _, w := range ws {
						for d := 0; d < dn; d++ {
							n++
							if c.Quick() && (m == 9 && n%5 != 0 || m == 4 && n%2 != 0) {
								continue
							}
							ds := smallData
							if c.Quick() || m >= 5 {
								// a third of the data for each, rotating
								ds = nil
								for i := n % 3; i < len(smallData); i += 3 {
									ds = append(ds, smallData[i])
								}
							}
							emit("config", wOpt{K: k, Strat: s, Lvl: l, Mem: m, W: w, Dict: dictFor(d, w)}, ds, []int{0, 1, -1, 7, 0, 256})
						}
					}
				}
			}
		}
	}
	// defaults
	for _, k := range []fmtKind{kAuto, kRaw, kZlib, kGzip} {
		for _, s := range allStrats {
			emit("defaults", wOpt{K: k, Strat: s, Lvl: -1}, append(append([]datum(nil), smallData...), midData...), []int{0, 100})
		}
	}
	// every memory level with every window
	for m := 1; m <= 9; m++ {
		for w := 8; w <= 15; w++ {
			for si, s := range allStrats {
				n++
				o := wOpt{K: allKinds[n%3], Strat: s, Lvl: (m*3 + w + si*2) % 10, Mem: m, W: w, Dict: dictFor(n/3%4, w)}
				ds := []datum{smallData[n%len(smallData)], midData[n%len(midData)], midData[(n/5+3)%len(midData)]}
				emit("pairs", o, ds, []int{0, 1000, 4096})
			}
		}
	}
	// medium data
	for ki, k := range allKinds {
		for si, s := range allStrats {
			for _, l := range []int{0, 1, 3, 6, 9} {
				for m := 1; m <= 9; m++ {
					for _, w := range []int{8, 11, 15} {
						if c.Quick() && ((ki+si+l+m+w)%3 != 0 || m != 1 && m != 2 && m != 5 && m != 9) {
							continue
						}
						emit("medium", wOpt{K: k, Strat: s, Lvl: l, Mem: m, W: w, Dict: dictFor((m+w)%3, w)}, midData, []int{0, 1000, -1, 4096, 61440, 1})
					}
				}
			}
		}
	}
	// big data
	for ki, k := range allKinds {
		for si, s := range allStrats {
			for _, l := range []int{0, 1, 6} {
				for _, m := range []int{1, 8, 9} {
					if c.Quick() && ((ki+si+l)%3 != 0 || m == 8) {
						continue
					}
					for i, d := range bigData {
						emit("big", wOpt{K: k, Strat: s, Lvl: l, Mem: m, W: 15 - i%2*3}, []datum{d}, []int{[]int{0, 65536, 0, 61440, 0, 5000}[(i+m)%6]})
					}
				}
			}
		}
	}
	// boundary lengths
	for _, s := range allStrats {
		for _, l := range []int{0, 6} {
			for _, m := range []int{1, 3, 9} {
				var bounds []int
				for _, b := range []int{1, 256, 258, 512, 1 << uint(m+7), 1 << uint(m+8), 4096, 8192, 32768, 61440, 65535, 65536, 65535 * 2, 122880, 131072} {
					lo, hi := b-2, b+2
					if c.Quick() && b > 10000 {
						lo, hi = b-1, b+1
					}
					for x := lo; x <= hi; x++ {
						if x >= 0 {
							bounds = append(bounds, x)
						}
					}
				}
				for bi, b := range bounds {
					var ds []datum
					for di := 0; di < 3; di++ {
						if b > 10000 && c.Quick() && (bi+di)%3 != 0 && di != 1 {
							continue
						}
						switch di {
						case 0:
							ds = append(ds, datum{fmt.Sprintf("zeros%d", b), zeros(b)})
						case 1:
							ds = append(ds, datum{fmt.Sprintf("noise%d", b), noise(b, 3)})
						case 2:
							ds = append(ds, datum{fmt.Sprintf("texty%d", b), texty(b, 3)})
						}
					}
					o := wOpt{K: allKinds[bi%3], Strat: s, Lvl: l, Mem: m, W: 15}
					if !ok(o) {
						continue
					}
					c.CaseF("bounds", func() string { return fmt.Sprintf("%v/%d", o, b) }, func(t *T) {
						for _, d := range ds {
							for _, sp := range []int{0, 4096, 1 << uint(m+8)} {
								t.Note("%v %s split %d", o, d.name, sp)
								f(t, &wrun{o: o, name: d.name, pieces: split(d.b, sp), tag: "bounds"})
							}
							t.State("bounds", o.String(), d.name)
						}
					})
				}
			}
		}
	}
	// rare, far matches whose length and distance have the longest codes
	for _, l := range []int{1, 3, 6, 9} {
		for _, m := range []int{4, 9} {
			o := wOpt{K: allKinds[(l+m)%3], Lvl: l, Mem: m, W: 15}
			if !ok(o) {
				continue
			}
			c.CaseF("longcodes", o.String, func(t *T) {
				for _, n := range []int{258, 200, 100, 50, 30, 12} {
					for i, dist := range []int{30000, 20000, 13000, 5000, 700} {
						for syms := 13; syms <= 17; syms += 1 + (i+n)%2*3 {
							early, late := longCodes(n, dist, syms)
							name := fmt.Sprintf("match of %d at %d among %d literals", n, dist, syms)
							t.Note("%v %s", o, name)
							f(t, &wrun{o: o, name: name, pieces: [][]byte{early, late}, flush: []int{2, -1}, tag: "longcodes"})
							t.State("longcodes", o.String(), name)
						}
					}
				}
			})
		}
	}
	// matches at the first and last distance of every distance code, of the
	// first and last length of every length code
	for code := 0; code < 30; code++ {
		lo := 1 + code
		hi := lo
		if code >= 4 {
			x := uint(code/2 - 1)
			lo = 1 + (2+code%2)<<x
			hi = lo + 1<<x - 1
		}
		for di, dist := range []int{lo, hi, lo + 1, hi - 1} {
			if dist < lo || dist > hi || di > 1 && hi-lo < 2 || di == 1 && hi == lo {
				continue
			}
			wb := 8
			for 1<<uint(wb) < dist {
				wb++
			}
			for v := 0; v < c.Pick(3, 8); v++ {
				o := wOpt{K: allKinds[(code+di+v)%3], Strat: []flate.Strategy{flate.DefaultStrategy, flate.FixedStrategy}[v%3/2], Lvl: []int{6, 1, 9, 3}[(v+code)%4], Mem: []int{9, 5, 1, 7}[(v+di)%4], W: []int{wb, 15}[v%2]}
				if !ok(o) {
					continue
				}
				dist := dist
				c.CaseF("distances", func() string { return fmt.Sprintf("%v/%d", o, dist) }, func(t *T) {
					for way := 0; way < 2; way++ {
						d := noise(dist, uint64(dist))
						fresh := noise(200, uint64(dist+7))
						for i, n := range []int{4, 10, 11, 12, 13, 16, 17, 18, 19, 22, 23, 34, 35, 42, 43, 66, 67, 82, 83, 130, 131, 162, 163, 226, 227, 256, 257, 258, 5, 3, 259, 516, 517} {
							for ; n > 0; n-- {
								d = append(d, d[len(d)-dist])
							}
							d = append(d, fresh[5*i:5*i+5-way*2]...)
						}
						pieces := [][]byte{d}
						if way == 1 {
							pieces = [][]byte{d[:dist], d[dist:]}
						}
						name := fmt.Sprintf("matches at %d way %d", dist, way)
						t.Note("%v %s", o, name)
						f(t, &wrun{o: o, name: name, pieces: pieces, tag: "distances"})
						t.State("distances", o.String(), name)
					}
				})
			}
		}
	}
	// all short strings
	for _, k := range allKinds {
		for _, s := range allStrats {
			for _, al := range []struct {
				k, n int
			}{{2, c.Pick(7, 11)}, {3, c.Pick(5, 7)}} {
				o := wOpt{K: k, Strat: s, Lvl: 6, Mem: 1, W: 8}
				if !ok(o) {
					continue
				}
				total := 1
				for i := 0; i < al.n; i++ {
					total *= al.k
				}
				for st := 0; st < total; st += 64 {
					al, st := al, st
					c.CaseF("strings", func() string { return fmt.Sprintf("%v/%d^%d/%d", o, al.k, al.n, st) }, func(t *T) {
						for x := st; x < st+64 && x < total; x++ {
							b := make([]byte, al.n)
							for i, y := 0, x; i < al.n; i++ {
								b[i] = byte('a' + y%al.k)
								y /= al.k
							}
							t.Note("%v %q", o, b)
							f(t, &wrun{o: o, name: string(b), pieces: [][]byte{b}, tag: "strings"})
							t.State("strings", o.String(), b)
						}
					})
				}
			}
		}
	}
	// contents with special checksums
	for ki, k := range allKinds {
		for _, name := range []string{"adler32", "crc32"} {
			var ds []datum
			for _, v := range specialSums[name] {
				for _, n := range []int{560, 6001} {
					ds = append(ds, datum{fmt.Sprintf("%s %08x of %d", name, v, n), reachSum(name, v, n)})
				}
			}
			for si, s := range allStrats {
				emit("sums", wOpt{K: k, Strat: s, Lvl: 6 * (1 - (ki+si)%2), Mem: 1 + si, W: 9 + ki}, ds, []int{0, 100})
			}
		}
	}
	// flushes: all sequences of up to two flushes between pieces
	fl := []int{-1, 0, 1, 2, 3, 4}
	for ki, k := range allKinds {
		for si, s := range allStrats {
			for _, l := range []int{0, 1, 9} {
				for d := 0; d < 3; d++ {
					o := wOpt{K: k, Strat: s, Lvl: l, Mem: 1 + (ki+si)%2*3, W: 9 + si, Dict: dictFor(d, 9+si)}
					if !ok(o) {
						continue
					}
					c.CaseF("flushes", func() string { return o.String() }, func(t *T) {
						a, b, cc := texty(40, 3), noise(30, 1), concat(texty(40, 3), zeros(20))
						for _, f1 := range fl {
							for _, f2 := range fl {
								for _, f3 := range fl {
									for v := 0; v < 2; v++ {
										ps := [][]byte{a, b, cc}
										if v == 1 {
											ps = [][]byte{texty(600, 5), {}, texty(600, 5)}
										}
										t.Note("%v flushes %d %d %d v%d", o, f1, f2, f3, v)
										f(t, &wrun{o: o, name: t.note, pieces: ps, flush: []int{f1, f2, f3}, tag: "flushes"})
										t.State(t.note)
									}
								}
							}
						}
					})
				}
			}
		}
	}
}

// stdBody decodes the DEFLATE data of every member with the standard library
// and compares.
func stdBody(t *T, what string, stream []byte, f refFile, dict []byte) {
	for i := range f.Members {
		m := &f.Members[i]
		var r io.Reader
		if dict != nil {
			r = stdflate.NewReaderDict(bytes.NewReader(stream[m.Body:m.Foot]), dict)
		} else {
			r = stdflate.NewReader(bytes.NewReader(stream[m.Body:m.Foot]))
		}
		got, err := io.ReadAll(r)
		if err != nil {
			t.Failf("%s: compress/flate rejects member %d: %v", what, i, err)
		}
		if !bytes.Equal(got, m.S.Out) {
			t.Failf("%s: compress/flate decodes member %d differently: %s", what, i, diffAt(got, m.S.Out))
		}
	}
}

// longCodes is two pieces of data; the second one repeats n bytes of the
// first one from a distance of about dist, once, among literals and near
// matches the frequencies of which grow like Fibonacci's numbers.
func longCodes(n, dist, syms int) (early, late []byte) {
	var lit []byte
	a, b := 1, 1
	for v := 0; v < syms; v++ {
		lit = append(lit, bytes.Repeat([]byte{byte(v*13 + 5)}, a)...)
		a, b = b, a+b
	}
	for i, r := range noise(len(lit), 9) {
		j := (int(r)*256 + i*7919) % len(lit)
		lit[i], lit[j] = lit[j], lit[i]
	}
	early = noise(30500, 5)
	const parts = 36
	for i := 0; i < parts; i++ {
		late = append(late, lit[i*len(lit)/parts:(i+1)*len(lit)/parts]...)
		switch {
		case i == parts-4:
			from := len(early) + len(late) - dist
			if from < 0 {
				from = 0
			}
			late = append(late, concat(early, late)[from:from+n]...)
		case i < 20:
			late = append(late, "........."[:7+i%2]...)
		case i < 28:
			late = append(late, "+-+-+-+-+-+-"...)
		case i < 32:
			late = append(late, "<=><=><=><=>"...)
		default:
			late = append(late, "[()][()][()][()]"...)
		}
	}
	return early, late
}
