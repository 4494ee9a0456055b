package main

import (
	"container/heap"
	"fmt"
	"sort"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{ID: "P30", Run: runP30, Bounds: sweepBounds + "; further: all tuples of up to 5 symbol frequencies 1..5 (6 and 1..6 thorough) with each strategy that codes, all pairs of such tuples of literals and of distances, geometric and Fibonacci-like frequencies of 2..40 symbols x bases, code length sequences with runs of every length 1..300 at both ends and in the middle"})
}

// huffCost is the total length of an optimal unlimited prefix code (one bit
// each for a single symbol).
type ints []int

func (h ints) Len() int           { return len(h) }
func (h ints) Less(i, j int) bool { return h[i] < h[j] }
func (h ints) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ints) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ints) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func huffCost(freq []int) int {
	var h ints
	for _, f := range freq {
		if f > 0 {
			h = append(h, f)
		}
	}
	if len(h) == 1 {
		return h[0]
	}
	heap.Init(&h)
	cost := 0
	for len(h) > 1 {
		a := heap.Pop(&h).(int)
		b := heap.Pop(&h).(int)
		cost += a + b
		heap.Push(&h, a+b)
	}
	return cost
}

// limitedCost is the same for code words of at most limit bits (package-merge).
func limitedCost(freq []int, limit int) int {
	var w []int
	for _, f := range freq {
		if f > 0 {
			w = append(w, f)
		}
	}
	if len(w) == 0 {
		return 0
	}
	if len(w) == 1 {
		return w[0]
	}
	sort.Ints(w)
	prev := append([]int(nil), w...)
	for l := 1; l < limit; l++ {
		var pk []int
		for i := 0; i+1 < len(prev); i += 2 {
			pk = append(pk, prev[i]+prev[i+1])
		}
		// merge
		var next []int
		i, j := 0, 0
		for i < len(w) || j < len(pk) {
			if j == len(pk) || (i < len(w) && w[i] <= pk[j]) {
				next = append(next, w[i])
				i++
			} else {
				next = append(next, pk[j])
				j++
			}
		}
		prev = next
	}
	cost := 0
	for i := 0; i < 2*len(w)-2; i++ {
		cost += prev[i]
	}
	return cost
}

func codeCost(freq []int, lens []byte) int {
	n := 0
	for s, f := range freq {
		if f > 0 && s < len(lens) {
			n += f * int(lens[s])
		}
	}
	return n
}

// treeBound30 bounds the cost of describing a code for the symbols which occur:
// seven bits for each, fourteen for each run of others.
func treeBound30(freq []int) int {
	n, zero := 0, false
	for _, f := range freq {
		if f > 0 {
			n += 7
			zero = false
		} else if !zero {
			n += 14
			zero = true
		}
	}
	return n
}

var worst30 = map[string]float64{}

// economy30 judges every block of a strictly decoded stream.
func economy30(t *T, what string, m *refMember, huffOnly bool) {
	for bi := range m.S.Blocks {
		b := &m.S.Blocks[bi]
		fl, fd := make([]int, 286), make([]int, 30)
		extra := 0
		pos, k := b.OutStart, 0
		for pos < b.OutEnd {
			if k < len(b.Matches) && b.Matches[k].Pos == pos {
				x := b.Matches[k]
				k++
				ls, _, le := lenSym(x.Len, false)
				ds, _, de := dstSym(x.Dist)
				ls -= 257
				fl[257+ls]++
				fd[ds]++
				extra += le + de
				pos += x.Len
				continue
			}
			fl[m.S.Out[pos]]++
			pos++
		}
		fl[256]++
		bits := int(b.EndBit - b.StartBit)
		where := fmt.Sprintf("%s: block %d (type %d, %d bytes, %d matches)", what, bi, b.Type, b.OutEnd-b.OutStart, len(b.Matches))
		// What codes made for the data would cost at most (for a stored block,
		// of which the matches are not known, coding its bytes one by one).
		dyn := 17 + 19*3 + treeBound30(fl) + treeBound30(fd) + limitedCost(fl, 15) + limitedCost(fd, 15) + extra
		if b.Type == 0 {
			if bits > dyn+64+bits/4 {
				t.Failf("%s: stored in %d bits, although coding its bytes takes no more than %d", where, bits, dyn)
			}
			continue
		}
		fixed := 3 + extra + codeCost(fl, fixedLL) + codeCost(fd, fixedD)
		if bits > fixed {
			t.Failf("%s: takes %d bits, with the fixed code it would be %d", where, bits, fixed)
		}
		if b.Type == 1 {
			if bits != fixed {
				t.Failf("%s: takes %d bits, its symbols make %d", where, bits, fixed)
			}
			if bits > dyn+dyn/10 {
				t.Failf("%s: takes %d bits with the fixed code, although a code of its own would make that %d", where, bits, dyn)
			}
			continue
		}
		for _, c := range []struct {
			name  string
			freq  []int
			lens  []byte
			limit int
			safe  int // sums below cannot need more than limit bits
		}{{"literal/length", fl, b.LL, 15, 2584}, {"distance", fd, b.D, 15, 2584}, {"code length", b.XF[:], b.CL, 7, 55}} {
			sum, used := 0, 0
			for s, f := range c.freq {
				sum += f
				if f > 0 {
					used++
				}
				if f == 0 && s < len(c.lens) && c.lens[s] != 0 && used > 0 {
					t.Failf("%s: the %s code gives a code word to symbol %d, which does not occur", where, c.name, s)
				}
			}
			got := codeCost(c.freq, c.lens)
			best := huffCost(c.freq)
			if got > best && sum >= c.safe {
				lim := limitedCost(c.freq, c.limit)
				r := float64(got) / float64(lim)
				if lim > best || r < 1.1 {
					// Limiting need not be perfect.
					best = lim + lim/10 + 8
				}
				if r > worst30[c.name] {
					worst30[c.name] = r
				}
			}
			if got > best {
				t.Failf("%s: its %s symbols take %d bits; %d would do", where, c.name, got, best)
			}
		}
		head := 3 + 14 + 3*b.NumX + codeCost(b.XF[:], b.CL) + 2*b.XF[16] + 3*b.XF[17] + 7*b.XF[18]
		if want := head + extra + codeCost(fl, b.LL) + codeCost(fd, b.D); bits != want {
			t.Failf("%s: takes %d bits, its symbols make %d", where, bits, want)
		}
		// The description of the codes: no length that the data does not need.
		for _, c := range []struct {
			name string
			n    int
			min  int
			lens []byte
		}{{"literal/length", b.NumLL, 257, b.LL}, {"distance", b.NumD, 1, b.D}} {
			last := c.min
			for s := c.min; s < c.n; s++ {
				if c.lens[s] != 0 {
					last = s + 1
				}
			}
			if c.n > last {
				t.Failf("%s: describes %d %s symbols, the last %d of which do not occur", where, c.n, c.name, c.n-last)
			}
		}
		n := len(b.CL)
		for n > 4 && b.CL[clOrder[n-1]] == 0 {
			n--
		}
		if b.NumX > n {
			t.Failf("%s: describes %d code length symbols, %d would do", where, b.NumX, n)
		}
		if huffOnly && len(b.Matches) > 0 {
			t.Failf("%s: matches", where)
		}
		t.State("block", b.Type, b.NumLL, b.NumD, b.NumX, bits)
	}
}

func runP30(c *C) {
	judge := func(t *T, r *wrun) {
		res := r.exec(t)
		what := fmt.Sprintf("%v %s", r.o, r.name)
		f := strictCheck(t, what, res.stream, r.o, res.data)
		for mi := range f.Members {
			economy30(t, fmt.Sprintf("%s: member %d", what, mi), &f.Members[mi], r.o.Strat == flate.HuffmanOnlyStrategy)
		}
	}
	codes := func(o wOpt) bool { return o.Strat != flate.FixedStrategy && o.level() != 0 }
	writerRuns(c, codes, judge)

	one := func(t *T, o wOpt, name string, b []byte) {
		t.Note("%v %s", o, name)
		judge(t, &wrun{o: o, name: name, pieces: [][]byte{b}, flush: []int{-1}, tag: "freq"})
	}
	strats := []flate.Strategy{flate.DefaultStrategy, flate.HuffmanOnlyStrategy, flate.HuffmanRLEStrategy}
	// small profiles
	depth, max := 5, 5
	if !c.Quick() {
		depth, max = 6, 6
	}
	for _, st := range strats {
		for n := 1; n <= depth; n++ {
			for f0 := 1; f0 <= max; f0++ {
				st, n, f0 := st, n, f0
				o := wOpt{K: kRaw, Lvl: 6, Mem: 5, W: 15, Strat: st}
				c.CaseF("profiles", func() string { return fmt.Sprint(st, " ", n, " ", f0) }, func(t *T) {
					f := make([]int, n)
					f[0] = f0
					var rec func(i int)
					rec = func(i int) {
						if i == n {
							one(t, o, fmt.Sprint(f), profile(f, 12))
							return
						}
						for v := 1; v <= f[i-1]; v++ {
							f[i] = v
							rec(i + 1)
						}
					}
					rec(1)
					t.State("profiles", st, n, f0)
				})
			}
		}
	}
	// skewed frequencies
	for _, st := range strats {
		for base := 1; base <= 5; base++ {
			st, base := st, base
			c.CaseF("skewed", func() string { return fmt.Sprint(st, " ", base) }, func(t *T) {
				for n := 2; n <= 40; n++ {
					f := make([]int, n)
					a, b := 1, 1
					for i := range f {
						switch base {
						case 1:
							f[i] = a
							a, b = b, a+b
						case 5:
							// As deep a tree as the number of symbols allows, and only that.
							switch {
							case i < 2:
								f[i], a, b = 1, 3, 4
							default:
								f[i] = a
								a, b = b, a+b
							}
						default:
							f[i] = a
							a = a*base/2 + 1
						}
						if a > 40000 {
							a, b = 1, 1
						}
					}
					for _, m := range []int{2, 5, 9} {
						one(t, wOpt{K: kZlib, Lvl: 9, Mem: m, W: 15, Strat: st}, fmt.Sprint("skewed ", base, " ", n, " m", m), profile(f, 1))
					}
					t.State("skewed", st, base, n)
				}
			})
		}
	}
	// runs of equal and of zero code lengths: literals a..b only, each as often
	for _, st := range strats {
		for lo := 0; lo < 256; lo += 17 {
			st, lo := st, lo
			c.CaseF("alphabets", func() string { return fmt.Sprint(st, " from ", lo) }, func(t *T) {
				step := 1
				if c.Quick() {
					step = 3
				}
				for hi := lo + 1; hi <= 256; hi += step {
					for _, skip := range []int{1, 2, 4} {
						var b []byte
						for rep := 0; rep < 9; rep++ {
							for v := lo; v < hi; v += skip {
								b = append(b, byte(v))
								if rep == 3 && v%5 == 0 {
									b = append(b, byte(v))
								}
							}
							b = append(b, byte(lo))
						}
						one(t, wOpt{K: kRaw, Lvl: 5, Mem: 6, W: 15, Strat: st}, fmt.Sprint("alphabet ", lo, " ", hi, " ", skip), b)
					}
					t.State("alphabets", st, lo, hi)
				}
			})
		}
	}
	// distances: matches at 1..4 different distances, as often as the profile says
	for n := 1; n <= 4; n++ {
		n := n
		c.CaseF("distances", func() string { return fmt.Sprint(n) }, func(t *T) {
			f := make([]int, n)
			var rec func(i int)
			rec = func(i int) {
				if i == n {
					one(t, wOpt{K: kRaw, Lvl: 9, Mem: 9, W: 15}, fmt.Sprint("distances ", f), distProfile(f))
					return
				}
				for v := 1; v <= 4; v++ {
					f[i] = v
					rec(i + 1)
				}
			}
			rec(0)
			t.State("distances", n)
		})
	}
}

// profile has symbol i f[i]*mul times, spread out.
func profile(f []int, mul int) []byte {
	type ent struct{ pos, sym int }
	var es []ent
	total := 0
	for _, v := range f {
		total += v * mul
	}
	for i, v := range f {
		n := v * mul
		for k := 0; k < n; k++ {
			es = append(es, ent{(2*k + 1) * total * 64 / (2 * n), i})
		}
	}
	sort.SliceStable(es, func(a, b int) bool { return es[a].pos < es[b].pos })
	b := make([]byte, len(es))
	for i, e := range es {
		b[i] = byte('0' + e.sym*5)
	}
	return b
}

// distProfile repeats pieces of earlier data from about 2^(3i+4) bytes back.
func distProfile(f []int) []byte {
	b := noise(6000, 77)
	k := uint64(1)
	for i, v := range f {
		for j := 0; j < v*3; j++ {
			d := 20 << uint(3*i)
			if d > 5000 {
				d = 5000
			}
			at := len(b) - d
			b = append(b, b[at:at+9]...)
			b = append(b, noise(5, k*91)...)
			k++
		}
	}
	return b
}
