package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/chronos-tachyon/flate"
)

const sweepBounds = "formats x 4 strategies x levels 0..9 x memory levels {1,4,9} (1..9 thorough) x windows {2^8,2^12,2^15} (all thorough) x 4 dictionaries (6 thorough) on 16 small inputs; medium (5-64 KB) and big (140-300 KB) inputs incl. Fibonacci-like frequency tables and incompressible data; every length within 2 of each buffer/block boundary; far matches with long codes (6 lengths x 5 distances x up to 5 symbol counts); matches at the ends of every distance code's range, of the ends of every length code's range; every memory level with every window and strategy; all strings over {a,b} and {a,b,c} up to a length; all sequences of three flushes between pieces; all 64 subsets of the gzip header's fields x 5 option sets x 4 contents (P01, P02); several ways of splitting; one Writer execution of more than 4 GiB and one file of 70000 streams (P01, P02)"

func init() {
	register(&Prop{ID: "P01", Run: runP01, Bounds: sweepBounds})
	register(&Prop{ID: "P02", Run: runP02, Bounds: sweepBounds,
		Assumptions: []string{"the strict reference decoder (ref.go) and Go's compress/{flate,gzip,zlib} stand for independent decoders"}})
	register(&Prop{ID: "P19", Run: runP19, Bounds: sweepBounds})
	register(&Prop{ID: "P23", Run: runP23, Bounds: sweepBounds + "; repetition: repeat distances up to the window, after flushes, from the dictionary (also of sizes around and above the window), per memory level and level",
		Assumptions: []string{"a second copy must cost less than 60% of its data (the third-party match finder loses some chains, so exact optimality is not required)"}})
}

// P01: the library's own Reader gets the data back.
func runP01(c *C) {
	hugeCases(c)
	i := 0
	f := func(t *T, r *wrun) {
		res := r.exec(t)
		i++
		ro := r.o.reader([]int{1, 9, 4}[i%3])
		got, err := decodeAll(t, res.stream, ro)
		what := fmt.Sprintf("%v %s", r.o, r.name)
		if !bytes.Equal(got, res.data) || err != io.EOF {
			t.Failf("%s: round trip fails: %v; %s", what, err, diffAt(got, res.data))
		}
		if i%4 == 0 && r.o.Dict == nil && r.o.K != kRaw {
			ro.K = kAuto
			got, err := decodeAll(t, res.stream, ro)
			if !bytes.Equal(got, res.data) || err != io.EOF {
				t.Failf("%s: round trip with auto-detection fails: %v; %s", what, err, diffAt(got, res.data))
			}
		}
	}
	headerRuns(c, f)
	writerRuns(c, nil, f)
}

// P02: independent decoders get the data back.
func runP02(c *C) {
	hugeCases(c)
	visit := func(t *T, r *wrun) {
		res := r.exec(t)
		what := fmt.Sprintf("%v %s", r.o, r.name)
		f := strictCheck(t, what, res.stream, r.o, res.data)
		stdBody(t, what, res.stream, f, r.o.Dict)
		if len(f.Members) == 0 {
			t.Failf("%s: no stream at all", what)
		}
		for i := range f.Members {
			m := &f.Members[i]
			checkAnnounced(t, what, m, r.o)
		}
		if len(f.Members) == 1 && (r.o.K != kGzip || r.o.Dict == nil) {
			got, err := stdDecode(res.stream, r.o.kind(), r.o.Dict)
			if err != nil || !bytes.Equal(got, res.data) {
				t.Failf("%s: the standard library fails: %v; %s", what, err, diffAt(got, res.data))
			}
		}
	}
	headerRuns(c, visit)
	writerRuns(c, nil, visit)
}

// checkAnnounced checks that no distance exceeds what the header announces,
// and that blocks are canonical.
func checkAnnounced(t *T, what string, m *refMember, o wOpt) {
	win := 32768
	switch m.Kind {
	case kZlib:
		win = 1 << (uint(m.CMF>>4) + 8)
		if m.CMF>>4 > 7 {
			t.Failf("%s: zlib header announces window 2^%d", what, m.CMF>>4+8)
		}
		if (m.FLG&0x20 != 0) != (o.Dict != nil) {
			t.Failf("%s: FDICT is %v but the dictionary has %d bytes", what, m.FLG&0x20 != 0, len(o.Dict))
		}
	case kGzip:
		if m.FLG&0xe0 != 0 {
			t.Failf("%s: reserved gzip flags set: %#x", what, m.FLG)
		}
	}
	// The last block, and only it, is final.
	for i, b := range m.S.Blocks {
		if b.Final != (i == len(m.S.Blocks)-1) {
			t.Failf("%s: block %d of %d has final=%v", what, i, len(m.S.Blocks), b.Final)
		}
		for _, x := range b.Matches {
			if x.Dist > win {
				t.Failf("%s: distance %d beyond the announced window %d", what, x.Dist, win)
			}
		}
	}
}

// P19: options are honoured.
func runP19(c *C) {
	writerRuns(c, nil, func(t *T, r *wrun) {
		res := r.exec(t)
		what := fmt.Sprintf("%v %s", r.o, r.name)
		f := strictCheck(t, what, res.stream, r.o, res.data)
		for mi := range f.Members {
			m := &f.Members[mi]
			for bi, b := range m.S.Blocks {
				if r.o.level() == 0 {
					// the empty block of a partial flush is by
					// definition a static one
					partial := b.Type == 1 && b.Lits == 0 && len(b.Matches) == 0 && hasFlush(r, 1)
					if b.Type != 0 && !partial {
						t.Failf("%s: level 0, but block %d has type %d", what, bi, b.Type)
					}
				}
				switch r.o.Strat {
				case flate.HuffmanOnlyStrategy:
					if len(b.Matches) != 0 {
						t.Failf("%s: huffman-only, but block %d has %d matches", what, bi, len(b.Matches))
					}
				case flate.HuffmanRLEStrategy:
					for _, x := range b.Matches {
						if x.Dist != 1 {
							t.Failf("%s: huffman-rle, but block %d has distance %d", what, bi, x.Dist)
						}
					}
				case flate.FixedStrategy:
					if b.Type == 2 {
						t.Failf("%s: fixed, but block %d is dynamic", what, bi)
					}
				}
				for _, x := range b.Matches {
					if x.Len < 3 || x.Len > 258 || x.Dist > 1<<uint(r.o.wbits()) {
						t.Failf("%s: match length %d distance %d", what, x.Len, x.Dist)
					}
				}
			}
			switch m.Kind {
			case kZlib:
				if int(m.CMF>>4)+8 != r.o.wbits() {
					t.Failf("%s: zlib header announces 2^%d", what, m.CMF>>4+8)
				}
				if want := zlibLevel(r.o); int(m.FLG>>6) != want {
					t.Failf("%s: FLEVEL is %d, want %d", what, m.FLG>>6, want)
				}
			case kGzip:
				want := byte(0)
				switch {
				case r.o.Strat == flate.HuffmanOnlyStrategy || r.o.Strat == flate.HuffmanRLEStrategy || r.o.level() < 2:
					want = 4
				case r.o.level() == 9:
					want = 2
				}
				if m.XFL != want {
					t.Failf("%s: XFL is %d, want %d", what, m.XFL, want)
				}
			}
		}
	})
}

func hasFlush(r *wrun, ft int) bool {
	for _, x := range r.flush {
		if x == ft {
			return true
		}
	}
	return false
}

func zlibLevel(o wOpt) int {
	switch {
	case o.Strat == flate.HuffmanOnlyStrategy || o.Strat == flate.HuffmanRLEStrategy || o.level() < 2:
		return 0
	case o.level() < 6:
		return 1
	case o.level() == 6:
		return 2
	}
	return 3
}

// P23: block sizes, and repetition.
func runP23(c *C) {
	writerRuns(c, func(o wOpt) bool { return o.Strat != flate.FixedStrategy }, func(t *T, r *wrun) {
		res := r.exec(t)
		what := fmt.Sprintf("%v %s", r.o, r.name)
		f := strictCheck(t, what, res.stream, r.o, res.data)
		blocks := 0
		for mi := range f.Members {
			m := &f.Members[mi]
			for bi, b := range m.S.Blocks {
				blocks++
				n := int64(b.OutEnd - b.OutStart)
				pieces := (n + 65534) / 65535
				if pieces == 0 {
					pieces = 1
				}
				limit := n*8 + pieces*(3+7+32)
				if b.EndBit-b.StartBit > limit {
					t.Failf("%s: block %d (type %d) takes %d bits for %d bytes; storing takes at most %d", what, bi, b.Type, b.EndBit-b.StartBit, n, limit)
				}
			}
		}
		// Few blocks: not one per call or byte.
		over := len(res.stream) - len(res.data)
		heads := 0
		for mi := range f.Members {
			m := &f.Members[mi]
			heads += m.Body - m.Start + m.End - m.Foot
		}
		if over > heads+6*blocks {
			t.Failf("%s: %d bytes became %d: overhead %d with %d blocks and %d header bytes", what, len(res.data), len(res.stream), over, blocks, heads)
		}
		if r.tag != "flushes" {
			// blocks as large as the memory level allows
			min := 1 << uint(r.o.Mem+7)
			if r.o.Mem == 0 {
				min = 1 << 16
			}
			if min > 4096 {
				min = 4096
			}
			if max := len(res.data)/min + 3; blocks > max && r.o.Mem != 0 {
				t.Failf("%s: %d bytes in %d blocks (at most %d expected)", what, len(res.data), blocks, max)
			}
		}
	})
	// repetition
	for _, k := range allKinds {
		for l := 1; l <= 9; l++ {
			for m := 1; m <= 9; m++ {
				for w := 8; w <= 15; w++ {
					if c.Quick() && (l+m+w)%4 != 0 {
						continue
					}
					o := wOpt{K: k, Lvl: l, Mem: m, W: w}
					c.CaseF("repeat", func() string { return o.String() }, func(t *T) { repeatCheck(t, o) })
				}
			}
		}
	}
}

func repeatCheck(t *T, o wOpt) {
	wsize := 1 << uint(o.W)
	cost := func(o wOpt, fl int, ps ...[]byte) int {
		r := &wrun{o: o, pieces: ps, flush: make([]int, len(ps))}
		for i := range r.flush {
			r.flush[i] = fl
		}
		res := r.exec(t)
		strictCheck(t, o.String(), res.stream, o, res.data)
		return len(res.stream)
	}
	for _, n := range []int{60, 200, 256, 500, 2000, 8000, 30000} {
		if n*4 > wsize*3 {
			continue
		}
		p := noise(n, uint64(n))
		// once: n; twice: little more
		for _, fl := range []int{-1, 0, 1, 2} {
			t.Note("%v repeat %d flush %d", o, n, fl)
			one := cost(o, fl, p)
			two := cost(o, fl, p, p)
			if two-one > n*6/10+12 {
				t.Failf("%s: the second copy costs %d of %d bytes", t.note, two-one, n)
			}
			three := cost(o, fl, p, p, p)
			if three-two > n*6/10+12 {
				t.Failf("%s: the third copy costs %d of %d bytes", t.note, three-two, n)
			}
		}
		// in one piece
		one, two := cost(o, -1, p), cost(o, -1, append(append([]byte(nil), p...), p...))
		if two-one > n*6/10+12 {
			t.Failf("%v: in one piece, the second copy costs %d of %d bytes", o, two-one, n)
		}
		// dictionary
		od := o
		od.Dict = p
		with := cost(od, -1, p)
		if with > n*6/10+34 {
			t.Failf("%v: data equal to the dictionary cost %d of %d bytes", o, with, n)
		}
		t.State(o.String(), n)
	}
	// Dictionaries around and above the window: their last window's worth, less
	// what the longest match may need, is there to refer to.
	for _, n := range []int{wsize - 1, wsize, wsize + 1, wsize + 100, 2*wsize - 1, 2 * wsize, 3*wsize + 7} {
		d := noise(n, uint64(n)*7)
		for _, l := range []int{wsize / 4, 60} {
			for _, back := range []int{l, wsize / 2, wsize*3/4 - 1} {
				if h := 1 << uint(o.Mem+11); back > h {
					back = h // what the smaller hash tables remember
				}
				if back < l || n < back {
					continue
				}
				od := o
				od.Dict = d
				p := d[n-back : n-back+l]
				t.Note("%v dictionary of %d, data of %d from %d before its end", o, n, l, back)
				if with := cost(od, -1, p); with > l*6/10+34 {
					t.Failf("%s: cost %d bytes", t.note, with)
				}
			}
		}
		t.State(o.String(), "dict", n)
	}
	// runs
	for _, b := range []byte{0, 'x'} {
		n := 5000
		got := cost(o, -1, bytes.Repeat([]byte{b}, n))
		if got > n/5 {
			t.Failf("%v: a run of %d costs %d bytes", o, n, got)
		}
	}
	// short period
	q := bytes.Repeat([]byte("abcdefgh"), 600)
	if got := cost(o, -1, q); got > len(q)/5 {
		t.Failf("%v: period 8, %d bytes cost %d", o, len(q), got)
	}
}
