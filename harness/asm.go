package main

import (
	"encoding/binary"
	"math/bits"
	"sort"
)

// bitw assembles arbitrary DEFLATE bit streams.
type bitw struct {
	p []byte
	n int // bits written
}

func (w *bitw) bits(v uint64, n int) *bitw {
	for i := 0; i < n; i++ {
		if w.n&7 == 0 {
			w.p = append(w.p, 0)
		}
		if v>>uint(i)&1 != 0 {
			w.p[w.n>>3] |= 1 << uint(w.n&7)
		}
		w.n++
	}
	return w
}

func (w *bitw) code(c hc) { w.bits(uint64(c.rev), int(c.n)) }

func (w *bitw) align() *bitw {
	w.n = (w.n + 7) &^ 7
	return w
}

func (w *bitw) bytes(p []byte) *bitw {
	w.align()
	w.p = append(w.p, p...)
	w.n += 8 * len(p)
	return w
}

type hc struct {
	rev uint16
	n   byte
}

func canon(lens []byte) []hc {
	var count [17]int
	for _, l := range lens {
		count[l]++
	}
	count[0] = 0
	var next [17]int
	code := 0
	for l := 1; l <= 15; l++ {
		code = (code + count[l-1]) << 1
		next[l] = code
	}
	out := make([]hc, len(lens))
	for s, l := range lens {
		if l != 0 {
			out[s] = hc{bits.Reverse16(uint16(next[l])) >> (16 - l), l}
			next[l]++
		}
	}
	return out
}

// tk is a literal (Len == 0) or a match.
type tk struct {
	Lit  byte
	Len  int
	Dist int
	Alt  bool // encode length 258 as symbol 284 + 31
}

func lit(b byte) tk       { return tk{Lit: b} }
func mt(len, dist int) tk { return tk{Len: len, Dist: dist} }
func lits(p []byte) []tk {
	out := make([]tk, len(p))
	for i, b := range p {
		out[i] = lit(b)
	}
	return out
}

func lenSym(n int, alt bool) (sym, extra, nb int) {
	if n == 258 && !alt {
		return 285, 0, 0
	}
	i := sort.Search(28, func(i int) bool { return lenBase[i] > n }) - 1
	if i > 27 {
		i = 27
	}
	return 257 + i, n - lenBase[i], lenExtra[i]
}

func dstSym(d int) (sym, extra, nb int) {
	i := sort.Search(30, func(i int) bool { return dstBase[i] > d }) - 1
	return i, d - dstBase[i], dstExtra[i]
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (w *bitw) stored(final bool, p []byte) *bitw {
	w.bits(b2u(final), 1).bits(0, 2).align()
	var h [4]byte
	binary.LittleEndian.PutUint16(h[:], uint16(len(p)))
	binary.LittleEndian.PutUint16(h[2:], ^uint16(len(p)))
	return w.bytes(h[:]).bytes(p)
}

func (w *bitw) tokens(ll, d []hc, toks []tk, eob bool) *bitw {
	for _, t := range toks {
		if t.Len == 0 {
			w.code(ll[t.Lit])
			continue
		}
		s, x, n := lenSym(t.Len, t.Alt)
		w.code(ll[s])
		w.bits(uint64(x), n)
		s, x, n = dstSym(t.Dist)
		w.code(d[s])
		w.bits(uint64(x), n)
	}
	if eob {
		w.code(ll[256])
	}
	return w
}

var fixLLc, fixDc = canon(fixedLL), canon(fixedD)

func (w *bitw) fixed(final bool, toks []tk) *bitw {
	w.bits(b2u(final), 1).bits(1, 2)
	return w.tokens(fixLLc, fixDc, toks, true)
}

// clsym is one symbol of the code length sequence.
type clsym struct {
	s     int // 0..18
	extra int
}

// clPlain encodes code lengths without repeats.
func clPlain(lens []byte) []clsym {
	out := make([]clsym, len(lens))
	for i, l := range lens {
		out[i] = clsym{int(l), 0}
	}
	return out
}

// clGreedy encodes code lengths with repeats as long as possible, across the
// literal/distance boundary.
func clGreedy(lens []byte) []clsym {
	var out []clsym
	for i := 0; i < len(lens); {
		j := i
		for j < len(lens) && lens[j] == lens[i] {
			j++
		}
		run := j - i
		if lens[i] == 0 {
			for run > 0 {
				switch {
				case run >= 11:
					n := run
					if n > 138 {
						n = 138
					}
					out = append(out, clsym{18, n - 11})
					run -= n
				case run >= 3:
					out = append(out, clsym{17, run - 3})
					run = 0
				default:
					out = append(out, clsym{0, 0})
					run--
				}
			}
		} else {
			out = append(out, clsym{int(lens[i]), 0})
			run--
			for run > 0 {
				if run >= 3 {
					n := run
					if n > 6 {
						n = 6
					}
					out = append(out, clsym{16, n - 3})
					run -= n
				} else {
					out = append(out, clsym{int(lens[i]), 0})
					run--
				}
			}
		}
		i = j
	}
	return out
}

// dynHeader is everything in a dynamic block header.
type dynHeader struct {
	ll, d  []byte // code lengths; len gives HLIT/HDIST
	seq    []clsym
	cl     []byte // code length code lengths by symbol (19)
	nx     int    // number of code length code lengths sent
	rawHL  int    // if >= 0, override HLIT field
	rawHD  int
	noTree bool
}

// mkDyn builds a consistent header for the given code lengths.
func mkDyn(ll, d []byte, greedy bool) *dynHeader {
	h := &dynHeader{ll: ll, d: d, rawHL: -1, rawHD: -1}
	all := append(append([]byte(nil), ll...), d...)
	if greedy {
		h.seq = clGreedy(all)
	} else {
		h.seq = clPlain(all)
	}
	used := map[int]bool{}
	for _, s := range h.seq {
		used[s.s] = true
	}
	var syms []int
	for s := 0; s < 19; s++ {
		if used[s] {
			syms = append(syms, s)
		}
	}
	if len(syms) == 1 {
		// a complete code needs a second symbol
		o := 0
		if syms[0] == 0 {
			o = 1
		}
		syms = append(syms, o)
		sort.Ints(syms)
	}
	h.cl = balanced(19, syms, 0)
	h.nx = 19
	for h.nx > 4 && h.cl[clOrder[h.nx-1]] == 0 {
		h.nx--
	}
	return h
}

func (w *bitw) dynHead(final bool, h *dynHeader) *bitw {
	w.bits(b2u(final), 1).bits(2, 2)
	hl, hd := len(h.ll)-257, len(h.d)-1
	if h.rawHL >= 0 {
		hl = h.rawHL
	}
	if h.rawHD >= 0 {
		hd = h.rawHD
	}
	w.bits(uint64(hl), 5).bits(uint64(hd), 5).bits(uint64(h.nx-4), 4)
	for i := 0; i < h.nx; i++ {
		w.bits(uint64(h.cl[clOrder[i]]), 3)
	}
	c := canon(h.cl)
	for _, s := range h.seq {
		w.code(c[s.s])
		switch s.s {
		case 16:
			w.bits(uint64(s.extra), 2)
		case 17:
			w.bits(uint64(s.extra), 3)
		case 18:
			w.bits(uint64(s.extra), 7)
		}
	}
	return w
}

func (w *bitw) dynamic(final bool, h *dynHeader, toks []tk) *bitw {
	w.dynHead(final, h)
	return w.tokens(canon(h.ll), canon(h.d), toks, true)
}

// balanced returns code lengths of size n forming a complete code over syms
// (len(syms) >= 2), as even as possible; the rot'th symbols get the short
// codes first.
func balanced(n int, syms []int, rot int) []byte {
	out := make([]byte, n)
	k := len(syms)
	if k == 0 {
		return out
	}
	if k == 1 {
		out[syms[0]] = 1
		return out
	}
	l := bits.Len(uint(k - 1))
	short := 1<<uint(l) - k // symbols with l-1 bits
	for i := range syms {
		s := syms[(i+rot)%k]
		if i < short {
			out[s] = byte(l - 1)
		} else {
			out[s] = byte(l)
		}
	}
	return out
}

// skewed gives syms the lengths 1,2,...; at most max bits, the rest of the
// symbols share the last subtree evenly.
func skewed(n int, syms []int, max int) []byte {
	out := make([]byte, n)
	k := len(syms)
	if k <= 2 {
		return balanced(n, syms, 0)
	}
	// chain of depth c, then a balanced tree of the remaining r symbols
	for c := k - 2; c >= 0; c-- {
		r := k - c
		l := bits.Len(uint(r - 1))
		if c+l > max {
			continue
		}
		for i := 0; i < c; i++ {
			out[syms[i]] = byte(i + 1)
		}
		sub := balanced(n, syms[c:], 0)
		for _, s := range syms[c:] {
			out[s] = byte(c) + sub[s]
		}
		return out
	}
	return balanced(n, syms, 0)
}

// symsOf returns the literal/length and distance symbols that toks need.
func symsOf(toks []tk) (ll, d []int) {
	useL := map[int]bool{256: true}
	useD := map[int]bool{}
	for _, t := range toks {
		if t.Len == 0 {
			useL[int(t.Lit)] = true
			continue
		}
		s, _, _ := lenSym(t.Len, t.Alt)
		useL[s] = true
		s, _, _ = dstSym(t.Dist)
		useD[s] = true
	}
	for s := range useL {
		ll = append(ll, s)
	}
	for s := range useD {
		d = append(d, s)
	}
	sort.Ints(ll)
	sort.Ints(d)
	return
}

// trimTo cuts trailing zero lengths, keeping at least min.
func trimTo(lens []byte, min int) []byte {
	n := len(lens)
	for n > min && lens[n-1] == 0 {
		n--
	}
	return lens[:n]
}

// autoDyn writes a dynamic block for toks with balanced or skewed codes.
func (w *bitw) autoDyn(final bool, toks []tk, skew bool, greedy bool) *bitw {
	ls, ds := symsOf(toks)
	if len(ls) == 1 {
		ls = append([]int{0}, ls...)
	}
	var ll, d []byte
	if skew {
		ll, d = skewed(286, ls, 15), skewed(30, ds, 15)
	} else {
		ll, d = balanced(286, ls, 0), balanced(30, ds, 0)
	}
	return w.dynamic(final, mkDyn(trimTo(ll, 257), trimTo(d, 1), greedy), toks)
}

// apply executes tokens on a window (dict + output so far).
func applyToks(win []byte, toks []tk) []byte {
	for _, t := range toks {
		if t.Len == 0 {
			win = append(win, t.Lit)
			continue
		}
		for i := 0; i < t.Len; i++ {
			win = append(win, win[len(win)-t.Dist])
		}
	}
	return win
}

// Containers.

func zlibHeader(wbits int, level int, dict []byte) []byte {
	h := []byte{byte(wbits-8)<<4 | 8, byte(level << 6)}
	if dict != nil {
		h[1] |= 0x20
	}
	if r := (int(h[0])<<8 | int(h[1])) % 31; r != 0 {
		h[1] += byte(31 - r)
	}
	if dict != nil {
		h = binary.BigEndian.AppendUint32(h, refAdler(dict))
	}
	return h
}

func wrapZlib(body, content []byte, wbits int, dict []byte) []byte {
	out := append(zlibHeader(wbits, 2, dict), body...)
	return binary.BigEndian.AppendUint32(out, refAdler(content))
}

type gzHead struct {
	flg   byte // FTEXT and reserved bits; others derived
	mtime uint32
	xfl   byte
	os    byte
	extra []byte // nil = absent
	name  []byte
	com   []byte
	hcrc  bool
	cm    byte
	badHC uint16 // xored into the header CRC
}

func (h gzHead) bytes() []byte {
	flg := h.flg
	if h.extra != nil {
		flg |= 4
	}
	if h.name != nil {
		flg |= 8
	}
	if h.com != nil {
		flg |= 16
	}
	if h.hcrc {
		flg |= 2
	}
	cm := h.cm
	if cm == 0 {
		cm = 8
	}
	out := []byte{0x1f, 0x8b, cm, flg}
	out = binary.LittleEndian.AppendUint32(out, h.mtime)
	out = append(out, h.xfl, h.os)
	if h.extra != nil {
		out = binary.LittleEndian.AppendUint16(out, uint16(len(h.extra)))
		out = append(out, h.extra...)
	}
	if h.name != nil {
		out = append(append(out, h.name...), 0)
	}
	if h.com != nil {
		out = append(append(out, h.com...), 0)
	}
	if h.hcrc {
		out = binary.LittleEndian.AppendUint16(out, uint16(refCRC(out))^h.badHC)
	}
	return out
}

func wrapGzip(body, content []byte, h gzHead) []byte {
	out := append(h.bytes(), body...)
	out = binary.LittleEndian.AppendUint32(out, refCRC(content))
	return binary.LittleEndian.AppendUint32(out, uint32(len(content)))
}

// wrap puts a raw body in the given container.
func wrap(k fmtKind, body, content, dict []byte) []byte {
	switch k {
	case kZlib:
		return wrapZlib(body, content, 15, dict)
	case kGzip:
		return wrapGzip(body, content, gzHead{os: 3})
	}
	return append([]byte(nil), body...)
}
