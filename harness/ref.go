package main

import (
	"encoding/binary"
	"fmt"
)

// A strict, deliberately simple reference decoder for RFC 1950/1951/1952.

type refErr int

const (
	refOK refErr = iota
	refTruncated
	refCorrupt
)

func (e refErr) String() string { return [...]string{"ok", "truncated", "corrupt"}[e] }

type match struct{ Pos, Len, Dist int }

type refBlock struct {
	Type     int // 0 stored 1 fixed 2 dynamic 3 reserved
	Final    bool
	StartBit int64
	EndBit   int64
	OutStart int
	OutEnd   int
	Lits     int
	Matches  []match
	CL       []byte // code length code lengths, in symbol order
	LL, D    []byte
	NumLL    int
	NumD     int
	NumX     int
	XF       [19]int // how often each code length symbol occurs
	Complete bool    // ended normally
}

type refStream struct {
	Out    []byte
	Err    refErr
	Msg    string
	Blocks []refBlock
	EndBit int64
	// ElemBit is where the element being decoded last starts: a block (its
	// header, stored lengths or trees) or a symbol with what belongs to it.
	ElemBit int64
	// Soft is set when the stream uses something on whose treatment
	// decoders legitimately differ: an incomplete code with two or more
	// symbols, or a literal/length code without an end-of-block symbol.
	Soft bool
	Tail []byte // window contents: dict + out
}

type bitr struct {
	p   []byte
	pos int64
}

type refStop struct {
	e   refErr
	msg string
}

func (b *bitr) bit() uint32 {
	i := b.pos >> 3
	if i >= int64(len(b.p)) {
		panic(refStop{refTruncated, "unexpected end of data"})
	}
	v := uint32(b.p[i]>>(uint(b.pos)&7)) & 1
	b.pos++
	return v
}

func (b *bitr) bits(n int) uint32 {
	if i := b.pos >> 3; i+8 <= int64(len(b.p)) && n <= 32 {
		v := binary.LittleEndian.Uint64(b.p[i:]) >> (uint(b.pos) & 7)
		b.pos += int64(n)
		return uint32(v & (1<<uint(n) - 1))
	}
	var v uint32
	for i := 0; i < n; i++ {
		v |= b.bit() << uint(i)
	}
	return v
}

// hcode is a canonical Huffman code for decoding: counts per length and
// symbols in order.
type hcode struct {
	count [16]int
	syms  []int
	left  int // code space left over; 0 = complete, < 0 = over-subscribed
	n     int
}

func newHcode(lens []byte) *hcode {
	h := &hcode{}
	for _, l := range lens {
		h.count[l]++
	}
	h.n = len(lens) - h.count[0]
	h.count[0] = 0
	left := 1
	for l := 1; l <= 15; l++ {
		left <<= 1
		left -= h.count[l]
		if left < 0 {
			h.left = -1
			return h
		}
	}
	h.left = left
	var offs [16]int
	for l := 1; l < 15; l++ {
		offs[l+1] = offs[l] + h.count[l]
	}
	h.syms = make([]int, h.n)
	for s, l := range lens {
		if l != 0 {
			h.syms[offs[l]] = s
			offs[l]++
		}
	}
	return h
}

func (h *hcode) decode(b *bitr, what string) int {
	code, first, index := 0, 0, 0
	for l := 1; l <= 15; l++ {
		code |= int(b.bit())
		count := h.count[l]
		if code-count < first {
			return h.syms[index+(code-first)]
		}
		index += count
		first += count
		first <<= 1
		code <<= 1
	}
	panic(refStop{refCorrupt, "undefined " + what + " code"})
}

var (
	lenBase  = [29]int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
	lenExtra = [29]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
	dstBase  = [30]int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
	dstExtra = [30]int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}
	clOrder  = [19]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}

	fixedLL, fixedD = mkFixed()
	fixedHLL        = newHcode(fixedLL)
	fixedHD         = newHcode(fixedD)
)

func mkFixed() (ll, d []byte) {
	ll = make([]byte, 288)
	for i := range ll {
		switch {
		case i < 144:
			ll[i] = 8
		case i < 256:
			ll[i] = 9
		case i < 280:
			ll[i] = 7
		default:
			ll[i] = 8
		}
	}
	d = make([]byte, 32)
	for i := range d {
		d[i] = 5
	}
	return
}

// refInflate decodes one raw DEFLATE stream starting at byte 0 of in.
func refInflate(in []byte, dict []byte, wsize int, maxOut int) (r refStream) {
	b := &bitr{p: in}
	if len(dict) > wsize {
		dict = dict[len(dict)-wsize:]
	}
	win := append([]byte(nil), dict...)
	base := len(dict)
	var blk *refBlock
	defer func() {
		if x := recover(); x != nil {
			s, ok := x.(refStop)
			if !ok {
				panic(x)
			}
			r.Err, r.Msg = s.e, s.msg
		}
		r.Out = win[base:]
		r.Tail = win
		r.EndBit = b.pos
		if blk != nil {
			blk.OutEnd = len(win) - base
		}
	}()
	for {
		start := b.pos
		r.ElemBit = start
		final := b.bits(1) == 1
		typ := int(b.bits(2))
		r.Blocks = append(r.Blocks, refBlock{Type: typ, Final: final, StartBit: start, OutStart: len(win) - base})
		blk = &r.Blocks[len(r.Blocks)-1]
		switch typ {
		case 0:
			b.pos = (b.pos + 7) &^ 7
			n := int(b.bits(16))
			m := int(b.bits(16))
			if n != m^0xffff {
				panic(refStop{refCorrupt, "stored length mismatch"})
			}
			i := int(b.pos >> 3)
			if i+n > len(in) {
				win = append(win, in[i:]...)
				b.pos = int64(len(in)) * 8
				panic(refStop{refTruncated, "unexpected end of data"})
			}
			win = append(win, in[i:i+n]...)
			b.pos += int64(n) * 8
			blk.Lits += n
		case 1, 2:
			hll, hd := fixedHLL, fixedHD
			if typ == 2 {
				hll, hd = refTrees(b, blk, &r)
			} else {
				blk.LL, blk.D = fixedLL, fixedD
			}
			for {
				r.ElemBit = b.pos
				s := hll.decode(b, "literal/length")
				if s < 256 {
					win = append(win, byte(s))
					blk.Lits++
					if maxOut > 0 && len(win) > maxOut+base {
						panic(refStop{refCorrupt, "output limit"})
					}
					continue
				}
				if s == 256 {
					break
				}
				s -= 257
				if s >= 29 {
					panic(refStop{refCorrupt, "invalid length symbol"})
				}
				n := lenBase[s] + int(b.bits(lenExtra[s]))
				ds := hd.decode(b, "distance")
				if ds >= 30 {
					panic(refStop{refCorrupt, "invalid distance symbol"})
				}
				d := dstBase[ds] + int(b.bits(dstExtra[ds]))
				if d > len(win) {
					panic(refStop{refCorrupt, "distance too far back"})
				}
				if d > wsize {
					panic(refStop{refCorrupt, "distance beyond window"})
				}
				blk.Matches = append(blk.Matches, match{len(win) - base, n, d})
				if maxOut > 0 && len(win)+n > maxOut+base {
					panic(refStop{refCorrupt, "output limit"})
				}
				for ; n > 0; n-- {
					win = append(win, win[len(win)-d])
				}
			}
		default:
			panic(refStop{refCorrupt, "reserved block type"})
		}
		blk.EndBit = b.pos
		blk.OutEnd = len(win) - base
		blk.Complete = true
		if final {
			return
		}
	}
}

func refTrees(b *bitr, blk *refBlock, r *refStream) (*hcode, *hcode) {
	nll := int(b.bits(5)) + 257
	nd := int(b.bits(5)) + 1
	nx := int(b.bits(4)) + 4
	blk.NumLL, blk.NumD, blk.NumX = nll, nd, nx
	if nll > 286 || nd > 30 {
		panic(refStop{refCorrupt, "too many length or distance symbols"})
	}
	cl := make([]byte, 19)
	for i := 0; i < nx; i++ {
		cl[clOrder[i]] = byte(b.bits(3))
	}
	blk.CL = cl
	hx := newHcode(cl)
	if hx.left < 0 {
		panic(refStop{refCorrupt, "over-subscribed code length code"})
	}
	if hx.left > 0 {
		r.Soft = true
	}
	lens := make([]byte, nll+nd)
	for i := 0; i < len(lens); {
		s := hx.decode(b, "code length")
		blk.XF[s]++
		var prev byte
		var n int
		switch {
		case s < 16:
			lens[i] = byte(s)
			i++
			continue
		case s == 16:
			if i == 0 {
				panic(refStop{refCorrupt, "repeat with no previous length"})
			}
			prev = lens[i-1]
			n = 3 + int(b.bits(2))
		case s == 17:
			n = 3 + int(b.bits(3))
		default:
			n = 11 + int(b.bits(7))
		}
		if i+n > len(lens) {
			panic(refStop{refCorrupt, "repeat past the end"})
		}
		for ; n > 0; n-- {
			lens[i] = prev
			i++
		}
	}
	blk.LL = lens[:nll:nll]
	blk.D = lens[nll:]
	if blk.LL[256] == 0 {
		r.Soft = true
	}
	hll := newHcode(blk.LL)
	hd := newHcode(blk.D)
	if hll.left < 0 {
		panic(refStop{refCorrupt, "over-subscribed literal/length code"})
	}
	if hd.left < 0 {
		panic(refStop{refCorrupt, "over-subscribed distance code"})
	}
	if hll.left > 0 {
		r.Soft = true
	}
	if hd.left > 0 && !(hd.n == 0 || (hd.n == 1 && hd.count[1] == 1)) {
		r.Soft = true
	}
	return hll, hd
}

// Containers.

type fmtKind int

const (
	kAuto fmtKind = iota
	kRaw
	kZlib
	kGzip
)

func (k fmtKind) String() string { return [...]string{"auto", "raw", "zlib", "gzip"}[k] }

type refMember struct {
	Kind   fmtKind
	Start  int
	Body   int // offset of the DEFLATE data
	Foot   int // offset of the trailer
	End    int
	S      refStream
	CMF    byte
	FLG    byte
	DictID uint32
	Mtime  uint32
	XFL    byte
	OS     byte
	Extra  []byte
	Name   []byte
	Com    []byte
	HasX   bool
	HasN   bool
	HasC   bool
	HasHC  bool
	Adler  uint32
	CRC    uint32
}

type refFile struct {
	Out     []byte
	Err     refErr
	Msg     string
	Members []refMember
	Soft    bool
	Elem    int // offset of the element being decoded last (body excepted)
	Pos     int // offset reached
}

func refAdler(p []byte) uint32 {
	a, b := uint32(1), uint32(0)
	for _, c := range p {
		a += uint32(c)
		if a >= 65521 {
			a -= 65521
		}
		b += a
		if b >= 65521 {
			b -= 65521
		}
	}
	return b<<16 | a
}

var crcTab = mkCRC()

func mkCRC() (crcTab [256]uint32) {
	for i := range crcTab {
		c := uint32(i)
		for k := 0; k < 8; k++ {
			if c&1 != 0 {
				c = 0xedb88320 ^ (c >> 1)
			} else {
				c >>= 1
			}
		}
		crcTab[i] = c
	}
	return
}

func refCRC(p []byte) uint32 {
	c := ^uint32(0)
	for _, x := range p {
		c = crcTab[byte(c)^x] ^ (c >> 8)
	}
	return ^c
}

// refDecode decodes a whole file of concatenated streams, the way a Reader
// with the given format, dictionary and window is documented to.
func refDecode(in []byte, kind fmtKind, dict []byte, wbits int) (f refFile) {
	pos := 0
	defer func() {
		if x := recover(); x != nil {
			s, ok := x.(refStop)
			if !ok {
				panic(x)
			}
			f.Err, f.Msg = s.e, s.msg
		}
		f.Pos = pos
	}()
	need := func(n int) []byte {
		f.Elem = pos
		if pos+n > len(in) {
			panic(refStop{refTruncated, "unexpected end of data"})
		}
		p := in[pos : pos+n]
		pos += n
		return p
	}
	corrupt := func(format string, v ...interface{}) {
		panic(refStop{refCorrupt, fmt.Sprintf(format, v...)})
	}
	if len(in) == 0 {
		return
	}
	for pos < len(in) {
		f.Members = append(f.Members, refMember{Start: pos, Kind: kind})
		m := &f.Members[len(f.Members)-1]
		if kind == kAuto {
			m.Kind = kRaw
			if rest := in[pos:]; len(rest) >= 2 {
				if rest[0] == 0x1f && rest[1] == 0x8b {
					m.Kind = kGzip
				} else if rest[0]&15 == 8 && (int(rest[0])<<8|int(rest[1]))%31 == 0 {
					m.Kind = kZlib
				}
			}
		}
		switch m.Kind {
		case kZlib:
			p := need(2)
			m.CMF, m.FLG = p[0], p[1]
			if (int(p[0])<<8|int(p[1]))%31 != 0 {
				corrupt("zlib header check")
			}
			if p[0]&15 != 8 {
				corrupt("zlib method")
			}
			if int(p[0]>>4)+8 > wbits {
				corrupt("zlib window")
			}
			if p[1]&0x20 != 0 {
				m.DictID = binary.BigEndian.Uint32(need(4))
				if dict == nil {
					corrupt("dictionary needed")
				}
				if m.DictID != refAdler(dict) {
					corrupt("dictionary mismatch")
				}
			} else if dict != nil {
				corrupt("dictionary not announced")
			}
		case kGzip:
			p := need(10)
			if p[0] != 0x1f || p[1] != 0x8b {
				corrupt("gzip magic")
			}
			if p[2] != 8 {
				corrupt("gzip method")
			}
			if p[3]&0xe0 != 0 {
				corrupt("gzip reserved flags")
			}
			m.FLG = p[3]
			m.Mtime = binary.LittleEndian.Uint32(p[4:])
			m.XFL, m.OS = p[8], p[9]
			if m.FLG&4 != 0 {
				m.HasX = true
				n := int(binary.LittleEndian.Uint16(need(2)))
				m.Extra = need(n)
			}
			strz := func() []byte {
				start := pos
				for need(1)[0] != 0 {
				}
				return in[start : pos-1]
			}
			if m.FLG&8 != 0 {
				m.HasN = true
				m.Name = strz()
			}
			if m.FLG&16 != 0 {
				m.HasC = true
				m.Com = strz()
			}
			if m.FLG&2 != 0 {
				m.HasHC = true
				c := uint16(refCRC(in[m.Start:pos]))
				if binary.LittleEndian.Uint16(need(2)) != c {
					corrupt("gzip header CRC")
				}
			}
		}
		m.Body = pos
		m.S = refInflate(in[pos:], dict, 1<<uint(wbits), 0)
		f.Out = append(f.Out, m.S.Out...)
		f.Soft = f.Soft || m.S.Soft
		if m.S.Err != refOK {
			panic(refStop{m.S.Err, m.S.Msg})
		}
		pos += int((m.S.EndBit + 7) / 8)
		m.Foot = pos
		m.Adler = refAdler(m.S.Out)
		m.CRC = refCRC(m.S.Out)
		switch m.Kind {
		case kZlib:
			if binary.BigEndian.Uint32(need(4)) != m.Adler {
				corrupt("zlib trailer")
			}
		case kGzip:
			p := need(8)
			if binary.LittleEndian.Uint32(p) != m.CRC {
				corrupt("gzip CRC")
			}
			if binary.LittleEndian.Uint32(p[4:]) != uint32(len(m.S.Out)) {
				corrupt("gzip length")
			}
		}
		m.End = pos
	}
	return
}
