package main

import (
	"bytes"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"io"

	"github.com/chronos-tachyon/flate"
)

// Streams whose sizes do not fit 32 bits, and counts that do not fit 16.

const hugeBlock = 65535

// hugeBlocks stored blocks are 4 GiB less one byte; what follows them, with
// back-references, goes beyond.
const hugeBlocks = 1 << 32 / hugeBlock

// hugeSrc generates a stream: head, n stored blocks of the pattern, tail.
type hugeSrc struct {
	parts [][]byte
	n     int // how often the middle part is repeated
	part  int
	pos   int
	done  int
}

func (s *hugeSrc) Read(p []byte) (int, error) {
	k := 0
	for k < len(p) {
		if s.part >= len(s.parts) {
			if k == 0 {
				return 0, io.EOF
			}
			break
		}
		cur := s.parts[s.part]
		m := copy(p[k:], cur[s.pos:])
		k += m
		s.pos += m
		if s.pos == len(cur) {
			s.pos = 0
			if s.part == 1 {
				s.done++
				if s.done < s.n {
					continue
				}
			}
			s.part++
		}
	}
	return k, nil
}

// hugeReader decodes more than 4 GiB; trailer, if not nil, changes the trailer.
func hugeReader(t *T, kind fmtKind, mem int, trailer func(tr []byte)) {
	pat := noise(hugeBlock, 77)
	w := &bitw{}
	w.stored(false, pat)
	block := w.p
	w = &bitw{}
	toks := append(lits([]byte("the end")), mt(258, 32768), mt(258, 32767), mt(3, 1), lit('!'), mt(100, 30000))
	w.fixed(true, toks)
	end := applyToks(append([]byte(nil), pat...), toks)[len(pat):]
	ad, cr := adler32.New(), crc32.NewIEEE()
	for i := 0; i < hugeBlocks; i++ {
		if kind == kZlib {
			_, _ = ad.Write(pat)
		} else {
			_, _ = cr.Write(pat)
		}
		if i%4096 == 0 {
			t.c.crumb.tick()
		}
	}
	_, _ = ad.Write(end)
	_, _ = cr.Write(end)
	total := uint64(hugeBlocks)*hugeBlock + uint64(len(end))
	var head, tail []byte
	tail = append(tail, w.p...)
	foot := len(tail)
	switch kind {
	case kZlib:
		head = zlibHeader(15, 2, nil)
		tail = binary.BigEndian.AppendUint32(tail, ad.Sum32())
	case kGzip:
		head = gzHead{os: 3, name: []byte("huge")}.bytes()
		tail = binary.LittleEndian.AppendUint32(tail, cr.Sum32())
		tail = binary.LittleEndian.AppendUint32(tail, uint32(total))
	default:
		w := &bitw{}
		head = w.stored(false, nil).p
	}
	if trailer != nil {
		trailer(tail[foot:])
	}
	src := &hugeSrc{parts: [][]byte{head, block, tail}, n: hugeBlocks}
	rec := &evRec{}
	keep := []flate.Event{}
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamEndEvent || e.Type == flate.StreamCloseEvent || e.Type == flate.StreamHeaderEvent {
			rec.OnEvent(e)
			keep = append(keep, e)
		}
	})
	fr := flate.NewReader(src, rOpt{K: kind, Mem: mem, W: 15, Tr: []flate.Tracer{tr}}.opts()...)
	buf := make([]byte, hugeBlock)
	var pos uint64
	var err error
	for {
		var n int
		n, err = fr.Read(buf)
		for q := buf[:n]; len(q) > 0; {
			var want []byte
			if pos < hugeBlocks*hugeBlock {
				want = pat[pos%hugeBlock:]
			} else if d := pos - hugeBlocks*hugeBlock; d < uint64(len(end)) {
				want = end[d:]
			} else {
				t.Failf("%v: more than %d bytes of data", kind, total)
			}
			m := minInt(len(want), len(q))
			if !bytes.Equal(q[:m], want[:m]) {
				t.Failf("%v: wrong data near offset %d", kind, pos)
			}
			q = q[m:]
			pos += uint64(m)
		}
		if err != nil {
			break
		}
		if pos>>22 != (pos-uint64(n))>>22 {
			t.c.crumb.tick()
			t.Step(1)
		}
	}
	if cerr := fr.Close(); cerr != nil {
		t.Failf("Close returned %v", cerr)
	}
	if pos != total {
		t.Failf("%v: %d of %d bytes, then %v", kind, pos, total, err)
	}
	want := endEOF
	if trailer != nil {
		want = endCorrupt
	}
	if classify(err) != want {
		t.Failf("%v: %d bytes end with %v, want %v", kind, total, err, want)
	}
	t.Trace()
	comp := uint64(len(head)) + uint64(hugeBlocks)*uint64(len(block)) + uint64(len(tail))
	nclose := 0
	for _, e := range keep {
		switch e.Type {
		case flate.StreamEndEvent:
			if e.OutputBytesStream != total || e.OutputBytesTotal != total || e.InputBytesStream != comp-uint64(len(tail)-foot) {
				t.Failf("%v: end event with %d/%d bytes in and %d/%d bytes out; the stream has %d and %d", kind, e.InputBytesStream, e.InputBytesTotal, e.OutputBytesStream, e.OutputBytesTotal, comp, total)
			}
		case flate.StreamCloseEvent:
			nclose++
			if e.OutputBytesStream != total || e.OutputBytesTotal != total || e.InputBytesStream != comp || e.InputBytesTotal != comp {
				t.Failf("%v: close event with %d/%d bytes in and %d/%d bytes out; the stream has %d and %d", kind, e.InputBytesStream, e.InputBytesTotal, e.OutputBytesStream, e.OutputBytesTotal, comp, total)
			}
		}
	}
	if (nclose == 1) != (trailer == nil) {
		t.Failf("%v: %d close events", kind, nclose)
	}
	t.State("huge reader", kind, mem)
}

// hugeWriter writes more than 4 GiB and decodes them with the standard
// library, or with the Reader.
func hugeWriter(t *T, o wOpt, own bool) {
	pat := noise(1<<20, 5)
	pr, pw := io.Pipe()
	werr := make(chan error, 1)
	var evs []flate.Event
	o.Tr = []flate.Tracer{flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamEndEvent || e.Type == flate.StreamCloseEvent {
			evs = append(evs, e)
		}
	})}
	n := 1<<12 + 1
	cnt := &countW{w: pw}
	go func() {
		fw := flate.NewWriter(cnt, o.opts()...)
		var err error
		for i := 0; i < n && err == nil; i++ {
			_, err = fw.Write(pat)
		}
		if e := fw.Close(); err == nil {
			err = e
		}
		werr <- err
		_ = pw.CloseWithError(err)
	}()
	var r io.Reader
	var err error
	if own {
		r = flate.NewReader(pr, o.reader(9).opts()...)
	} else if o.K == kGzip {
		r, err = stdgzip.NewReader(pr)
	} else {
		r, err = stdzlib.NewReader(pr)
	}
	if err != nil {
		t.Failf("%v: %v", o, err)
	}
	buf := make([]byte, 1<<16)
	var pos uint64
	for {
		var k int
		k, err = r.Read(buf)
		for q := buf[:k]; len(q) > 0; {
			want := pat[pos%uint64(len(pat)):]
			m := minInt(len(want), len(q))
			if !bytes.Equal(q[:m], want[:m]) {
				t.Failf("%v: wrong data near offset %d", o, pos)
			}
			q = q[m:]
			pos += uint64(m)
		}
		if err != nil {
			break
		}
		t.c.crumb.tick()
	}
	total := uint64(n) * uint64(len(pat))
	if pos != total || err != io.EOF {
		t.Failf("%v: %d of %d bytes read back, then %v", o, pos, total, err)
	}
	if err := <-werr; err != nil {
		t.Failf("%v: the Writer failed: %v", o, err)
	}
	if len(evs) != 2 || evs[0].InputBytesStream != total || evs[1].InputBytesTotal != total || evs[1].OutputBytesStream != cnt.n || evs[1].OutputBytesTotal != cnt.n {
		t.Failf("%v: the last events report %+v; %d bytes became %d", o, evs, total, cnt.n)
	}
	t.Trace()
	t.State("huge writer", o.String(), own)
}

type countW struct {
	w io.Writer
	n uint64
}

func (c *countW) Write(p []byte) (int, error) {
	n, err := c.w.Write(p)
	c.n += uint64(n)
	return n, err
}

// manyStreams decodes more streams than 16 bits count.
func manyStreams(t *T, kind fmtKind, mem int) {
	const n = 70000
	w := &bitw{}
	body := w.fixed(true, lits([]byte("q"))).p
	one := wrap(kind, body, []byte("q"), nil)
	last := uint(0)
	closes := 0
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamCloseEvent {
			last = e.NumStreams
			closes++
		}
	})
	src := &hugeSrc{parts: [][]byte{one, one, one}, n: n - 2}
	got, err := decodeFrom(t, src, rOpt{K: kind, Mem: mem, Tr: []flate.Tracer{tr}}, nil)
	if len(got) != n || err != io.EOF || len(bytes.Trim(got, "q")) != 0 {
		t.Failf("%d streams of one byte decode to %d bytes, then %v", n, len(got), err)
	}
	if last != n || closes != n {
		t.Failf("%d streams: the last one is number %d, %d were closed", n, last, closes)
	}
	// and the Writer
	var sink bytes.Buffer
	o := wOpt{K: kind, Lvl: 1, Mem: 1, W: 8, Tr: []flate.Tracer{tr}}
	last, closes = 0, 0
	fw := flate.NewWriter(&sink, o.opts()...)
	for i := 0; i < n; i++ {
		writeAll(t, fw, []byte("q"))
		if err := fw.Flush(flate.FinishFlush); err != nil {
			t.Failf("Flush returned %v", err)
		}
	}
	if err := fw.Close(); err != nil {
		t.Failf("Close returned %v", err)
	}
	if last != n || closes != n {
		t.Failf("Writer: %d streams: the last one is number %d, %d were closed", n, last, closes)
	}
	f := refDecode(sink.Bytes(), kind, nil, 15)
	if f.Err != refOK || len(f.Members) != n || len(f.Out) != n {
		t.Failf("Writer: %d streams of one byte: %d streams, %d bytes, %s", n, len(f.Members), len(f.Out), f.Msg)
	}
	t.State("many", kind)
}

// hugeCases adds the cases of one property; they come first, since they take
// longest.
func hugeCases(c *C) {
	switch c.prop {
	case "P03":
		for i, k := range allKinds {
			c.CaseF("huge", func() string { return k.String() }, func(t *T) { hugeReader(t, k, 9-i*2, nil) })
		}
	case "P05":
		muts := []func(p []byte){
			func(p []byte) { copy(p[4:], []byte{0xff, 0xff, 0xff, 0xff}) },
			func(p []byte) { p[4] ^= 1 },
			func(p []byte) { copy(p[4:], []byte{0, 0, 0, 0}) },
		}
		for i, m := range muts {
			c.CaseF("huge", func() string { return fmt.Sprint(i) }, func(t *T) { hugeReader(t, kGzip, 7, m) })
		}
		c.CaseF("huge", func() string { return "good" }, func(t *T) { hugeReader(t, kGzip, 8, nil) })
	case "P20":
		c.CaseF("huge", func() string { return "reader" }, func(t *T) { hugeReader(t, kZlib, 9, nil) })
		c.CaseF("huge", func() string { return "writer" }, func(t *T) {
			hugeWriter(t, wOpt{K: kZlib, Strat: flate.HuffmanRLEStrategy, Lvl: 0, Mem: 9}, false)
		})
		for _, k := range allKinds {
			c.CaseF("many", func() string { return k.String() }, func(t *T) { manyStreams(t, k, 1) })
		}
	case "P02":
		for i, o := range []wOpt{
			{K: kGzip, Strat: flate.HuffmanRLEStrategy, Lvl: 0, Mem: 9},
			{K: kZlib, Strat: flate.HuffmanRLEStrategy, Lvl: 0, Mem: 9},
			{K: kGzip, Lvl: 1, Mem: 9},
		} {
			if c.Quick() && i > 0 {
				break
			}
			c.CaseF("huge", o.String, func(t *T) { hugeWriter(t, o, false) })
		}
	case "P01":
		o := wOpt{K: kGzip, Strat: flate.HuffmanRLEStrategy, Lvl: 0, Mem: 9}
		c.CaseF("huge", o.String, func(t *T) { hugeWriter(t, o, true) })
	case "P13":
		for _, k := range []fmtKind{kRaw, kZlib, kGzip} {
			c.CaseF("many", func() string { return k.String() }, func(t *T) { manyStreams(t, k, 3) })
		}
	}
}
