package main

import (
	"bytes"
	stdflate "compress/flate"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"time"

	"github.com/chronos-tachyon/flate"
)

func (k fmtKind) format() flate.Format {
	return [...]flate.Format{flate.DefaultFormat, flate.RawFormat, flate.ZlibFormat, flate.GZIPFormat}[k]
}

// rOpt are Reader options.
type rOpt struct {
	K    fmtKind
	Mem  int
	W    int
	Dict []byte
	Tr   []flate.Tracer
}

func (o rOpt) String() string {
	return fmt.Sprintf("%v,m%d,w%d,d%d", o.K, o.Mem, o.W, len(o.Dict))
}

func (o rOpt) opts() []flate.Option {
	out := []flate.Option{flate.WithFormat(o.K.format()), flate.WithMemoryLevel(flate.MemoryLevel(o.Mem)), flate.WithWindowBits(flate.WindowBits(o.W))}
	if o.Dict != nil {
		out = append(out, flate.WithDictionary(o.Dict))
	}
	if o.Tr != nil {
		out = append(out, flate.WithTracers(o.Tr...))
	}
	return out
}

func (o rOpt) wbits() int {
	if o.W == 0 {
		return 15
	}
	return o.W
}

type ends int

const (
	endEOF ends = iota
	endUnexpected
	endCorrupt
	endOther
)

func (e ends) String() string {
	return [...]string{"EOF", "ErrUnexpectedEOF", "CorruptInputError", "other error"}[e]
}

func classify(err error) ends {
	var ce flate.CorruptInputError
	switch {
	case err == io.EOF:
		return endEOF
	case err == io.ErrUnexpectedEOF:
		return endUnexpected
	case errors.As(err, &ce):
		return endCorrupt
	}
	return endOther
}

func (e refErr) ends() ends {
	return [...]ends{endEOF, endUnexpected, endCorrupt}[e]
}

// drainR reads fr to its first error, checking the io.Reader contract, and
// that the error sticks.
func drainR(t *T, fr *flate.Reader, bufSize func(i int) int) ([]byte, error) {
	var out []byte
	var buf []byte
	zero := 0
	for i := 0; ; i++ {
		n := 4096
		if bufSize != nil {
			n = bufSize(i)
		}
		if cap(buf) < n+8 {
			buf = make([]byte, n+8)
		}
		p := buf[:n]
		nn, err := fr.Read(p)
		t.c.res.Transitions++
		if nn < 0 || nn > n {
			t.Failf("Read(%d bytes) returned n=%d", n, nn)
		}
		out = append(out, p[:nn]...)
		if err != nil {
			for k := 0; k < 3; k++ {
				n2, err2 := fr.Read(buf[:8])
				if n2 != 0 || !sameErr(err2, err) {
					t.Failf("Read returned error %v, but the Read after it returned n=%d err=%v (data %s)", err, n2, err2, hexs(buf[:n2]))
				}
			}
			return out, err
		}
		if nn == 0 && n > 0 {
			zero++
			if zero > 1000 {
				t.Failf("Read returned 0, nil a thousand times in a row")
			}
		} else {
			zero = 0
		}
		if i > 1<<22 {
			t.Failf("Read never ends: %d bytes so far", len(out))
		}
	}
}

func sameErr(a, b error) bool {
	defer func() { _ = recover() }()
	return a == b
}

// decodeAll decodes in with a fresh Reader.
//
// One in sixteen executions, chosen by the input so that a replay does the
// same, has a slow consumer: after its first byte it reads nothing until the
// input has been used up (or the Reader has had time to fill its output
// buffer), so that blocks, trailers and errors are met with output waiting.
func decodeAll(t *T, in []byte, o rOpt) ([]byte, error) {
	if (crc32.ChecksumIEEE(in)^uint32(len(in))*7+uint32(o.Mem))%16 != 0 {
		return decodeFrom(t, bytes.NewReader(in), o, nil)
	}
	br := bytes.NewReader(in)
	told := make(chan struct{})
	closed := false
	src := readFunc(func(p []byte) (int, error) {
		n, err := br.Read(p)
		if br.Len() == 0 && !closed {
			closed = true
			close(told)
		}
		return n, err
	})
	return decodeFrom(t, src, o, func(i int) int {
		switch i {
		case 0:
			return 1
		case 1:
			select {
			case <-told:
				time.Sleep(30 * time.Microsecond)
			case <-time.After(200 * time.Microsecond):
			}
		}
		return 4096
	})
}

func decodeFrom(t *T, r io.Reader, o rOpt, bufSize func(i int) int) ([]byte, error) {
	fr := flate.NewReader(r, o.opts()...)
	out, err := drainR(t, fr, bufSize)
	if cerr := fr.Close(); cerr != nil {
		t.Failf("Close returned %v", cerr)
	}
	t.Trace()
	return out, err
}

// expect compares an execution with the model.
func expect(t *T, what string, got []byte, err error, want []byte, end ends) {
	if !bytes.Equal(got, want) {
		t.Failf("%s: decoded data differ from the reference: %s (got ended with %v, want %v)", what, diffAt(got, want), err, end)
	}
	if classify(err) != end {
		t.Failf("%s: ended with %v (%v), reference says %v, after %d bytes", what, classify(err), err, end, len(got))
	}
}

func diffAt(got, want []byte) string {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	i := 0
	for i < n && got[i] == want[i] {
		i++
	}
	g, w := got[i:], want[i:]
	if len(g) > 16 {
		g = g[:16]
	}
	if len(w) > 16 {
		w = w[:16]
	}
	return fmt.Sprintf("got %d bytes, want %d; first difference at %d: got %x want %x", len(got), len(want), i, g, w)
}

// checkAgainstRef decodes in with the Reader and with the reference.
func checkAgainstRef(t *T, what string, in []byte, o rOpt) refFile {
	f := refDecode(in, o.K, o.Dict, o.wbits())
	got, err := decodeAll(t, in, o)
	expect(t, what, got, err, f.Out, f.Err.ends())
	return f
}

// wOpt are Writer options.
type wOpt struct {
	K     fmtKind // kAuto = DefaultFormat (zlib)
	Strat flate.Strategy
	Lvl   int
	Mem   int
	W     int
	Dict  []byte
	Tr    []flate.Tracer
}

var stratNames = [...]string{"def", "huff", "rle", "fixed"}

func (o wOpt) String() string {
	return fmt.Sprintf("%v,%s,l%d,m%d,w%d,d%d", o.K, stratNames[o.Strat], o.Lvl, o.Mem, o.W, len(o.Dict))
}

func (o wOpt) opts() []flate.Option {
	out := []flate.Option{flate.WithFormat(o.K.format()), flate.WithStrategy(o.Strat), flate.WithCompressLevel(flate.CompressLevel(o.Lvl)),
		flate.WithMemoryLevel(flate.MemoryLevel(o.Mem)), flate.WithWindowBits(flate.WindowBits(o.W))}
	if o.Dict != nil {
		out = append(out, flate.WithDictionary(o.Dict))
	}
	if o.Tr != nil {
		out = append(out, flate.WithTracers(o.Tr...))
	}
	return out
}

func (o wOpt) kind() fmtKind {
	if o.K == kAuto {
		return kZlib
	}
	return o.K
}

func (o wOpt) wbits() int {
	if o.W == 0 {
		return 15
	}
	return o.W
}

func (o wOpt) level() int {
	if o.Lvl < 0 {
		return 6
	}
	return o.Lvl
}

// reader returns Reader options which can read what a Writer with o writes.
func (o wOpt) reader(mem int) rOpt {
	return rOpt{K: o.kind(), Mem: mem, W: o.W, Dict: o.Dict}
}

// encode writes data in pieces and closes.
func encode(t *T, o wOpt, pieces ...[]byte) []byte {
	var sink bytes.Buffer
	fw := flate.NewWriter(&sink, o.opts()...)
	for _, p := range pieces {
		writeAll(t, fw, p)
	}
	if err := fw.Close(); err != nil {
		t.Failf("%v: Close returned %v", o, err)
	}
	t.Step(1)
	return sink.Bytes()
}

func writeAll(t *T, fw *flate.Writer, p []byte) {
	n, err := fw.Write(p)
	t.Step(1)
	if n != len(p) || err != nil {
		t.Failf("Write(%d bytes) returned n=%d err=%v", len(p), n, err)
	}
}

// strictCheck checks that stream is a strictly valid file of the Writer's
// format holding want, with n members, and returns the parse.
func strictCheck(t *T, what string, stream []byte, o wOpt, want []byte) refFile {
	f := refDecode(stream, o.kind(), o.Dict, o.wbits())
	if f.Err != refOK {
		t.Failf("%s: the strict reference decoder rejects the output: %v (%s) after %d bytes; stream %s", what, f.Err, f.Msg, len(f.Out), hexs(stream))
	}
	if f.Soft {
		t.Failf("%s: the output uses an incomplete Huffman code; stream %s", what, hexs(stream))
	}
	if !bytes.Equal(f.Out, want) {
		t.Failf("%s: strict decoding gives other data: %s", what, diffAt(f.Out, want))
	}
	return f
}

// stdDecode decodes one file with the Go standard library.
func stdDecode(stream []byte, k fmtKind, dict []byte) ([]byte, error) {
	switch k {
	case kZlib:
		var r io.ReadCloser
		var err error
		if dict != nil {
			r, err = stdzlib.NewReaderDict(bytes.NewReader(stream), dict)
		} else {
			r, err = stdzlib.NewReader(bytes.NewReader(stream))
		}
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	case kGzip:
		if dict != nil {
			return nil, errors.New("gzip with dictionary")
		}
		r, err := stdgzip.NewReader(bytes.NewReader(stream))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	}
	var r io.ReadCloser
	if dict != nil {
		r = stdflate.NewReaderDict(bytes.NewReader(stream), dict)
	} else {
		r = stdflate.NewReader(bytes.NewReader(stream))
	}
	return io.ReadAll(r)
}

// Deterministic data.

type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// noise returns n incompressible bytes.
func noise(n int, seed uint64) []byte {
	r := rng(seed)
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(r.next() >> 32)
	}
	return out
}

// noiseK returns n bytes from an alphabet of k symbols.
func noiseK(n, k int, seed uint64) []byte {
	r := rng(seed)
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(r.next() % uint64(k))
	}
	return out
}

// texty returns n bytes which compress well with matches at many distances.
func texty(n int, seed uint64) []byte {
	r := rng(seed)
	words := make([][]byte, 64)
	for i := range words {
		w := make([]byte, 2+r.next()%9)
		for k := range w {
			w[k] = 'a' + byte(r.next()%26)
		}
		words[i] = w
	}
	var out []byte
	for len(out) < n {
		out = append(out, words[r.next()%64]...)
		out = append(out, ' ')
	}
	return out[:n]
}

func zeros(n int) []byte { return make([]byte, n) }

// lucas returns data whose symbol frequencies force maximally deep Huffman
// trees: frequencies 1,1,3,4,7,11,... over k symbols, spread so that there are
// no long matches.
func lucas(k int, limit int) []byte {
	f := []int{1, 1, 3}
	for len(f) < k {
		f = append(f, f[len(f)-1]+f[len(f)-2])
	}
	var out []byte
	for i := 0; i < k; i++ {
		for n := 0; n < f[i]; n++ {
			out = append(out, byte(i*7+1))
		}
	}
	r := rng(k)
	for i := len(out) - 1; i > 0; i-- {
		j := int(r.next() % uint64(i+1))
		out[i], out[j] = out[j], out[i]
	}
	if limit > 0 && len(out) > limit {
		out = out[:limit]
	}
	return out
}

func concat(ps ...[]byte) []byte {
	var out []byte
	for _, p := range ps {
		out = append(out, p...)
	}
	return out
}

var allStrats = []flate.Strategy{flate.DefaultStrategy, flate.HuffmanOnlyStrategy, flate.HuffmanRLEStrategy, flate.FixedStrategy}
var allKinds = []fmtKind{kRaw, kZlib, kGzip}

// hopeless reports whether a file cut where in ends could not be valid
// however it went on: an early corruption report is then right too.
func hopeless(in []byte, o rOpt, out []byte) bool {
	for _, pad := range []byte{0, 0xff, 0x55} {
		p := append([]byte(nil), in...)
		for i := 0; i < 600; i++ {
			p = append(p, pad)
		}
		f := refDecode(p, o.K, o.Dict, o.wbits())
		if f.Err != refCorrupt || !bytes.Equal(f.Out, out) {
			return false
		}
	}
	return true
}

// agree compares an execution with the model f of decoding in, allowing what
// the properties leave open.
func agree(t *T, what string, in []byte, o rOpt, f refFile, got []byte, err error) {
	end := classify(err)
	if f.Soft {
		// The stream uses an incomplete code.  A decoder may refuse it
		// when it sees the code, or when an undefined code is used.
		if !bytes.HasPrefix(f.Out, got) {
			t.Failf("%s: delivered data that the stream does not contain: %s", what, diffAt(got, f.Out))
		}
		switch f.Err {
		case refOK:
			if end == endEOF && len(got) == len(f.Out) || end == endCorrupt {
				return
			}
		case refTruncated:
			if end == endUnexpected || end == endCorrupt {
				return
			}
		case refCorrupt:
			if end == endCorrupt {
				return
			}
		}
		t.Failf("%s: ended with %v (%v) after %d bytes; reference (lenient): %v %s after %d bytes; input %s", what, end, err, len(got), f.Err, f.Msg, len(f.Out), hexs(in))
	}
	if f.Err == refTruncated && end == endCorrupt && bytes.Equal(got, f.Out) && hopeless(in, o, got) {
		return
	}
	if !bytes.Equal(got, f.Out) || end != f.Err.ends() {
		t.Failf("%s: got %d bytes and %v (%v); reference: %d bytes and %v (%s); %s; input %s", what, len(got), end, err, len(f.Out), f.Err, f.Msg, diffAt(got, f.Out), hexs(in))
	}
}

// agreeRef decodes in both ways and compares.
func agreeRef(t *T, what string, in []byte, o rOpt) refFile {
	f := refDecode(in, o.K, o.Dict, o.wbits())
	got, err := decodeAll(t, in, o)
	agree(t, what+" "+o.String(), in, o, f, got, err)
	return f
}

// agreePrefix is agreeRef for the beginning of a valid file, which must never
// be called corrupt.
func agreePrefix(t *T, what string, in []byte, o rOpt) refFile {
	f := refDecode(in, o.K, o.Dict, o.wbits())
	got, err := decodeAll(t, in, o)
	if !f.Soft && f.Err != refCorrupt && classify(err) == endCorrupt {
		t.Failf("%s %s: the beginning of a valid file was called corrupt: %v; input %s", what, o, err, hexs(in))
	}
	agree(t, what+" "+o.String(), in, o, f, got, err)
	return f
}
