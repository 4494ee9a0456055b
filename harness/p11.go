package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P11", Run: runP11,
		Bounds: "an error at every byte offset (0..length) of every corpus file (raw/zlib/gzip/auto, all block types, multi-member, dictionary, Writer-made) x {alone, together with the last data} x {repeated, followed by EOF, followed by more data} x 15 error values (some temporary) x memory levels 1/9 x 5 slicings x 4 read sizes; a slow consumer, with 1..3 streams and every length 0..607; long streams (up to 70000 bytes) at every 97th offset",
	})
}

type customErr struct{ s string }

func (e *customErr) Error() string { return e.s }

// transient is an error that calls itself temporary.
type transient struct{ s string }

func (e *transient) Error() string   { return e.s }
func (e *transient) Temporary() bool { return true }
func (e *transient) Timeout() bool   { return true }

var readErrs = []error{
	&transient{"try again"}, syscall.EAGAIN, syscall.EINTR, os.ErrDeadlineExceeded, &fs.PathError{Op: "read", Path: "x", Err: syscall.EINTR}, io.ErrShortBuffer,
	&customErr{"custom"}, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), io.ErrClosedPipe, context.Canceled,
	fs.ErrClosed, io.ErrNoProgress, errors.New("EOF"), flate.CorruptInputError{OffsetTotal: 7, Problem: "from below"},
}

// errReader yields in[:at], then err, then what after says.
type errReader struct {
	in    []byte
	at    int
	err   error
	with  bool // the error comes with the last data
	after int  // 0: error repeats, 1: EOF, 2: the rest of the data
	chunk int
	pos   int
	done  bool
}

func (r *errReader) Read(p []byte) (int, error) {
	if r.done {
		switch r.after {
		case 0:
			return 0, r.err
		case 1:
			return 0, io.EOF
		}
		if r.pos >= len(r.in) {
			return 0, io.EOF
		}
		n := copy(p, r.in[r.pos:])
		r.pos += n
		return n, nil
	}
	n := r.at - r.pos
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.in[r.pos:r.pos+n])
	r.pos += n
	if r.pos == r.at && (r.with || n == 0) {
		r.done = true
		return n, r.err
	}
	return n, nil
}

func runP11(c *C) {
	var files []vfile
	{
		t := &T{c: c}
		if f := t.run(func(t *T) { files = validFiles(t, true) }); f != "" {
			c.Case("corpus", "corpus", func(t *T) { t.Failf("%s", f) })
			return
		}
	}
	w := &bitw{}
	big := texty(70000, 3)
	w.stored(false, big[:30000])
	w.fixed(false, lits(big[30000:40000]))
	w.autoDyn(false, lits(big[40000:60000]), false, true)
	w.stored(true, big[60000:])
	for _, k := range allKinds {
		files = append(files, vfile{fmt.Sprintf("big-%v", k), wrap(k, w.p, big, nil), rOpt{K: k}})
	}
	// corrupt ones: the corruption comes first
	for _, f := range files[:16] {
		if len(f.in) < 20 {
			continue
		}
		b := append([]byte(nil), f.in...)
		b[len(b)/2] ^= 0x41
		files = append(files, vfile{f.name + "-bad", b, f.o})
	}
	// a slow consumer: everything up to the error is decoded ahead, as far as
	// there is room, before it is read
	for streams := 1; streams <= 3; streams++ {
		for n := 0; n <= 600; n += 8 {
			streams, n := streams, n
			c.CaseF("slow", func() string { return fmt.Sprintf("%d/%d", streams, n) }, func(t *T) {
				for x := n; x < n+8; x++ {
					ei := x % len(readErrs)
					k := allKinds[x/7%3]
					if k == kRaw && streams > 1 {
						k = kZlib
					}
					var in, want []byte
					for i := 0; i < streams-1; i++ {
						w := &bitw{}
						w.fixed(true, lits([]byte("ab")))
						in = append(in, wrap(k, w.p, []byte("ab"), nil)...)
						want = append(want, "ab"...)
					}
					data := noise(x, uint64(x))
					w := &bitw{}
					if x/2%2 == 0 {
						w.stored(false, data)
					} else {
						w.fixed(false, lits(data))
						w.stored(false, nil)
					}
					w.fixed(true, lits(nil))
					in = append(in, wrap(k, w.p, data, nil)...)
					want = append(want, data...)
					// cut into the last block, or into the trailer
					in = in[:len(in)-1-x%2]
					if k == kRaw {
						in = in[:len(in)-1+x%2]
					}
					for v := 0; v < 2; v++ {
						mem := 1 + (x+v)%2
						t.Note("%d streams, %d bytes in the last, error %d after %d, mem %d, slow", streams, x, ei, len(in), mem)
						r := &errReader{in: in, at: len(in), err: readErrs[ei], with: v == 0}
						told := make(chan struct{})
						var once sync.Once
						src := readFunc(func(p []byte) (int, error) {
							n, err := r.Read(p)
							if err != nil {
								once.Do(func() { close(told) })
							}
							return n, err
						})
						got, err := drainSlow(t, flate.NewReader(src, rOpt{K: k, Mem: mem, W: 15}.opts()...), told)
						if !equalBytes(got, want) {
							t.Failf("%s: ended with %v; %s", t.note, err, diffAt(got, want))
						}
						if !sameErr(err, readErrs[ei]) {
							t.Failf("%s: ended with %T %v after %d bytes", t.note, err, err, len(got))
						}
						t.Trace()
					}
				}
				t.State("slow", streams, n)
			})
		}
	}
	sizes := []func(int) int{nil, func(int) int { return 1 }, func(i int) int { return i % 5 }, func(int) int { return 127 }}
	for fi, f := range files {
		step := 1
		if len(f.in) > 4000 {
			step = c.Pick(397, 97)
		}
		for s := 0; s <= len(f.in); s += 32 * step {
			fi, f, s, step := fi, f, s, step
			c.CaseF("offsets", func() string { return fmt.Sprintf("%s/%d", f.name, s) }, func(t *T) {
				valid := map[fmtKind]bool{}
				for _, k := range []fmtKind{f.o.K, kAuto} {
					x := refDecode(f.in, k, f.o.Dict, 15)
					valid[k] = x.Err == refOK && !x.Soft
				}
				for at := s; at < s+32*step && at <= len(f.in); at += step {
					// the model: exactly what the data before the
					// error decode to
					o := f.o
					o.W = 15
					ref := refDecode(f.in[:at], o.K, o.Dict, 15)
					for v := 0; v < 6; v++ {
						for ei, e := range readErrs {
							if step > 1 && (ei+v)%5 != 0 || c.Quick() && (ei+v+at)%2 == 0 {
								continue
							}
							o.Mem = []int{1, 9, 2}[(at+v+ei)%3]
							if f.o.K != kRaw && f.o.Dict == nil && (at+ei)%4 == 0 {
								o.K = kAuto
							} else {
								o.K = f.o.K
							}
							ref := ref
							if o.K == kAuto {
								ref = refDecode(f.in[:at], kAuto, o.Dict, 15)
								if n := len(ref.Members); n > 0 && at-ref.Members[n-1].Start == 1 {
									// not enough to tell the format
									ref.Err = refTruncated
								}
							}
							with := v%2 == 1
							if with && at == 0 {
								continue
							}
							r := &errReader{in: f.in, at: at, err: e, with: with, after: v / 2, chunk: []int{0, 1, 7, 64, 100}[(at+ei+v+fi)%5]}
							t.Note("%s: error %d (%v) at offset %d, with data %v, after %d, chunk %d, mem %d, %v", f.name, ei, e, at, with, r.after, r.chunk, o.Mem, o.K)
							got, err := decodeFrom(t, r, o, sizes[(at/2+ei)%4])
							if ref.Err == refCorrupt {
								expect(t, t.note, got, err, ref.Out, endCorrupt)
								if sameErr(err, e) {
									t.Failf("%s: the read error was reported although the data before it are corrupt", t.note)
								}
								continue
							}
							if !valid[o.K] && classify(err) == endCorrupt && !sameErr(err, e) && bytes.HasPrefix(ref.Out, got) &&
								(ref.Soft || equalBytes(got, ref.Out) && hopeless(f.in[:at], o, got)) {
								continue // already known to be corrupt
							}
							if !equalBytes(got, ref.Out) {
								t.Failf("%s: ended with %v; %s", t.note, err, diffAt(got, ref.Out))
							}
							if !sameErr(err, e) {
								t.Failf("%s: ended with %T %v after %d bytes", t.note, err, err, len(got))
							}
						}
					}
					t.State(f.name, at, len(ref.Out))
				}
			})
		}
	}
}

func equalBytes(a, b []byte) bool { return string(a) == string(b) }

type readFunc func(p []byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

// drainSlow reads everything, but nothing after the first byte until the
// source has given its error (or has been waiting for room for a while).
func drainSlow(t *T, fr *flate.Reader, told chan struct{}) (out []byte, err error) {
	defer fr.Close()
	var p [1]byte
	for i := 0; ; i++ {
		n, err := fr.Read(p[:])
		t.Step(1)
		out = append(out, p[:n]...)
		if err != nil {
			return out, err
		}
		if i < 3 || i%64 == 0 {
			select {
			case <-told:
				time.Sleep(50 * time.Microsecond)
			case <-time.After(300 * time.Microsecond):
			}
		}
	}
}
