package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P10", Run: runP10,
		Bounds: "every byte position of the output as the point of failure (all positions up to 3000 bytes of output, 40 around each call boundary and every 17th beyond) x {nothing accepted, partially accepted, all accepted} x {once, forever} x 13 errors in turn x 8 call scripts x 24 option combinations; single incompressible writes larger than a stored block at memory levels 8 and 9; every call of the underlying Flush and Sync failing x 29 error values (EINVAL in 3 wrappings, 15 other system errors, the io, fs, os and context sentinels, wrapped and plain); followed by Write/Flush/Close probes, Close, Reset (before or after Close) and a full reuse",
	})
}

var errSink = errors.New("sink failed")

// errLater is what a failed sink reports to whoever tries again.
var errLater = errors.New("sink used again after it failed")

type faultSink struct {
	buf     bytes.Buffer
	failAt  int // total bytes accepted before the failure; -1 = never
	mode    int // 0: partial write then error; 1: whole write refused; 2: write accepted and error
	forever bool
	err     error
	failed  bool
	calls   int
	after   int // write calls after the failure
}

func (s *faultSink) Write(p []byte) (int, error) {
	s.calls++
	if s.failed {
		s.after++
		if s.forever {
			return 0, errLater
		}
	}
	if s.failAt >= 0 && !s.failed && s.buf.Len()+len(p) > s.failAt {
		s.failed = true
		n := 0
		switch s.mode {
		case 0:
			n = s.failAt - s.buf.Len()
		case 2:
			n = len(p)
		}
		s.buf.Write(p[:n])
		return n, s.err
	}
	return s.buf.Write(p)
}

type flushSink struct {
	faultSink
	flushErr, syncErr []error
	nf, ns            int
}

func (s *flushSink) Flush() error {
	s.nf++
	if s.nf <= len(s.flushErr) {
		return s.flushErr[s.nf-1]
	}
	return nil
}

func (s *flushSink) Sync() error {
	s.ns++
	if s.ns <= len(s.syncErr) {
		return s.syncErr[s.ns-1]
	}
	return nil
}

type scriptOp struct {
	data  []byte
	flush int // -1 = write
}

// playScript plays ops until the first error; reports which op failed.
func playScript(t *T, fw *flate.Writer, ops []scriptOp) (int, int, error) {
	for i, op := range ops {
		t.c.res.Transitions++
		if op.flush < 0 {
			n, err := fw.Write(op.data)
			if err != nil {
				return i, n, err
			}
			if n != len(op.data) {
				t.Failf("%s: Write(%d) returned %d, nil", t.note, len(op.data), n)
			}
			continue
		}
		if err := fw.Flush(flate.FlushType(op.flush)); err != nil {
			return i, 0, err
		}
	}
	return -1, 0, nil
}

// probe checks the error state after a failure with want.
func probe(t *T, fw *flate.Writer, want error, s *faultSink, resetFirst bool) {
	what := t.note
	before := s.buf.Len()
	for k := 0; k < 2; k++ {
		if n, err := fw.Write([]byte("more data after the failure")); n != 0 || !sameErr(err, want) {
			t.Failf("%s: later Write returned %d, %v; want %v", what, n, err, want)
		}
		for f := 0; f < 5; f++ {
			if err := fw.Flush(flate.FlushType(f)); !sameErr(err, want) {
				t.Failf("%s: later Flush(%d) returned %v; want %v", what, f, err, want)
			}
		}
	}
	if !resetFirst {
		if err := fw.Close(); !sameErr(err, want) {
			t.Failf("%s: Close returned %v; want %v", what, err, want)
		}
		if err := fw.Close(); err != fs.ErrClosed {
			t.Failf("%s: second Close returned %v; want fs.ErrClosed", what, err)
		}
		if n, err := fw.Write([]byte("x")); n != 0 || err != fs.ErrClosed {
			t.Failf("%s: Write after Close returned %d, %v; want fs.ErrClosed", what, n, err)
		}
		if err := fw.Flush(flate.SyncFlush); err != fs.ErrClosed {
			t.Failf("%s: Flush after Close returned %v; want fs.ErrClosed", what, err)
		}
	}
	_ = before
	t.Step(14)
}

// reuse resets a failed Writer and checks it behaves as new.
func reuse(t *T, fw *flate.Writer, o wOpt, want []byte) {
	var sink bytes.Buffer
	fw.Reset(&sink)
	for i, p := range [][]byte{[]byte("after the fault "), texty(900, 6)} {
		if n, err := fw.Write(p); n != len(p) || err != nil {
			t.Failf("%s: after Reset, Write returned %d, %v", t.note, n, err)
		}
		if i == 0 {
			if err := fw.Flush(flate.SyncFlush); err != nil {
				t.Failf("%s: after Reset, Flush returned %v", t.note, err)
			}
		}
	}
	if err := fw.Close(); err != nil {
		t.Failf("%s: after Reset, Close returned %v", t.note, err)
	}
	if !bytes.Equal(sink.Bytes(), want) {
		t.Failf("%s: after Reset the Writer emits something else than a new one: %s", t.note, diffAt(sink.Bytes(), want))
	}
}

func runP10(c *C) {
	d1, d2, d3 := texty(700, 31), noise(1200, 32), concat(texty(3000, 33), noise(2000, 34))
	w := func(p []byte) scriptOp { return scriptOp{p, -1} }
	f := func(k int) scriptOp { return scriptOp{nil, k} }
	scripts := []struct {
		name string
		ops  []scriptOp
	}{
		{"W", []scriptOp{w(d1)}},
		{"WW", []scriptOp{w(d2), w(d1)}},
		{"WFsWFs", []scriptOp{w(d1), f(2), w(d2), f(2)}},
		{"WFpWFb", []scriptOp{w(d1), f(1), w(d1), f(0), w([]byte("z")), f(1)}},
		{"WFnWFfW", []scriptOp{w(d1), f(4), w(d2), f(3), w(d1)}},
		{"FnWFn", []scriptOp{f(4), w([]byte("tiny")), f(4), w([]byte("tiny"))}},
		{"bigW", []scriptOp{w(d3), w(d3)}},
		{"smallWs", []scriptOp{w(d1[:3]), w(d1[:1]), f(2), w(nil), w(d1[:100]), f(2), w(d1[:50])}},
	}
	var opts []wOpt
	for ki, k := range allKinds {
		for si, s := range allStrats {
			for _, l := range []int{0, 6} {
				o := wOpt{K: k, Strat: s, Lvl: l, Mem: 1 + (ki+si)%3, W: 8 + si}
				if (ki+si)%3 == 2 {
					o.Dict = texty(200, 33)
				}
				opts = append(opts, o)
			}
		}
	}
	// Pieces larger than a stored block, at the largest buffers.
	nsmall := len(scripts)
	scripts = append(scripts, struct {
		name string
		ops  []scriptOp
	}{"hugeW", []scriptOp{w(noise(140000, 35)), f(2), w(noise(70000, 36))}})
	nopts := len(opts)
	for i, k := range allKinds {
		opts = append(opts, wOpt{K: k, Lvl: 6, Mem: 9, W: 15}, wOpt{K: k, Strat: allStrats[1+i%3], Lvl: 6 * (i % 2), Mem: 8 + i%2, W: 12})
	}
	errs := []error{errSink, io.EOF, io.ErrUnexpectedEOF, fs.ErrClosed, context.Canceled, &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, syscall.EINVAL,
		io.ErrShortWrite, syscall.EINTR, syscall.EAGAIN, io.ErrClosedPipe, io.ErrNoProgress, os.ErrDeadlineExceeded}
	for oi, o := range opts {
		for si, sc := range scripts {
			if (oi >= nopts) != (si >= nsmall) || c.Quick() && oi < nopts && (oi+si)%3 != 0 {
				continue
			}
			oi, o, si, sc := oi, o, si, sc
			for part := 0; part < 4; part++ {
				part := part
				c.CaseF("write", func() string { return fmt.Sprintf("%v/%s/%d", o, sc.name, part) }, func(t *T) {
					// fault-free run
					ref := &faultSink{failAt: -1}
					fw := flate.NewWriter(ref, o.opts()...)
					var marks []int
					for _, op := range sc.ops {
						if i, _, err := playScript(t, fw, []scriptOp{op}); i >= 0 {
							t.Failf("fault-free run fails: %v", err)
						}
						marks = append(marks, ref.buf.Len())
					}
					if err := fw.Close(); err != nil {
						t.Failf("fault-free run: Close: %v", err)
					}
					want := ref.buf.Bytes()
					// what a fresh Writer emits for the reuse
					var rs bytes.Buffer
					nw := flate.NewWriter(&rs, o.opts()...)
					_, _ = nw.Write([]byte("after the fault "))
					_ = nw.Flush(flate.SyncFlush)
					_, _ = nw.Write(texty(900, 6))
					_ = nw.Close()

					check := func(pos, mode int, forever bool, ei int) {
						e := errs[ei%len(errs)]
						t.Note("%v %s: failure at byte %d of %d, mode %d, forever %v, %v", o, sc.name, pos, len(want), mode, forever, e)
						s := &faultSink{failAt: pos, mode: mode, forever: forever, err: e}
						fw := flate.NewWriter(s, o.opts()...)
						i, n, err := playScript(t, fw, sc.ops)
						inClose := false
						if i < 0 {
							inClose = true
							err = fw.Close()
							if err == nil {
								t.Failf("%s: the failure was not reported by any call", t.note)
							}
						} else if !s.failed {
							t.Failf("%s: call %d fails with %v before the sink did", t.note, i, err)
						}
						if !sameErr(err, e) {
							t.Failf("%s: the call in progress returned %v", t.note, err)
						}
						if !inClose {
							if sc.ops[i].flush < 0 && (n < 0 || n >= len(sc.ops[i].data)) {
								t.Failf("%s: Write(%d) returned n=%d with the error", t.note, len(sc.ops[i].data), n)
							}
							probe(t, fw, e, s, pos%3 == 0)
						} else {
							if err := fw.Close(); err != fs.ErrClosed {
								t.Failf("%s: second Close returned %v; want fs.ErrClosed", t.note, err)
							}
							if n, err := fw.Write([]byte("x")); n != 0 || err != fs.ErrClosed {
								t.Failf("%s: Write after Close returned %d, %v", t.note, n, err)
							}
						}
						if !bytes.HasPrefix(want, s.buf.Bytes()) {
							t.Failf("%s: the sink accepted something else than a prefix of the fault-free output: %s", t.note, diffAt(s.buf.Bytes(), want))
						}
						if s.after != 0 {
							t.Failf("%s: the sink got %d more Write calls after it had failed", t.note, s.after)
						}
						// The reported failure must come from the call
						// during which the sink failed: calls before it
						// must have been identical.
						reuse(t, fw, o, rs.Bytes())
						if !bytes.HasPrefix(want, s.buf.Bytes()) {
							t.Failf("%s: Reset wrote to the old sink", t.note)
						}
						t.Trace()
						t.State(si, pos, mode, forever, o.String())
					}
					near := func(p int) bool {
						for _, m := range marks {
							if p > m-40 && p < m+40 {
								return true
							}
						}
						return p < 40 || p > len(want)-40
					}
					for pos := 0; pos < len(want); pos++ {
						if pos%4 != part {
							continue
						}
						if oi >= nopts {
							// around the boundaries of the output buffer
							m := pos & (1<<uint(o.Mem+7) - 1)
							if m > 1 && m < 1<<uint(o.Mem+7)-1 && pos%c.Pick(9973, 997) != 0 && !(near(pos) && pos%7 == 0) {
								continue
							}
						} else if pos > c.Pick(600, 3000) && !near(pos) && pos%c.Pick(41, 17) != 0 {
							continue
						}
						for mode := 0; mode < 3; mode++ {
							if mode == 2 && pos%3 != 0 {
								continue
							}
							check(pos, mode, (pos+mode)%2 == 0, pos*5+pos/13+oi)
							if !c.Quick() {
								check(pos, mode, (pos+mode)%2 != 0, pos*7+pos/13+oi+3)
							}
						}
					}
				})
			}
		}
	}
	// Flush and Sync of the sink
	type ferr struct {
		name string
		err  error
		inv  bool
	}
	ferrs := []ferr{
		{"plain", errSink, false},
		{"EOF", io.EOF, false},
		{"EINVAL", syscall.EINVAL, true},
		{"PathError(EINVAL)", &os.PathError{Op: "sync", Path: "p", Err: syscall.EINVAL}, true},
		{"wrapped EINVAL", fmt.Errorf("sync: %w", syscall.EINVAL), true},
		{"EIO", syscall.EIO, false},
		{"ENOTSUP", syscall.ENOTSUP, false},
		{"fs.ErrClosed", fs.ErrClosed, false},
		{"PathError(fs.ErrClosed)", &os.PathError{Op: "sync", Path: "p", Err: fs.ErrClosed}, false},
		{"fs.ErrInvalid", fs.ErrInvalid, false},
		{"PathError(fs.ErrInvalid)", &os.PathError{Op: "sync", Path: "p", Err: fs.ErrInvalid}, false},
		{"context.Canceled", context.Canceled, false},
		{"io.ErrClosedPipe", io.ErrClosedPipe, false},
		{"io.ErrShortWrite", io.ErrShortWrite, false},
		{"wrapped EOF", fmt.Errorf("sync: %w", io.EOF), false},
		{"timeout", os.ErrDeadlineExceeded, false},
	}
	for _, e := range []syscall.Errno{syscall.EBADF, syscall.ENOSPC, syscall.EROFS, syscall.EINTR, syscall.EAGAIN, syscall.ENOSYS, syscall.EOPNOTSUPP, syscall.EDQUOT, syscall.EPIPE, syscall.EPERM, syscall.ESPIPE, syscall.ENOTTY, syscall.ECANCELED} {
		ferrs = append(ferrs, ferr{e.Error(), &os.PathError{Op: "sync", Path: "p", Err: e}, false})
	}
	scripts, opts = scripts[:nsmall], opts[:nopts]
	for oi, o := range opts {
		oi, o := oi, o
		if c.Quick() && oi%2 == 1 {
			continue
		}
		c.CaseF("flushsync", func() string { return o.String() }, func(t *T) {
			for _, sc := range scripts {
				ref := &flushSink{faultSink: faultSink{failAt: -1}}
				fw := flate.NewWriter(ref, o.opts()...)
				playScript(t, fw, sc.ops)
				_ = fw.Close()
				nf, ns := ref.nf, ref.ns
				want := ref.buf.Bytes()
				var rs bytes.Buffer
				nw := flate.NewWriter(&rs, o.opts()...)
				_, _ = nw.Write([]byte("after the fault "))
				_ = nw.Flush(flate.SyncFlush)
				_, _ = nw.Write(texty(900, 6))
				_ = nw.Close()
				if nf == 0 || ns == 0 {
					t.Failf("%v %s: Flush and Sync of the underlying writer are not called (%d, %d)", o, sc.name, nf, ns)
				}
				for which := 0; which < 2; which++ {
					n := []int{nf, ns}[which]
					for at := 0; at < n; at++ {
						for fi, fe := range ferrs {
							if fi > 6 && c.Quick() && (fi+at+oi)%4 != 0 && sc.name != "W" {
								continue
							}
							t.Note("%v %s: %s %d of %d fails with %s", o, sc.name, []string{"Flush", "Sync"}[which], at, n, fe.name)
							s := &flushSink{faultSink: faultSink{failAt: -1}}
							list := make([]error, at+1)
							list[at] = fe.err
							if which == 0 {
								s.flushErr = list
							} else {
								s.syncErr = list
							}
							fw := flate.NewWriter(s, o.opts()...)
							i, _, err := playScript(t, fw, sc.ops)
							closed := false
							if i < 0 {
								err = fw.Close()
								closed = true
							}
							if fe.inv && which == 1 {
								if err != nil {
									t.Failf("%s: reported as %v", t.note, err)
								}
								if !bytes.Equal(s.buf.Bytes(), want) {
									t.Failf("%s: changes the output: %s", t.note, diffAt(s.buf.Bytes(), want))
								}
								continue
							}
							if !sameErr(err, fe.err) {
								t.Failf("%s: call in progress returned %v", t.note, err)
							}
							if !closed {
								probe(t, fw, fe.err, &s.faultSink, at%2 == 0)
							} else if err := fw.Close(); err != fs.ErrClosed {
								t.Failf("%s: second Close returned %v", t.note, err)
							}
							if !bytes.HasPrefix(want, s.buf.Bytes()) {
								t.Failf("%s: output is not a prefix of the fault-free one", t.note)
							}
							reuse(t, fw, o, rs.Bytes())
							t.Trace()
							t.StateKey(t.note)
						}
					}
				}
			}
		})
	}
}
