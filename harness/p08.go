package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P08", Run: runP08,
		Bounds: "66000 flushes in a row of each kind, with 0, 1 or 3 bytes between; all sequences of (piece, flush) pairs, 6 piece sizes {0,1,3,100,600,5000} or, in the group \"buffer\", 0, one less, exactly, one more than and twice the size of the LZ77 buffer and 4096 (with a dictionary, pieces that repeat parts of it) x 5 flush types, or in the group \"runs\" pieces of one run of a byte, depth 2 for 64 option combinations (384 thorough) and depth 3 for some of them, without and with dictionary; runs of up to 24 one-byte writes with flushes in 12 patterns (all bit alignments); after every flush that was not a block flush nothing may be left in an underlying writer which itself buffers, and the prefix is decoded by the reference decoder and by the library's Reader, after every full flush the suffix is decoded on its own",
	})
}

var errWait = errors.New("no more data yet")

// prefixReader yields data and then an error.
type prefixReader struct {
	p   []byte
	err error
}

func (r *prefixReader) Read(b []byte) (int, error) {
	if len(r.p) == 0 {
		return 0, r.err
	}
	n := copy(b, r.p)
	r.p = r.p[n:]
	return n, nil
}

// passSink buffers: what was not followed by a Flush (or Sync) is still on
// its way.
type passSink struct {
	bytes.Buffer
	dirty int // bytes in its own buffer
	below int // bytes a Sync is needed for
}

func (s *passSink) Write(p []byte) (int, error) {
	s.dirty += len(p)
	return s.Buffer.Write(p)
}

func (s *passSink) flush() error { s.below += s.dirty; s.dirty = 0; return nil }
func (s *passSink) sync() error  { s.below = 0; return nil }

// with Flush, with Sync, and with both
type passF struct{ *passSink }

func (s passF) Flush() error { s.below = 0; s.dirty = 0; return nil }

type passS struct{ *passSink }

func (s passS) Sync() error { s.dirty = 0; return s.sync() }

type passFS struct{ *passSink }

func (s passFS) Flush() error { return s.flush() }
func (s passFS) Sync() error  { return s.sync() }

type flushStep struct {
	data  []byte
	flush int // -1 none
}

// flushRun executes steps and checks every prefix.
func flushRun(t *T, o wOpt, steps []flushStep, ownReader bool) {
	sink := &passSink{}
	var w io.Writer
	switch (len(steps[0].data) + steps[len(steps)-1].flush + len(steps)) % 3 {
	case 0:
		w = passS{sink}
	case 1:
		w = passF{sink}
	default:
		w = passFS{sink}
	}
	fw := flate.NewWriter(w, o.opts()...)
	var all []byte
	type full struct{ at, from int }
	var fulls []full
	memberStart := 0 // content offset where the open member began
	var memberEnds []int
	open := false
	started := false
	for i, s := range steps {
		writeAll(t, fw, s.data)
		all = append(all, s.data...)
		if len(s.data) > 0 {
			open = true
			started = true
		}
		if s.flush < 0 {
			continue
		}
		before := sink.Len()
		if err := fw.Flush(flate.FlushType(s.flush)); err != nil {
			t.Failf("%s: Flush returned %v", t.note, err)
		}
		t.Step(1)
		what := fmt.Sprintf("%s: after step %d (flush %d)", t.note, i, s.flush)
		if sink.dirty+sink.below != 0 {
			t.Failf("%s: %d bytes were written after the underlying writer was last flushed", what, sink.dirty+sink.below)
		}
		if !open && s.flush != 4 && sink.Len() != before {
			t.Failf("%s: a flush with no data emitted %d bytes", what, sink.Len()-before)
		}
		if s.flush == 0 {
			continue
		}
		f := refDecode(sink.Bytes(), o.kind(), o.Dict, o.wbits())
		if f.Err == refCorrupt {
			t.Failf("%s: emitted data are corrupt: %s", what, f.Msg)
		}
		if !bytes.Equal(f.Out, all) {
			t.Failf("%s: the bytes handed over do not decode to everything written: %s", what, diffAt(f.Out, all))
		}
		if ownReader {
			fr := flate.NewReader(&prefixReader{sink.Bytes(), errWait}, o.reader(1+8*(i%2)).opts()...)
			got, err := io.ReadAll(fr)
			_ = fr.Close()
			if !bytes.Equal(got, all) {
				t.Failf("%s: the Reader gets %s (%v)", what, diffAt(got, all), err)
			}
		}
		switch s.flush {
		case 2, 3:
			if open {
				m := &f.Members[len(f.Members)-1]
				nb := 0
				for nb < len(m.S.Blocks) && m.S.Blocks[nb].Complete {
					nb++
				}
				if nb == 0 || int64(sink.Len()-m.Body)*8 != m.S.Blocks[nb-1].EndBit {
					t.Failf("%s: the output does not end on a byte boundary at the end of a block", what)
				}
				if s.flush == 3 {
					fulls = append(fulls, full{sink.Len(), len(all)})
				}
			}
		case 4:
			if f.Err != refOK || len(f.Members) == 0 {
				t.Failf("%s: not a complete stream: %v %s", what, f.Err, f.Msg)
			}
			if open || !started {
				memberEnds = append(memberEnds, len(all))
				started = true
			}
			open = false
			memberStart = len(all)
		}
	}
	if err := fw.Close(); err != nil {
		t.Failf("%s: Close returned %v", t.note, err)
	}
	t.Trace()
	if open || !started {
		memberEnds = append(memberEnds, len(all))
	}
	if sink.dirty+sink.below != 0 {
		t.Failf("%s: Close did not flush the underlying writer", t.note)
	}
	_ = memberStart
	f := strictCheck(t, t.note, sink.Bytes(), o, all)
	if len(f.Members) != len(memberEnds) {
		t.Failf("%s: %d streams, expected %d", t.note, len(f.Members), len(memberEnds))
	}
	pos := 0
	for i := range f.Members {
		pos += len(f.Members[i].S.Out)
		if pos != memberEnds[i] {
			t.Failf("%s: stream %d ends at content offset %d, expected %d", t.note, i, pos, memberEnds[i])
		}
	}
	for _, fu := range fulls {
		// find the member
		pos := 0
		for i := range f.Members {
			m := &f.Members[i]
			if fu.at > m.Body && fu.at <= m.Foot {
				s := refInflate(sink.Bytes()[fu.at:], nil, 1<<uint(o.wbits()), 0)
				want := m.S.Out[fu.from-pos:]
				if s.Err != refOK || !bytes.Equal(s.Out, want) {
					t.Failf("%s: what follows the full flush at byte %d does not decode on its own: %v %s; %s", t.note, fu.at, s.Err, s.Msg, diffAt(s.Out, want))
				}
			}
			pos += len(m.S.Out)
		}
	}
}

func runP08(c *C) {
	src := texty(20000, 11)
	nz := noise(9000, 12)
	pieces := [][]byte{nil, src[:1], src[:3], src[50:150], src[:600], concat(src[:2500], nz[:1500], src[:1000])}
	type pf struct{ p, f int }
	var alpha []pf
	for p := range pieces {
		for f := 0; f < 5; f++ {
			alpha = append(alpha, pf{p, f})
		}
	}
	run := func(group string, o wOpt, depth int) {
		pieces := pieces
		if group == "buffer" {
			// pieces that just fill the LZ77 buffer
			k := 1 << uint(o.Mem+8)
			pieces = [][]byte{nil, src[:k-1], src[:k], src[:k+1], src[: 2*k : 2*k], concat(src[:4096-k], nz[:k])}
		} else if group == "runs" {
			// a run that goes on over flushes
			run := bytes.Repeat([]byte{'x'}, 5000)
			pieces = [][]byte{run[:1], run[:2], run[:3], run[:4], run[:300], concat(run[:5000], []byte("y"), run[:7])}
		} else if n := len(o.Dict); n > 0 {
			// pieces that resemble the dictionary
			tail := o.Dict[n-minInt(n, 90):]
			pieces = append([][]byte(nil), pieces...)
			pieces[2] = o.Dict[n-minInt(n, 5):]
			pieces[3] = concat(tail, []byte("."), o.Dict[:minInt(n, 40)])
			pieces[5] = concat(src[:2500], tail, nz[:1500], tail, src[:900])
		}
		// one case per (config, first step)
		for a0 := range alpha {
			a0 := a0
			c.CaseF(group, func() string { return fmt.Sprintf("%v/%d", o, a0) }, func(t *T) {
				seq := make([]int, depth)
				seq[0] = a0
				var rec func(i int)
				rec = func(i int) {
					if i == depth {
						var steps []flushStep
						name := ""
						for _, x := range seq {
							steps = append(steps, flushStep{pieces[alpha[x].p], alpha[x].f})
							name += fmt.Sprintf(" W%d F%d", len(pieces[alpha[x].p]), alpha[x].f)
						}
						t.Note("%v%s", o, name)
						flushRun(t, o, steps, seq[depth-1]%3 == 0)
						t.StateKey(t.note)
						return
					}
					for x := range alpha {
						seq[i] = x
						rec(i + 1)
					}
				}
				rec(1)
			})
		}
	}
	n := 0
	for _, k := range allKinds {
		for _, s := range allStrats {
			for _, l := range []int{0, 1, 6, 9} {
				for _, m := range []int{1, 4} {
					for d := 0; d < 4; d++ {
						n++
						if c.Quick() && (n+l)%6 != 0 {
							continue
						}
						o := wOpt{K: k, Strat: s, Lvl: l, Mem: m, W: 8 + n%8}
						o.Dict = dictFor(d, o.W)
						run("depth2", o, 2)
						if d < 2 {
							o.Mem = 1 + (n+l)%4
							run("buffer", o, 2)
							o.Mem = m
						}
						if l != 0 && d < 2 {
							run("runs", o, 2)
						}
						if m == 1 && l != 9 && d < 2 && (n+l)%c.Pick(12, 2) == 0 {
							run("depth3", o, 3)
						}
					}
				}
			}
		}
	}
	// all alignments
	pats := [][]int{{0}, {1}, {2}, {3}, {4}, {0, 1}, {0, 0, 1}, {1, 2}, {1, 3}, {0, 2}, {1, 1, 4}, {-1, 1}}
	for _, k := range allKinds {
		for _, s := range allStrats {
			o := wOpt{K: k, Strat: s, Lvl: 6, Mem: 1, W: 8}
			c.CaseF("align", func() string { return o.String() }, func(t *T) {
				for pi, pat := range pats {
					for _, by := range [][]byte{{0xff}, {'a'}, {'a', 0xff}, {0xff, 0xff, 'a'}} {
						for n := 1; n <= 24; n++ {
							var steps []flushStep
							for i := 0; i < n; i++ {
								steps = append(steps, flushStep{by, pat[i%len(pat)]})
							}
							t.Note("%v align pattern %d bytes %x n %d", o, pi, by, n)
							flushRun(t, o, steps, true)
							t.StateKey(t.note)
						}
					}
				}
			})
		}
	}
	// very many flushes
	for _, k := range allKinds {
		for f := 0; f <= 4; f++ {
			for _, per := range []int{0, 1, 3} {
				for li, l := range []int{0, 1, 6} {
					if c.Quick() && (f+per+li)%3 != int(k)%3 {
						continue
					}
					k, f, per, l := k, f, per, l
					o := wOpt{K: k, Strat: allStrats[(f+per)%4], Lvl: l, Mem: 1 + per, W: 8 + f}
					c.CaseF("many", func() string { return fmt.Sprintf("%v/%d/%d", o, f, per) }, func(t *T) {
						sink := &passSink{}
						fw := flate.NewWriter(passFS{sink}, o.opts()...)
						var all []byte
						write := func(p []byte) {
							writeAll(t, fw, p)
							all = append(all, p...)
						}
						write([]byte("begin"))
						const last = 66000
						for n := 1; n <= last; n++ {
							write(src[n%500 : n%500+per])
							if err := fw.Flush(flate.FlushType(f)); err != nil {
								t.Failf("flush %d: %v", n, err)
							}
							if sink.dirty+sink.below != 0 {
								t.Failf("flush %d: %d bytes were written after the underlying writer was last flushed", n, sink.dirty+sink.below)
							}
							t.Step(1)
							if n&(n-1) != 0 && n%10000 != 0 && n != last || f == 0 {
								continue
							}
							t.State("many", k, f, per, l, n)
							rf := refDecode(sink.Bytes(), o.kind(), nil, o.wbits())
							if rf.Err == refCorrupt || !bytes.Equal(rf.Out, all) {
								t.Failf("after flush %d: %v %s, %s", n, rf.Err, rf.Msg, diffAt(rf.Out, all))
							}
							fr := flate.NewReader(&prefixReader{sink.Bytes(), errWait}, o.reader(1+n%9).opts()...)
							got, err := io.ReadAll(fr)
							_ = fr.Close()
							if !bytes.Equal(got, all) {
								t.Failf("after flush %d: the Reader gets %s (%v)", n, diffAt(got, all), err)
							}
						}
						if err := fw.Close(); err != nil {
							t.Failf("Close: %v", err)
						}
						t.Trace()
						strictCheck(t, o.String(), sink.Bytes(), o, all)
						got, err := decodeAll(t, sink.Bytes(), o.reader(1))
						expect(t, o.String(), got, err, all, endEOF)
					})
				}
			}
		}
	}
}
