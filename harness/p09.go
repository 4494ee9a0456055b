package main

import (
	"bytes"
	"fmt"
	"io/fs"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P09", Run: runP09,
		Bounds: "all sequences of {Write of 0/1/3/600 bytes, Flush of each of 5 types, Close, Reset, Reset with another format} of length 5 (6 thorough) for 3 configurations and length 4 (5 thorough) for 9 more, compared step by step with a state machine model; plus a final Close",
	})
}

const (
	opW0 = iota
	opW1
	opW3
	opW600
	opF0
	opF1
	opF2
	opF3
	opF4
	opClose
	opReset
	opResetF
	numOps
)

var opNames = [...]string{"W0", "W1", "W3", "W600", "Fblock", "Fpartial", "Fsync", "Ffull", "Ffinish", "Close", "Reset", "ResetFormat"}

var lifeData = concat(texty(300, 21), noise(300, 22))

// wModel is the specified state of a Writer.
type wModel struct {
	closed  bool
	started bool     // something was written or finished since construction/Reset
	open    []byte   // data of the open stream
	isOpen  bool     // a stream with data is open
	members [][]byte // finished streams
	kind    fmtKind
	endLen  int // sink length at the end of the last finished stream
}

func lifeRun(t *T, o wOpt, seq []int, final bool) {
	var sink *bytes.Buffer = &bytes.Buffer{}
	fw := flate.NewWriter(sink, o.opts()...)
	m := &wModel{kind: o.kind()}
	cur := o
	verify := func(what string) {
		// the sink holds exactly the finished members (plus a prefix of
		// the open one)
		f := refDecode(sink.Bytes(), m.kind, cur.Dict, cur.wbits())
		if !m.isOpen {
			if f.Err != refOK || len(f.Members) != len(m.members) {
				t.Failf("%s: %d streams emitted (%v %s), expected %d", what, len(f.Members), f.Err, f.Msg, len(m.members))
			}
			if len(m.members) == 0 && sink.Len() != 0 {
				t.Failf("%s: %d bytes emitted, expected none", what, sink.Len())
			}
		}
		for i, want := range m.members {
			if i >= len(f.Members) || !bytes.Equal(f.Members[i].S.Out, want) || f.Members[i].End == 0 {
				t.Failf("%s: stream %d is not complete or does not hold the %d bytes written to it", what, i, len(want))
			}
		}
		if m.isOpen && f.Err == refCorrupt {
			t.Failf("%s: corrupt output: %s", what, f.Msg)
		}
	}
	finish := func() {
		if m.isOpen || !m.started {
			m.members = append(m.members, m.open)
			m.open = nil
			m.isOpen = false
			m.started = true
		}
	}
	for i, op := range seq {
		t.Step(1)
		before := sink.Len()
		where := func() string { return fmt.Sprintf("%s: step %d %s", t.note, i, opNames[op]) }
		switch {
		case op <= opW600:
			p := lifeData[:[]int{0, 1, 3, 600}[op]]
			n, err := fw.Write(p)
			if m.closed {
				if n != 0 || err != fs.ErrClosed {
					t.Failf("%s after Close: n=%d err=%v", where(), n, err)
				}
				break
			}
			if n != len(p) || err != nil {
				t.Failf("%s: n=%d err=%v", where(), n, err)
			}
			if len(p) > 0 {
				m.isOpen = true
				m.started = true
				m.open = append(m.open[:len(m.open):len(m.open)], p...)
			} else if sink.Len() != before {
				t.Failf("%s: an empty write emitted bytes", where())
			}
		case op <= opF4:
			err := fw.Flush(flate.FlushType(op - opF0))
			if m.closed {
				if err != fs.ErrClosed {
					t.Failf("%s after Close: err=%v", where(), err)
				}
				break
			}
			if err != nil {
				t.Failf("%s: err=%v", where(), err)
			}
			if op == opF4 {
				if !m.isOpen && m.started && sink.Len() != before {
					t.Failf("%s: directly after a finished stream, %d bytes were added", where(), sink.Len()-before)
				}
				finish()
				verify(where())
				m.endLen = sink.Len()
			} else if !m.isOpen && sink.Len() != before {
				t.Failf("%s: a flush before any data emitted %d bytes", where(), sink.Len()-before)
			}
		case op == opClose:
			err := fw.Close()
			if m.closed {
				if err != fs.ErrClosed {
					t.Failf("%s after Close: err=%v", where(), err)
				}
				break
			}
			if err != nil {
				t.Failf("%s: err=%v", where(), err)
			}
			if !m.isOpen && m.started && sink.Len() != before {
				t.Failf("%s: directly after a finished stream, %d bytes were added", where(), sink.Len()-before)
			}
			finish()
			m.closed = true
			verify(where())
			m.endLen = sink.Len()
		default:
			next := &bytes.Buffer{}
			nk := m.kind
			var opts []flate.Option
			if op == opResetF {
				nk = map[fmtKind]fmtKind{kRaw: kZlib, kZlib: kGzip, kGzip: kRaw}[m.kind]
				opts = append(opts, flate.WithFormat(nk.format()))
			}
			panicked, v := t.Panics(func() { fw.Reset(next, opts...) })
			emitted := sink.Len() > m.endLen && m.isOpen
			switch {
			case panicked && (m.closed || !m.isOpen):
				t.Failf("%s: Reset panicked although no stream is open: %v", where(), v)
			case !panicked && emitted:
				t.Failf("%s: Reset in the middle of an open stream was not refused", where())
			}
			if panicked {
				if fw.UnderlyingWriter() != sink {
					t.Failf("%s: the refused Reset changed the underlying writer", where())
				}
				break
			}
			if !m.isOpen {
				verify(where())
			}
			sink = next
			before = 0
			m = &wModel{kind: nk}
			cur.K = nk
		}
		if m.closed && op != opClose && sink.Len() != before {
			t.Failf("%s: a closed Writer emitted %d bytes", where(), sink.Len()-before)
		}
		if f := fw.Format(); f != m.kind.format() {
			t.Failf("%s: Format() is %v, want %v", where(), f, m.kind)
		}
	}
	if final {
		err := fw.Close()
		if m.closed != (err == fs.ErrClosed) || (err != nil && err != fs.ErrClosed) {
			t.Failf("%s: final Close returned %v", t.note, err)
		}
		if !m.closed {
			finish()
		}
		m.closed = true
		verify(t.note + ": after the final Close")
		if n, err := fw.Write([]byte("x")); n != 0 || err != fs.ErrClosed {
			t.Failf("%s: Write after the final Close: %d, %v", t.note, n, err)
		}
		if err := fw.Flush(flate.SyncFlush); err != fs.ErrClosed {
			t.Failf("%s: Flush after the final Close: %v", t.note, err)
		}
		verify(t.note + ": after calls on the closed Writer")
	}
	t.Trace()
}

func runP09(c *C) {
	type cfg struct {
		o     wOpt
		depth int
	}
	dd := c.Pick(5, 6)
	cfgs := []cfg{
		{wOpt{K: kZlib, Strat: 0, Lvl: 6, Mem: 1, W: 8}, dd},
		{wOpt{K: kGzip, Strat: 0, Lvl: 0, Mem: 1, W: 8}, dd},
		{wOpt{K: kRaw, Strat: 3, Lvl: 6, Mem: 1, W: 9}, dd},
	}
	for _, k := range allKinds {
		for i, s := range []flate.Strategy{0, 1, 2} {
			o := wOpt{K: k, Strat: s, Lvl: []int{1, 9, 0}[i], Mem: 1 + i, W: 8 + i}
			if i == 1 {
				o.Dict = []byte("life dictionary")
			}
			cfgs = append(cfgs, cfg{o, dd - 1})
		}
	}
	for _, cf := range cfgs {
		for a := 0; a < numOps; a++ {
			for b := 0; b < numOps; b++ {
				cf, a, b := cf, a, b
				c.CaseF("sequences", func() string { return fmt.Sprintf("%v/%s,%s", cf.o, opNames[a], opNames[b]) }, func(t *T) {
					seq := make([]int, cf.depth)
					seq[0], seq[1] = a, b
					var rec func(i int)
					rec = func(i int) {
						if i == cf.depth {
							name := ""
							for _, x := range seq {
								name += " " + opNames[x]
							}
							t.Note("%v%s", cf.o, name)
							lifeRun(t, cf.o, seq, true)
							t.StateKey(t.note)
							return
						}
						for x := 0; x < numOps; x++ {
							seq[i] = x
							rec(i + 1)
						}
					}
					rec(2)
				})
			}
		}
	}
}
