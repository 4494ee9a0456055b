package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P29", Run: runP29,
		Bounds: "all sequences of 2-3 (piece, flush) pairs over 5 piece sizes x 6 flushes (none, block, partial, sync, full, finish) for 24 (96 thorough) option combinations, and longer histories whose blocks span the internal buffers; after every step the process dies with every number of bytes beyond the last synchronized one surviving, and with torn tails (zeros, 0xff, garbage, or an earlier part of the file in place of what was lost); the survivor is decoded at memory levels 1 and 9, and after a crash at a finished stream the file is continued by a new Writer",
	})
}

// crashSink is a file with a write-back cache: what was written since the last
// Sync may be lost from any byte on when the process or machine dies.
type crashSink struct {
	bytes.Buffer
	durable int
}

func (s *crashSink) Sync() error { s.durable = s.Len(); return nil }

// crashMark records what was promised when.
type crashMark struct {
	step           int
	durable, size  int // bytes that are certain to survive, bytes written
	flushed, total int // content covered by a completed flush, content written
	clean          bool
}

func crashRun(t *T, o wOpt, steps []flushStep, stride int) {
	sink := &crashSink{}
	fw := flate.NewWriter(sink, o.opts()...)
	var all []byte
	flushed, durable := 0, 0
	var marks []crashMark
	ends := map[int]int{0: 0} // file length at the end of a stream -> content length
	mark := func(i int) {
		_, clean := ends[sink.Len()]
		marks = append(marks, crashMark{i, durable, sink.Len(), flushed, len(all), clean})
	}
	mark(-1)
	open := false
	for i, s := range steps {
		writeAll(t, fw, s.data)
		all = append(all, s.data...)
		open = open || len(s.data) > 0
		mark(i)
		if s.flush < 0 {
			continue
		}
		if err := fw.Flush(flate.FlushType(s.flush)); err != nil {
			t.Failf("%s: Flush returned %v", t.note, err)
		}
		t.Step(1)
		if s.flush != 0 {
			// Durable is what the Writer had synchronized when Flush
			// returned: the promise holds for that much of the file.
			flushed, durable = len(all), sink.durable
		}
		if s.flush == 4 {
			ends[sink.Len()] = len(all)
			open = false
		}
		mark(i)
	}
	if err := fw.Close(); err != nil {
		t.Failf("%s: Close returned %v", t.note, err)
	}
	flushed, durable = len(all), sink.durable
	ends[sink.Len()] = len(all)
	mark(len(steps))
	file := sink.Bytes()

	examine := func(what string, in []byte, m *crashMark, torn bool, mem int) {
		fr := flate.NewReader(bytes.NewReader(in), o.reader(mem).opts()...)
		got, err := drainR(t, fr, nil)
		_ = fr.Close()
		t.Trace()
		if len(got) < m.flushed || !bytes.Equal(got[:m.flushed], all[:m.flushed]) {
			t.Failf("%s: %s: of the %d bytes flushed before the crash the Reader recovers %s (%v)", t.note, what, m.flushed, diffAt(got, all[:m.flushed]), err)
		}
		if torn {
			if err == io.EOF {
				t.Failf("%s: %s: the damaged file passes as complete", t.note, what)
			}
			return
		}
		if !bytes.HasPrefix(all, got) {
			t.Failf("%s: %s: the Reader delivers data that were never written: %s", t.note, what, diffAt(got, all))
		}
		n, whole := ends[len(in)]
		switch {
		case whole && (err != io.EOF || len(got) != n):
			t.Failf("%s: %s: complete streams of %d bytes decode to %d bytes and %v", t.note, what, n, len(got), err)
		case !whole && err != io.ErrUnexpectedEOF:
			t.Failf("%s: %s: the Reader ends with %v; want io.ErrUnexpectedEOF", t.note, what, err)
		}
	}
	k := 0
	for mi := range marks {
		m := &marks[mi]
		for keep := m.durable; keep <= m.size; keep++ {
			k++
			near := keep < m.durable+24 || keep > m.size-24
			if !near && keep%stride != 0 {
				continue
			}
			what := fmt.Sprintf("crash after step %d with %d of %d bytes (%d synchronized)", m.step, keep, m.size, m.durable)
			examine(what, file[:keep], m, false, 1+8*(k%2))
			t.State(mi, keep, m.flushed)
			// the rest of the file has its length but not its contents
			lost := m.size - keep
			if lost < 9 || k%3 != 0 {
				continue
			}
			tail := make([]byte, lost)
			in := concat(file[:keep], tail)
			// A tail of zeros is an empty stored block with a wrong
			// complement, or runs out of symbols: never a file's end.
			switch k / 3 % 4 {
			case 1:
				for i := keep; i < len(in); i++ {
					in[i] = 0xff
				}
			case 2:
				copy(in[keep:], noise(lost, uint64(k)))
			case 3:
				copy(in[keep:], file[:m.size])
			}
			f := refDecode(in, o.kind(), o.Dict, o.wbits())
			if f.Err == refOK {
				continue // by chance a file after all
			}
			examine(what+fmt.Sprintf(", torn (%d)", k/3%4), in, m, true, 1+8*(k/2%2))
		}
	}
	// continue the surviving file after a crash at the end of a stream
	ats := make([]int, 0, len(ends))
	for at := range ends {
		ats = append(ats, at)
	}
	sort.Ints(ats)
	for _, at := range ats {
		n := ends[at]
		if at == 0 && n == 0 && len(file) > 300 {
			continue
		}
		tail := encode(t, o, texty(40, uint64(at)))
		fr := flate.NewReader(bytes.NewReader(concat(file[:at], tail)), o.reader(1+8*(at%2)).opts()...)
		got, err := drainR(t, fr, nil)
		_ = fr.Close()
		want := concat(all[:n], texty(40, uint64(at)))
		if err != io.EOF || !bytes.Equal(got, want) {
			t.Failf("%s: continued at the end of a stream (byte %d): %s, %v", t.note, at, diffAt(got, want), err)
		}
		t.Trace()
	}
	_ = open
}

func runP29(c *C) {
	src := texty(40000, 61)
	nz := noise(20000, 62)
	pieces := [][]byte{nil, src[:1], src[100:130], concat(src[:300], nz[:60]), concat(nz[:700], src[:200])}
	type pf struct{ p, f int }
	var alpha []pf
	for p := range pieces {
		for f := -1; f < 5; f++ {
			if p == 0 && f < 0 {
				continue
			}
			alpha = append(alpha, pf{p, f})
		}
	}
	n := 0
	for _, k := range allKinds {
		for _, s := range allStrats {
			for _, l := range []int{0, 6} {
				for d := 0; d < 4; d++ {
					n++
					if c.Quick() && (n+l)%4 != 0 {
						continue
					}
					o := wOpt{K: k, Strat: s, Lvl: l, Mem: 1 + 8*(n/4%2), W: 8 + n%8}
					o.Dict = dictFor(d, o.W)
					o.Mem = []int{1, 2, 4}[n%3]
					for a0 := range alpha {
						a0 := a0
						c.CaseF("short", func() string { return fmt.Sprintf("%v/%d", o, a0) }, func(t *T) {
							var rec func(steps []flushStep, name string, depth int)
							cnt := 0
							rec = func(steps []flushStep, name string, depth int) {
								if depth == 0 {
									t.Note("%v%s", o, name)
									crashRun(t, o, steps, 29)
									return
								}
								for x := range alpha {
									cnt++
									if c.Quick() && (cnt+a0)%5 != 0 && len(steps) > 0 {
										continue
									}
									a := alpha[x]
									rec(append(steps[:len(steps):len(steps)], flushStep{pieces[a.p], a.f}), name+fmt.Sprintf(" W%d F%d", len(pieces[a.p]), a.f), depth-1)
								}
							}
							a := alpha[a0]
							st := []flushStep{{pieces[a.p], a.f}}
							nm := fmt.Sprintf(" W%d F%d", len(pieces[a.p]), a.f)
							rec(st, nm, 1)
							if a.p == 1 || a.p == 3 || !c.Quick() {
								rec(st, nm, 2)
							}
						})
					}
				}
			}
		}
	}
	// blocks larger than the buffers
	for _, k := range allKinds {
		for si, s := range allStrats {
			for _, l := range []int{0, 1, 6, 9} {
				for _, m := range []int{1, 3, 9} {
					o := wOpt{K: k, Strat: s, Lvl: l, Mem: m, W: 8 + (si+l+m)%8}
					for v := 0; v < 6; v++ {
						v := v
						if c.Quick() && (si+l+m+v)%3 != 0 {
							continue
						}
						c.CaseF("long", func() string { return fmt.Sprintf("%v/%d", o, v) }, func(t *T) {
							f := []int{1, 2, 3, 4, 2, 3}[v]
							var steps []flushStep
							for i := 0; i < 4; i++ {
								p := concat(src[i*2000:i*2000+1500*i+10], nz[i*1000:i*1000+900*(v%3)])
								steps = append(steps, flushStep{p, []int{f, -1, f, 0}[(i+v)%4]})
							}
							t.Note("%v long %d", o, v)
							crashRun(t, o, steps, c.Pick(211, 37))
						})
					}
				}
			}
		}
	}
}
