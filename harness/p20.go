package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"

	"github.com/chronos-tachyon/flate"
	"github.com/rs/zerolog"
)

func init() {
	register(&Prop{
		ID: "P20", Run: runP20,
		Bounds: "Writer: every use of the generic Writer sweep (formats, strategies, levels, memory levels, windows, dictionaries, all sequences of three flush types, boundary lengths, all short strings), its events compared with an independent parse of the bytes it wrote; sink failures at every byte of the output for 24 option combinations; Reader: the corpus of hand-assembled and Writer-made files, dynamic block headers of every HLIT x HDIST x HCLEN, padded, every truncation, every single-bit flip, every violation class, concatenations, x memory levels x slice sizes of the source; events of three tracers compared (and, for every 16th run of a case and every run of the empty streams, with the lines of the Log tracer); headers of dynamic blocks as the encoder sent them (trailing zero lengths, redundant counts), headers kept past the event; more than 4 GiB and 70000 streams, read and written; events of one Writer and one Reader over every history of up to 4 uses (5 thorough) out of 6, Reset in between; one event model (grammar, counters, types, flags, code lengths, footers, headers) for both",
	})
}

// trueEvents renders what a tracer must see for f up to its failure: the
// events that must be there, and those that may follow at the point of failure.
type expEvent struct {
	typ     flate.EventType
	stream  int
	blk     *refBlock
	m       *refMember
	opt     bool // may be absent; nothing but optional events follows
	inS, ou int64
}

func trueEvents(f *refFile) []expEvent {
	var out []expEvent
	for i := range f.Members {
		m := &f.Members[i]
		last := i == len(f.Members)-1 && f.Err != refOK
		out = append(out, expEvent{typ: flate.StreamBeginEvent, stream: i, m: m})
		if last && m.Body == 0 && len(m.S.Blocks) == 0 && m.S.Err == refOK && m.S.EndBit == 0 {
			// the header failed
			break
		}
		out = append(out, expEvent{typ: flate.StreamHeaderEvent, stream: i, m: m})
		for bi := range m.S.Blocks {
			b := &m.S.Blocks[bi]
			if last && !b.Complete && (b.EndBit == 0 && b.Type == 0 && m.S.EndBit < b.StartBit+3) {
				// not even its first three bits
				break
			}
			opt := !b.Complete
			out = append(out, expEvent{typ: flate.BlockBeginEvent, stream: i, m: m, blk: b, opt: opt && b.Type == 3})
			if b.Type == 1 || b.Type == 2 && (b.Complete || b.LL != nil) {
				out = append(out, expEvent{typ: flate.BlockTreesEvent, stream: i, m: m, blk: b, opt: opt && b.Type == 2})
			}
			if b.Complete {
				out = append(out, expEvent{typ: flate.BlockEndEvent, stream: i, m: m, blk: b})
			}
		}
		if m.S.Err != refOK {
			break
		}
		// The end is announced before the trailer is checked.
		out = append(out, expEvent{typ: flate.StreamEndEvent, stream: i, m: m, opt: m.End == 0, inS: int64(m.Foot - m.Start), ou: int64(len(m.S.Out))})
		if m.End == 0 {
			break
		}
		out = append(out, expEvent{typ: flate.StreamCloseEvent, stream: i, m: m, inS: int64(m.End - m.Start), ou: int64(len(m.S.Out))})
	}
	return out
}

func sizesEqual(got flate.SizeList, want []byte) bool {
	return bytes.Equal(trimTo([]byte(got), 0), trimTo(want, 0))
}

// checkEvents compares the events with the truth.  writer selects which side
// is the compressed one; cut allows the events to stop early (the Writer
// failed), soft that the stream fails where the code is incomplete.
func checkEvents(t *T, what string, evs []flate.Event, f *refFile, writer, cut, soft bool) {
	exp := trueEvents(f)
	var prev flate.Event
	var totIn, totOut int64 // of the streams before this one
	n := 0
	for i, e := range evs {
		if i > 0 {
			if e.InputBytesTotal < prev.InputBytesTotal || e.OutputBytesTotal < prev.OutputBytesTotal || e.NumStreams < prev.NumStreams {
				t.Failf("%s: event %d (%v): a counter went back: %d/%d/%d after %d/%d/%d", what, i, e.Type, e.InputBytesTotal, e.OutputBytesTotal, e.NumStreams, prev.InputBytesTotal, prev.OutputBytesTotal, prev.NumStreams)
			}
			if e.Type != flate.StreamBeginEvent && (e.InputBytesStream < prev.InputBytesStream || e.OutputBytesStream < prev.OutputBytesStream) {
				t.Failf("%s: event %d (%v): a stream counter went back", what, i, e.Type)
			}
		}
		prev = e
		if n < len(exp) && exp[n].opt && exp[n].typ != e.Type {
			n++
		}
		if n >= len(exp) {
			t.Failf("%s: event %d (%v, stream %d) has nothing to report (the stream %v: %s); %s", what, i, e.Type, e.NumStreams, f.Err, f.Msg, evTypes(evs))
		}
		x := exp[n]
		n++
		w := fmt.Sprintf("%s: event %d (%v)", what, i, e.Type)
		if e.Type != x.typ {
			t.Failf("%s: want %v of stream %d; %s", w, x.typ, x.stream+1, evTypes(evs))
		}
		if e.NumStreams != uint(x.stream+1) {
			t.Failf("%s: stream number %d, want %d", w, e.NumStreams, x.stream+1)
		}
		if e.Type != flate.StreamBeginEvent && e.Format != x.m.Kind.format() {
			t.Failf("%s: format %v, want %v", w, e.Format, x.m.Kind)
		}
		if (e.Header != nil) != (e.Type == flate.StreamHeaderEvent) || (e.Footer != nil) != (e.Type == flate.StreamEndEvent) ||
			(e.Block != nil) != (x.blk != nil) || (e.Trees != nil) != (e.Type == flate.BlockTreesEvent) {
			t.Failf("%s: header %v block %v trees %v footer %v", w, e.Header != nil, e.Block != nil, e.Trees != nil, e.Footer != nil)
		}
		switch e.Type {
		case flate.StreamBeginEvent:
			if e.InputBytesStream != 0 || e.OutputBytesStream != 0 {
				t.Failf("%s: the stream begins with counters %d, %d", w, e.InputBytesStream, e.OutputBytesStream)
			}
			if !writer && (int64(e.InputBytesTotal) != totIn || int64(e.OutputBytesTotal) != totOut) {
				t.Failf("%s: the stream begins at totals %d, %d; the streams before took %d, %d", w, e.InputBytesTotal, e.OutputBytesTotal, totIn, totOut)
			}
		case flate.StreamHeaderEvent:
			checkHeaderTruth(t, w, e.Header, x.m)
		}
		if x.blk != nil {
			if e.Block.IsFinal != x.blk.Final || int(e.Block.Type) != (x.blk.Type+1)%4 {
				t.Failf("%s: block %v final %v, want type %d final %v", w, e.Block.Type, e.Block.IsFinal, x.blk.Type, x.blk.Final)
			}
		}
		if e.Trees != nil {
			if !sizesEqual(e.Trees.LiteralLengthSizes, x.blk.LL) || !sizesEqual(e.Trees.DistanceSizes, x.blk.D) {
				t.Failf("%s: code lengths %x %x, want %x %x", w, []byte(e.Trees.LiteralLengthSizes), []byte(e.Trees.DistanceSizes), x.blk.LL, x.blk.D)
			}
			if x.blk.Type == 2 {
				if !sizesEqual(e.Trees.CodeSizes, x.blk.CL) {
					t.Failf("%s: code length code %x, want %x", w, []byte(e.Trees.CodeSizes), x.blk.CL)
				}
				if int(e.Trees.CodeCount) != x.blk.NumX || int(e.Trees.LiteralLengthCount) != x.blk.NumLL || int(e.Trees.DistanceCount) != x.blk.NumD {
					t.Failf("%s: counts %d %d %d, want %d %d %d", w, e.Trees.CodeCount, e.Trees.LiteralLengthCount, e.Trees.DistanceCount, x.blk.NumX, x.blk.NumLL, x.blk.NumD)
				}
			}
		}
		if e.Footer != nil && (uint32(e.Footer.Adler32) != x.m.Adler || uint32(e.Footer.CRC32) != x.m.CRC) {
			t.Failf("%s: checksums %v %v, want %#08x %#08x", w, e.Footer.Adler32, e.Footer.CRC32, x.m.Adler, x.m.CRC)
		}
		if e.Type == flate.StreamEndEvent || e.Type == flate.StreamCloseEvent {
			comp, plain := x.inS, x.ou
			gc, gp, tc, tp := e.InputBytesStream, e.OutputBytesStream, e.InputBytesTotal, e.OutputBytesTotal
			if writer {
				gc, gp, tc, tp = gp, gc, tp, tc
			}
			if int64(gc) != comp || int64(gp) != plain {
				t.Failf("%s: reports %d compressed and %d plain bytes, want %d and %d", w, gc, gp, comp, plain)
			}
			if int64(tc) != totIn+comp || int64(tp) != totOut+plain {
				t.Failf("%s: reports totals of %d compressed and %d plain bytes, want %d and %d", w, tc, tp, totIn+comp, totOut+plain)
			}
			if e.Type == flate.StreamCloseEvent {
				totIn += comp
				totOut += plain
			}
		}
	}
	if cut || soft {
		return
	}
	for ; n < len(exp); n++ {
		if !exp[n].opt {
			t.Failf("%s: no %v event for stream %d (%d events; the file: %v %s); %s", what, exp[n].typ, exp[n].stream+1, len(evs), f.Err, f.Msg, evTypes(evs))
		}
	}
}

func evTypes(evs []flate.Event) string {
	s := "events:"
	for i, e := range evs {
		if i > 40 {
			return s + "..."
		}
		s += fmt.Sprintf(" %v/%d", e.Type, e.NumStreams)
	}
	return s
}

func checkHeaderTruth(t *T, w string, h *flate.Header, m *refMember) {
	switch m.Kind {
	case kZlib:
		if int(h.WindowBits) != int(m.CMF>>4)+8 {
			t.Failf("%s: window bits %d, the stream says %d", w, h.WindowBits, int(m.CMF>>4)+8)
		}
	case kGzip:
		if h.FileName != string(m.Name) || h.Comment != string(m.Com) {
			t.Failf("%s: name %q comment %q, the stream says %q %q", w, h.FileName, h.Comment, m.Name, m.Com)
		}
		mt := int64(0)
		if !h.LastModified.IsZero() {
			mt = h.LastModified.Unix()
		}
		if mt != int64(m.Mtime) {
			t.Failf("%s: time %d, the stream says %d", w, mt, m.Mtime)
		}
		if (h.DataType == flate.TextData) != (m.FLG&1 != 0) {
			t.Failf("%s: data type %v, flags %#x", w, h.DataType, m.FLG)
		}
	}
}

// sameLog compares what the Log tracer wrote with the events.
func sameLog(t *T, what string, log []byte, evs []flate.Event) {
	rest := log
	for i, e := range evs {
		line := rest
		if j := bytes.IndexByte(rest, '\n'); j >= 0 {
			line, rest = rest[:j], rest[j+1:]
		} else {
			rest = nil
		}
		var l struct {
			Level string
			Event json.RawMessage
		}
		if err := json.Unmarshal(line, &l); err != nil || l.Level != "trace" {
			t.Failf("%s: event %d (%v) is logged as %q: %v", what, i, e.Type, shorten(string(line), 300), err)
		}
		js, err := json.Marshal(e)
		if err != nil {
			t.Failf("%s: event %d as JSON: %v", what, i, err)
		}
		if !bytes.Equal(js, l.Event) {
			var x, y interface{}
			if json.Unmarshal(js, &x) != nil || json.Unmarshal(l.Event, &y) != nil || !reflect.DeepEqual(x, y) {
				t.Failf("%s: event %d is %s, the log says %s", what, i, shorten(string(js), 500), shorten(string(l.Event), 500))
			}
		}
	}
	if len(bytes.TrimSpace(rest)) != 0 {
		t.Failf("%s: the log has more than the %d events: %s", what, len(evs), shorten(string(rest), 300))
	}
}

var logEvery int

// three tracers which must see the same
func threeTracers(mk func(tr []flate.Tracer)) (*evRec, func(t *T, what string)) {
	a, b, c := &evRec{}, &evRec{}, &evRec{}
	var log bytes.Buffer
	var extra []flate.Tracer
	// now and then also what the Log tracer makes of it
	if logEvery++; logEvery%16 == 0 {
		extra = []flate.Tracer{flate.Log(zerolog.New(&log).Level(zerolog.TraceLevel))}
	}
	var order []int
	a.hook = func(flate.Event) { order = append(order, 0) }
	b.hook = func(flate.Event) { order = append(order, 1) }
	c.hook = func(flate.Event) { order = append(order, 2) }
	var h flate.Header
	mk(append([]flate.Tracer{a, flate.CaptureHeader(&h), flate.NoOpTracer{}, b, flate.TracerFunc(c.OnEvent)}, extra...))
	return a, func(t *T, what string) {
		if extra != nil {
			sameLog(t, what, log.Bytes(), a.evs)
		}
		if len(a.evs) != len(b.evs) || len(a.evs) != len(c.evs) {
			t.Failf("%s: tracers saw %d, %d and %d events", what, len(a.evs), len(b.evs), len(c.evs))
		}
		for _, r := range []*evRec{a, b, c} {
			if s := r.kept(); s != "" {
				t.Failf("%s: %s", what, s)
			}
		}
		var last *flate.Header
		for i := range a.evs {
			k := fullKey(a.evs[i])
			if k2 := fullKey(b.evs[i]); k != k2 {
				t.Failf("%s: tracers saw different events: %s / %s", what, shorten(k, 600), shorten(k2, 600))
			}
			if k2 := fullKey(c.evs[i]); k != k2 {
				t.Failf("%s: tracers saw different events: %s / %s", what, shorten(k, 600), shorten(k2, 600))
			}
			if a.evs[i].Type == flate.StreamHeaderEvent {
				last = a.evs[i].Header
			}
		}
		if last != nil && headerKey(h) != headerKey(*last) {
			t.Failf("%s: captured header %s, the last stream's is %s", what, headerKey(h), headerKey(*last))
		}
	}
}

func fullKey(e flate.Event) string {
	return fmt.Sprintf("%d %d %d %d %s", e.InputBytesTotal, e.InputBytesStream, e.OutputBytesTotal, e.OutputBytesStream, evKey(e, true))
}

// readEvents decodes in and checks all events.
func readEvents(t *T, what string, in []byte, o rOpt, slice int) {
	f := refDecode(in, o.K, o.Dict, o.wbits())
	rec, same := threeTracers(func(tr []flate.Tracer) { o.Tr = tr })
	var got []byte
	var err error
	if slice == 0 {
		got, err = decodeFrom(t, bytes.NewReader(in), o, nil)
	} else {
		got, err = decodeFrom(t, &slicer{in: in, chunk: func(int) int { return slice }}, o, func(int) int { return 1 + slice*3 })
	}
	_ = got
	same(t, what)
	soft := f.Soft
	if f.Err == refTruncated && classify(err) == endCorrupt {
		soft = true // refused early, see hopeless
	}
	checkEvents(t, what, rec.evs, &f, false, false, soft)
	t.State(what, f.Err, f.Msg, len(rec.evs))
}

func runP20(c *C) {
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	hugeCases(c)
	// Writer
	writerRuns(c, nil, func(t *T, r *wrun) {
		var rec *evRec
		var same func(t *T, what string)
		var trs []flate.Tracer
		rec, same = threeTracers(func(tr []flate.Tracer) { trs = tr })
		res := r.exec(t, trs...)
		what := fmt.Sprintf("%v %s", r.o, r.name)
		f := refDecode(res.stream, r.o.kind(), r.o.Dict, r.o.wbits())
		if f.Err != refOK {
			t.Failf("%s: invalid output: %s", what, f.Msg)
		}
		same(t, what)
		checkEvents(t, "Writer "+what, rec.evs, &f, true, false, false)
		for _, e := range rec.evs {
			if e.Type == flate.StreamHeaderEvent && int(e.Header.CompressLevel) != r.o.level() {
				t.Failf("%s: header event with level %v", what, e.Header.CompressLevel)
			}
			if e.Type == flate.StreamHeaderEvent && int(e.Header.WindowBits) != r.o.wbits() {
				t.Failf("%s: header event with window %v", what, e.Header.WindowBits)
			}
		}
		ro := r.o.reader(1 + len(res.data)%9)
		readEvents(t, "Reader "+what, res.stream, ro, 0)
	})
	// Everything the Log tracer is given, for streams of all shapes
	for _, k := range allKinds {
		for si, s := range allStrats {
			k, si, s := k, si, s
			c.CaseF("log", func() string { return fmt.Sprintf("%v/%v", k, s) }, func(t *T) {
				for _, d := range [][]byte{nil, {0}, []byte("abc"), zeros(300), noise(300, 1), texty(5000, 2), noise(70000, 3)} {
					for _, l := range []int{0, 1, 6, 9} {
						for fl := -1; fl < 5; fl++ {
							t.Note("%v %v level %d, %d bytes, flush %d", k, s, l, len(d), fl)
							o := wOpt{K: k, Strat: s, Lvl: l, Mem: 1 + si, W: 9 + si}
							logEvery = -1
							_, same := threeTracers(func(tr []flate.Tracer) { o.Tr = tr })
							var out bytes.Buffer
							fw := flate.NewWriter(&out, o.opts()...)
							_, _ = fw.Write(d)
							if fl >= 0 {
								_ = fw.Flush(flate.FlushType(fl))
							}
							_, _ = fw.Write(d)
							_ = fw.Close()
							same(t, "Writer "+t.note)
							for _, cut := range []int{0, 1, 9} {
								if cut > out.Len() {
									continue
								}
								logEvery = -1
								ro := o.reader(1 + si)
								_, same = threeTracers(func(tr []flate.Tracer) { ro.Tr = tr })
								_, _ = decodeAll(t, out.Bytes()[:out.Len()-cut], ro)
								same(t, "Reader "+t.note)
							}
							t.State(t.note)
						}
					}
				}
			})
		}
	}
	// Writer failures
	ws := []wOpt{}
	for ki, k := range allKinds {
		for si, s := range allStrats {
			ws = append(ws, wOpt{K: k, Strat: s, Lvl: 6 * (1 - (ki+si)%2*0), Mem: 1, W: 8}, wOpt{K: k, Strat: s, Lvl: 0, Mem: 2, W: 15})
		}
	}
	for wi, o := range ws {
		for mode := 0; mode < 2; mode++ {
			o, mode := o, mode
			c.CaseF("writefail", func() string { return fmt.Sprintf("%v/%d", o, mode) }, func(t *T) {
				run := func(failAt int) ([]byte, *evRec, int) {
					s := &faultSink{failAt: failAt, forever: true, err: errSink, mode: mode}
					rec, same := threeTracers(func(tr []flate.Tracer) { o.Tr = tr })
					atFail := -1
					rec.hook = func(flate.Event) {
						if s.failed && atFail < 0 {
							atFail = len(rec.evs) - 1
						}
					}
					fw := flate.NewWriter(s, o.opts()...)
					_, _ = fw.Write(texty(700, 3))
					_ = fw.Flush(flate.SyncFlush)
					_, _ = fw.Write(noise(300, 3))
					_ = fw.Flush(flate.FinishFlush)
					_, _ = fw.Write(zeros(1000))
					_ = fw.Flush(flate.PartialFlush)
					_, _ = fw.Write([]byte("xyz"))
					_ = fw.Close()
					t.Step(8)
					t.Trace()
					same(t, t.note)
					return s.buf.Bytes(), rec, atFail
				}
				full, frec, _ := run(-1)
				f := refDecode(full, o.kind(), nil, o.wbits())
				if f.Err != refOK {
					t.Failf("invalid output: %s", f.Msg)
				}
				checkEvents(t, "Writer", frec.evs, &f, true, false, false)
				for at := 0; at < len(full); at++ {
					if c.Quick() && (at+wi)%3 != 0 && at < len(full)-12 {
						continue
					}
					t.Note("%v fails at %d of %d", o, at, len(full))
					_, rec, atFail := run(at)
					checkEvents(t, t.note, rec.evs, &f, true, true, false)
					if atFail >= 0 {
						for _, e := range rec.evs[atFail:] {
							if e.Type == flate.StreamEndEvent || e.Type == flate.StreamCloseEvent {
								t.Failf("%s: %v event after the failure; %s", t.note, e.Type, evTypes(rec.evs))
							}
						}
					}
					// not closed unless all of it was written
					for _, e := range rec.evs {
						if e.Type == flate.StreamCloseEvent && f.Members[e.NumStreams-1].End > at {
							t.Failf("%s: stream %d reported closed, it ends at %d", t.note, e.NumStreams, f.Members[e.NumStreams-1].End)
						}
					}
				}
				t.State("writefail", o.String(), mode)
			})
		}
	}
	resetEvents(c)
	// Reader
	var files []vfile
	{
		t := &T{c: c}
		if f := t.run(func(t *T) { files = validFiles(t, true) }); f != "" {
			panic(f)
		}
		for _, k := range allKinds {
			for st := 0; st < 3; st++ {
				a, b := mkMember(k, st, 40), mkMember(k, (st+1)%3, 3000)
				e := mkMember(k, st, 0)
				files = append(files, vfile{fmt.Sprintf("cat-%v-%d", k, st), concat(a.in, b.in, e.in, a.in, e.in, e.in), rOpt{K: k}})
			}
		}
	}
	for vi, v := range files {
		vi, v := vi, v
		for _, m := range []int{1, 2, 5, 9} {
			m := m
			c.CaseF("read", func() string { return fmt.Sprintf("%s/m%d", v.name, m) }, func(t *T) {
				o := v.o
				o.Mem = m
				for _, sl := range []int{0, 1, 2, 7, 100} {
					t.Note("%s mem %d slice %d", v.name, m, sl)
					readEvents(t, t.note, v.in, o, sl)
					if o.K != kRaw {
						oa := o
						oa.K = kAuto
						readEvents(t, t.note+" auto", v.in, oa, sl)
					}
				}
			})
		}
		c.CaseF("truncate", func() string { return v.name }, func(t *T) {
			o := v.o
			step := 1
			if len(v.in) > 1500 {
				step = c.Pick(7, 1)
			}
			for n := 0; n < len(v.in); n += step {
				o.Mem = 1 + (n+vi)%9
				if c.Quick() && o.Mem > 3 {
					o.Mem = 1 + n%3
				}
				t.Note("%s cut to %d", v.name, n)
				readEvents(t, t.note, v.in[:n:n], o, []int{0, 0, 3}[n%3])
			}
		})
		if len(v.in) > 600 && c.Quick() {
			continue
		}
		for part := 0; part < 4; part++ {
			part := part
			c.CaseF("flip", func() string { return fmt.Sprintf("%s/%d", v.name, part) }, func(t *T) {
				o := v.o
				for bit := part; bit < len(v.in)*8; bit += 4 {
					if c.Quick() && len(v.in) > 200 && bit%3 != vi%3 {
						continue
					}
					in := append([]byte(nil), v.in...)
					in[bit>>3] ^= 1 << uint(bit&7)
					o.Mem = 1 + (bit+vi)%3
					t.Note("%s bit %d flipped", v.name, bit)
					readEvents(t, t.note, in, o, 0)
				}
			})
		}
	}
	// Headers of dynamic blocks in every shape: code counts with and without
	// unused entries at the end, for all three codes.
	for _, k := range allKinds {
		for nll := 257; nll <= 286; nll++ {
			k, nll := k, nll
			if c.Quick() && nll > 262 && nll < 284 && nll%5 != int(k) {
				continue
			}
			c.CaseF("dynheaders", func() string { return fmt.Sprintf("%v/%d", k, nll) }, func(t *T) {
				for _, greedy := range []bool{false, true} {
					for nd := 1; nd <= 30; nd++ {
						ll := balanced(nll, []int{'a', 'b', 'c', 256}, 0)
						d := balanced(nd, []int{0}, 0)
						if nd > 6 {
							d = balanced(nd, []int{0, 2, 3, 5}, 0)
						}
						h := mkDyn(ll, d, greedy)
						for nx := h.nx; nx <= 19; nx++ {
							if c.Quick() && nx > h.nx+1 && nx < 19 && (nx+nd)%3 != 0 {
								continue
							}
							h.nx = nx
							w := &bitw{}
							w.dynamic(true, h, lits([]byte("abacab")))
							in := wrap(k, w.p, []byte("abacab"), nil)
							t.Note("%v hlit %d hdist %d hclen %d greedy %v", k, nll, nd, nx, greedy)
							readEvents(t, t.note, in, rOpt{K: k, Mem: 1 + nd%3}, 0)
						}
					}
				}
			})
		}
	}
	// violations after k good blocks
	vs := violations()
	for i := 0; i < len(vs); i += 8 {
		i := i
		c.CaseF("violations", func() string { return fmt.Sprint(i) }, func(t *T) {
			for j := i; j < i+8 && j < len(vs); j++ {
				for k := 0; k < 4; k++ {
					w := &bitw{}
					var win []byte
					switch k {
					case 1:
						win = lits2(w, "stored")
					case 2:
						toks := lits([]byte("fixed fixed"))
						w.fixed(false, toks)
						win = applyToks(nil, toks)
					case 3:
						win = lits2(w, "abc")
						w.autoDyn(false, lits([]byte("dyn")), false, true)
						win = append(win, "dyn"...)
					}
					if !vs[j].put(w, len(win), 256) {
						continue
					}
					w.bits(0x5a5a5a5a, 32)
					for _, kind := range allKinds {
						in := wrap(kind, w.p, nil, nil)
						if kind == kZlib {
							in = wrapZlib(w.p, nil, 8, nil)
						}
						t.Note("%s after %d, %v", vs[j].name, k, kind)
						readEvents(t, t.note, in, rOpt{K: kind, Mem: 1 + k, W: 8}, 0)
						good := mkMember(kind, k%3, 9)
						if kind == kZlib {
							continue
						}
						readEvents(t, t.note+" second", concat(good.in, in), rOpt{K: kind, Mem: 1 + k, W: 8}, 0)
					}
				}
			}
		})
	}
	// read errors
	for vi, v := range files {
		if vi%3 != 0 && c.Quick() {
			continue
		}
		v := v
		c.CaseF("readfail", func() string { return v.name }, func(t *T) {
			o := v.o
			step := 1 + len(v.in)/c.Pick(150, 2000)
			for at := 0; at <= len(v.in); at += step {
				o.Mem = 1 + at%3
				t.Note("%s read error at %d", v.name, at)
				rec, same := threeTracers(func(tr []flate.Tracer) { o.Tr = tr })
				_, err := decodeFrom(t, &failReader{p: v.in[:at], err: errSink}, o, nil)
				same(t, t.note)
				if !errors.Is(err, errSink) {
					t.Failf("%s: ended with %v", t.note, err)
				}
				f := refDecode(v.in[:at], o.K, o.Dict, o.wbits())
				checkEvents(t, t.note, rec.evs, &f, false, true, false)
				for _, e := range rec.evs {
					if e.Type == flate.StreamCloseEvent && f.Members[e.NumStreams-1].End == 0 {
						t.Failf("%s: stream %d reported closed", t.note, e.NumStreams)
					}
				}
			}
			t.State("readfail", v.name)
		})
	}
}

// lits2 appends a stored block holding s.
func lits2(w *bitw, s string) []byte {
	w.stored(false, []byte(s))
	return []byte(s)
}

// failReader yields p and then err.
type failReader struct {
	p   []byte
	err error
}

func (r *failReader) Read(b []byte) (int, error) {
	if len(r.p) == 0 {
		return 0, r.err
	}
	n := copy(b, r.p)
	r.p = r.p[n:]
	return n, nil
}

// resetEvents: one Writer and one Reader used again and again.  Whether the
// total counters and the stream number start again or go on after a Reset is
// open, but it has to be the same after every Reset, and everything else in
// the events has to be as if the instance were new.
func resetEvents(c *C) {
	type base struct{ n, in, out uint64 }
	type policy struct {
		goesOn, startsAgain [3]bool // seen so far
	}
	// shift takes the counters of before off the events of one use
	shift := func(t *T, what string, pol *policy, evs []flate.Event, prev base, loose bool) ([]flate.Event, base) {
		if len(evs) == 0 {
			return nil, prev
		}
		e := evs[0]
		b := [3]uint64{uint64(e.NumStreams) - 1, e.InputBytesTotal, e.OutputBytesTotal}
		p := [3]uint64{prev.n, prev.in, prev.out}
		for i, name := range []string{"stream number", "input total", "output total"} {
			switch {
			case b[i] == p[i] && b[i] == 0:
			case b[i] == p[i] || i > 0 && loose && b[i] > p[i]:
				pol.goesOn[i] = true
			case b[i] == 0:
				pol.startsAgain[i] = true
			default:
				t.Failf("%s: the first event (%v) has %s %d, before the Reset it was %d", what, e.Type, name, b[i], p[i])
			}
			if pol.goesOn[i] && pol.startsAgain[i] {
				t.Failf("%s: the %s starts again after some Resets and goes on after others", what, name)
			}
		}
		out := append([]flate.Event(nil), evs...)
		for i := range out {
			out[i].NumStreams -= uint(b[0])
			out[i].InputBytesTotal -= b[1]
			out[i].OutputBytesTotal -= b[2]
		}
		l := evs[len(evs)-1]
		return out, base{uint64(l.NumStreams), l.InputBytesTotal, l.OutputBytesTotal}
	}
	const nuses = 6
	depth := c.Pick(4, 5)
	histories := func(group string, f func(t *T, uses []int)) {
		var rec func(h []int)
		rec = func(h0 []int) {
			h := append([]int(nil), h0...)
			if len(h) == 2 {
				c.CaseF(group, func() string { return fmt.Sprint(h) }, func(t *T) {
					var all func(h []int)
					all = func(h []int) {
						f(t, h)
						if len(h) < depth {
							for u := 0; u < nuses; u++ {
								all(append(append([]int(nil), h...), u))
							}
						}
					}
					all(h)
				})
				return
			}
			for u := 0; u < nuses; u++ {
				rec(append(h, u))
			}
		}
		rec(nil)
	}
	for ki, k := range allKinds {
		k := k
		o := wOpt{K: k, Strat: flate.DefaultStrategy, Lvl: 6, Mem: 1, W: 9}
		histories("writer-resets", func(t *T, uses []int) {
			rec := &evRec{}
			var pol policy
			var prev base
			loose := false
			fw := flate.NewWriter(&bytes.Buffer{}, append(o.opts(), flate.WithTracers(rec))...)
			for i, u := range uses {
				sink := &faultSink{failAt: -1, forever: true, err: errSink}
				if u == 4 {
					sink.failAt = 30
				}
				if u == 5 {
					fw.Reset(sink, flate.WithCompressLevel(flate.CompressLevel(6)))
				} else {
					fw.Reset(sink)
				}
				rec.evs, rec.raw = nil, nil
				switch u {
				case 0: // nothing
				case 1:
					_, _ = fw.Write(texty(50, 3))
				case 2: // two streams
					_, _ = fw.Write(noise(20, 3))
					_ = fw.Flush(flate.FinishFlush)
					_, _ = fw.Write(zeros(300))
				case 3: // an empty one, and one more
					_ = fw.Flush(flate.FinishFlush)
					_ = fw.Flush(flate.SyncFlush)
					_, _ = fw.Write([]byte("z"))
					_ = fw.Flush(flate.PartialFlush)
				case 4: // fails
					_, _ = fw.Write(noise(900, 3))
				case 5:
					_, _ = fw.Write([]byte("abc"))
					_ = fw.Flush(flate.FinishFlush)
				}
				_ = fw.Close()
				t.Step(3)
				what := fmt.Sprintf("%v, uses %v, use %d", o, uses, i)
				if u != 4 && len(rec.evs) == 0 {
					t.Failf("%s: no events", what)
				}
				var evs []flate.Event
				evs, prev = shift(t, what, &pol, rec.evs, prev, loose)
				if u == 4 {
					loose = true // more may have gone in and out than the last event says
					for _, e := range evs {
						if e.Type == flate.StreamCloseEvent {
							t.Failf("%s: closed after a failure; %s", what, evTypes(evs))
						}
					}
					continue
				}
				loose = false
				f := refDecode(sink.buf.Bytes(), k, nil, 9)
				if f.Err != refOK {
					t.Failf("%s: invalid output: %s", what, f.Msg)
				}
				checkEvents(t, what, evs, &f, true, false, false)
			}
			t.Trace()
			t.State("writer-resets", ki, uses)
		})
		m0, m1, m2 := mkMember(k, 0, 0), mkMember(k, 1, 40), mkMember(k, 2, 700)
		ins := [nuses][]byte{m0.in, m1.in, concat(m2.in, m0.in, m1.in), m2.in[:len(m2.in)/2], nil, m2.in}
		histories("reader-resets", func(t *T, uses []int) {
			rec := &evRec{}
			var pol policy
			var prev base
			loose := false
			ro := rOpt{K: k, Mem: 1, W: 15}
			fr := flate.NewReader(bytes.NewReader(nil), append(ro.opts(), flate.WithTracers(rec))...)
			for i, u := range uses {
				fr.Reset(bytes.NewReader(ins[u]))
				rec.evs, rec.raw = nil, nil
				if u == 5 { // given up half way
					var p [10]byte
					_, _ = fr.Read(p[:])
					_ = fr.Close()
				} else {
					_, _ = drainR(t, fr, nil)
					_ = fr.Close()
				}
				t.Step(3)
				what := fmt.Sprintf("%v, uses %v, use %d", ro, uses, i)
				var evs []flate.Event
				evs, prev = shift(t, what, &pol, rec.evs, prev, loose)
				loose = u == 3 || u == 5 || u == 4
				f := refDecode(ins[u], k, nil, 15)
				checkEvents(t, what, evs, &f, false, u == 5, f.Soft)
			}
			t.Trace()
			t.State("reader-resets", ki, uses)
		})
	}
}
