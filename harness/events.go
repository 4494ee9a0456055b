package main

import (
	"fmt"
	"strings"

	"github.com/chronos-tachyon/flate"
)

// evRec records events.
type evRec struct {
	evs  []flate.Event
	hook func(flate.Event)
	raw  []flate.Event // the events as received, for later comparison
}

// kept reports an event of which something changed after it was sent.
func (r *evRec) kept() string {
	for i, e := range r.evs {
		if e.Header == nil && e.Block == nil && e.Trees == nil && e.Footer == nil {
			continue
		}
		if was, is := fullKey(e), fullKey(r.raw[i]); was != is {
			return fmt.Sprintf("the %v event of stream %d was %s, and is %s afterwards", e.Type, e.NumStreams, shorten(was, 900), shorten(is, 900))
		}
	}
	return ""
}

func (r *evRec) OnEvent(e flate.Event) {
	// Deep-copy what we keep.
	r.raw = append(r.raw, e)
	if e.Header != nil {
		h := *e.Header
		h.ExtraData.Records = append([]flate.ExtraDataRecord(nil), h.ExtraData.Records...)
		for i := range h.ExtraData.Records {
			x := &h.ExtraData.Records[i]
			x.Bytes = append([]byte(nil), x.Bytes...)
		}
		e.Header = &h
	}
	if e.Block != nil {
		b := *e.Block
		e.Block = &b
	}
	if e.Trees != nil {
		tr := *e.Trees
		tr.CodeSizes = append(flate.SizeList(nil), tr.CodeSizes...)
		tr.LiteralLengthSizes = append(flate.SizeList(nil), tr.LiteralLengthSizes...)
		tr.DistanceSizes = append(flate.SizeList(nil), tr.DistanceSizes...)
		e.Trees = &tr
	}
	if e.Footer != nil {
		f := *e.Footer
		e.Footer = &f
	}
	r.evs = append(r.evs, e)
	if r.hook != nil {
		r.hook(e)
	}
}

// evKey renders what must not depend on chunking or memory level.
func evKey(e flate.Event, counters bool) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v n%d f%d", e.Type, e.NumStreams, e.Format)
	if counters && (e.Type == flate.StreamEndEvent || e.Type == flate.StreamCloseEvent || e.Type == flate.StreamBeginEvent) {
		fmt.Fprintf(&sb, " in%d out%d", e.InputBytesStream, e.OutputBytesStream)
	}
	if e.Header != nil {
		fmt.Fprintf(&sb, " %s", headerKey(*e.Header))
	}
	if e.Block != nil {
		fmt.Fprintf(&sb, " %v/%v", e.Block.Type, e.Block.IsFinal)
	}
	if e.Trees != nil {
		fmt.Fprintf(&sb, " %d/%d/%d %x %x %x", e.Trees.CodeCount, e.Trees.LiteralLengthCount, e.Trees.DistanceCount,
			[]byte(e.Trees.CodeSizes), trimTo(e.Trees.LiteralLengthSizes, 0), trimTo(e.Trees.DistanceSizes, 0))
	}
	if e.Footer != nil {
		fmt.Fprintf(&sb, " %v %v", e.Footer.Adler32, e.Footer.CRC32)
	}
	return sb.String()
}

func headerKey(h flate.Header) string {
	mt := int64(0)
	if !h.LastModified.IsZero() {
		mt = h.LastModified.Unix()
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q %q %d %d %d %d %d", h.FileName, h.Comment, mt, h.DataType, h.OSType, h.WindowBits, h.CompressLevel)
	for _, r := range h.ExtraData.Records {
		fmt.Fprintf(&sb, " %x:%x", r.ID, r.Bytes)
	}
	return sb.String()
}

func evKeys(evs []flate.Event, counters bool) string {
	var sb strings.Builder
	for _, e := range evs {
		sb.WriteString(evKey(e, counters))
		sb.WriteByte('\n')
	}
	return sb.String()
}
