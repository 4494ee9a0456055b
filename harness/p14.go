package main

import (
	"bytes"
	stdgzip "compress/gzip"
	"fmt"
	"io"
	"math"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "P14", Run: runP14,
		Bounds: "SetHeader: all 256 byte values at the start, middle and end of a file name and of a comment, all pairs of 32 (thorough 256) byte values in every position of both, and triples of them as read; all lengths 0..260 of both, all lists of up to 4 records over 2 (thorough 3) IDs and 3 contents, times around 0 and 2^32 (seconds and nanoseconds), all 256 OS types, extra data of 0-4 records with lengths around every limit, every subset of invalid fields, acceptance decided by an independent model, a refused header leaving the previous one in force; accepted headers: written bytes parsed by the reference parser and compress/gzip, and read back, for all pairs of field classes, 1..3 streams with headers changed between streams or while the one before is under way; Reader: all 32 FLG combinations x 256 OS bytes x XFL bytes x times x memory levels, field lengths around the buffer sizes, concatenated and auto-detected",
	})
}

const osCount = 15 // OSTypeUnknown .. OSTypeAcornRISCOS

// hdrOK is the model of what SetHeader accepts.
func hdrOK(h flate.Header) bool {
	if len(h.FileName) > 255 || strings.ContainsAny(h.FileName, "\x00/\\") {
		return false
	}
	if len(h.Comment) > 255 || strings.ContainsAny(h.Comment, "\x00") {
		return false
	}
	if !h.LastModified.IsZero() {
		if u := h.LastModified.Unix(); u < 0 || u > math.MaxUint32 {
			return false
		}
	}
	if h.OSType >= osCount {
		return false
	}
	n := 0
	for _, r := range h.ExtraData.Records {
		if 4+len(r.Bytes) > 65535 {
			return false
		}
		n += 4 + len(r.Bytes)
	}
	return n <= 65535
}

func describeHdr(h flate.Header) string {
	s := fmt.Sprintf("name %d %s comment %d %s mtime %v data %d os %d", len(h.FileName), hexs([]byte(shorten(h.FileName, 20))),
		len(h.Comment), hexs([]byte(shorten(h.Comment, 20))), h.LastModified, h.DataType, h.OSType)
	for _, r := range h.ExtraData.Records {
		s += fmt.Sprintf(" x%x:%d", r.ID, len(r.Bytes))
	}
	return s
}

// fieldsKey renders the fields of a header which travel in a gzip stream.
func fieldsKey(h flate.Header) string {
	mt := int64(0)
	if !h.LastModified.IsZero() {
		mt = h.LastModified.Unix()
	}
	s := fmt.Sprintf("%q %q %d data%d os%d", h.FileName, h.Comment, mt, h.DataType, h.OSType)
	for _, r := range h.ExtraData.Records {
		s += fmt.Sprintf(" %x:%x", r.ID, r.Bytes)
	}
	return s
}

var textLike, binaryLike = []byte("plain text,\n\twith lines\r\n"), []byte{0, 1, 2, 3, 0x1b, 0x7f}

// checkMember checks the header bytes of one gzip member written with h.
func checkHdrMember(t *T, what string, stream []byte, m *refMember, h flate.Header, data []byte) flate.Header {
	want := h
	if want.DataType == flate.UnknownData {
		want.DataType = flate.BinaryData
		if bytes.Equal(data, textLike) {
			want.DataType = flate.TextData
		}
		if len(data) == 0 {
			// nothing to judge by
			want.DataType = flate.BinaryData
			if m.FLG&1 != 0 {
				want.DataType = flate.TextData
			}
		}
	}
	if want.OSType == flate.OSTypeUnknown {
		// "unknown" is recorded as the OS at hand or as unknown
		if m.OS != 3 && m.OS != 255 {
			t.Failf("%s: unknown OS recorded as %d", what, m.OS)
		}
		if m.OS == 3 {
			want.OSType = flate.OSTypeUnix
		}
	} else if m.OS != byte(want.OSType-1) {
		t.Failf("%s: OS type %v recorded as %d", what, want.OSType, m.OS)
	}
	if (m.FLG&1 != 0) != (want.DataType == flate.TextData) {
		t.Failf("%s: FTEXT is %v for data type %v", what, m.FLG&1, want.DataType)
	}
	if !m.HasHC {
		t.Failf("%s: no header CRC", what)
	}
	if string(m.Name) != h.FileName || m.HasN != (h.FileName != "") {
		t.Failf("%s: file name %q recorded as %q", what, h.FileName, m.Name)
	}
	if string(m.Com) != h.Comment || m.HasC != (h.Comment != "") {
		t.Failf("%s: comment %q recorded as %q", what, h.Comment, m.Com)
	}
	mt := uint32(0)
	if !h.LastModified.IsZero() {
		mt = uint32(h.LastModified.Unix())
	}
	if m.Mtime != mt {
		t.Failf("%s: time %d recorded as %d", what, mt, m.Mtime)
	}
	var x []byte
	for _, r := range h.ExtraData.Records {
		x = append(x, r.ID[0], r.ID[1], byte(len(r.Bytes)), byte(len(r.Bytes)>>8))
		x = append(x, r.Bytes...)
	}
	if !bytes.Equal(x, m.Extra) || m.HasX != (len(x) > 0) {
		t.Failf("%s: extra data recorded wrongly: %s", what, diffAt(m.Extra, x))
	}
	return want
}

// checkHdrFile writes one stream per header and reads all back.  A nil header
// keeps what is in force.
func checkHdrFile(t *T, hs []*flate.Header, datas [][]byte, o wOpt, rmem int) {
	checkHdrFileWhen(t, hs, datas, o, rmem, false)
}

// checkHdrFileWhen is checkHdrFile; with early, each header but the first is
// set while the stream before it is under way, its own header being out.
func checkHdrFileWhen(t *T, hs []*flate.Header, datas [][]byte, o wOpt, rmem int, early bool) {
	var sink bytes.Buffer
	wrec := &evRec{}
	o.Tr = []flate.Tracer{wrec}
	fw := flate.NewWriter(&sink, o.opts()...)
	var cur flate.Header
	var inForce []flate.Header
	set := func(h *flate.Header) {
		if h == nil {
			return
		}
		err := fw.SetHeader(*h)
		t.Step(1)
		if ok := hdrOK(*h); ok != (err == nil) {
			t.Failf("SetHeader(%s): error %v, the header is representable: %v", describeHdr(*h), err, ok)
		}
		if err == nil {
			cur = *h
		}
	}
	first := datas
	for i, h := range hs {
		if !early || i == 0 {
			set(h)
		}
		inForce = append(inForce, cur)
		writeAll(t, fw, datas[i])
		if early && i+1 < len(hs) {
			if err := fw.Flush(flate.SyncFlush); err != nil {
				t.Failf("Flush: %v", err)
			}
			set(hs[i+1])
			if len(datas[i]) > 0 && i%2 == 1 {
				writeAll(t, fw, []byte("x"))
				datas = append([][]byte(nil), datas...)
				datas[i] = concat(datas[i], []byte("x"))
			}
		}
		if i == len(hs)-1 {
			if err := fw.Close(); err != nil {
				t.Failf("Close: %v", err)
			}
		} else if err := fw.Flush(flate.FinishFlush); err != nil {
			t.Failf("Flush: %v", err)
		}
		t.Step(1)
	}
	stream := sink.Bytes()
	// An empty stream after the first is not written at all.
	what := fmt.Sprintf("%d streams, last header %s", len(hs), describeHdr(cur))
	f := refDecode(stream, kGzip, nil, 15)
	if f.Err != refOK || !bytes.Equal(f.Out, concat(datas...)) {
		t.Failf("%s: not a valid gzip file: %v %s; %s", what, f.Err, f.Msg, hexs(stream))
	}
	if len(f.Members) != len(hs) {
		t.Failf("%s: %d streams were written, the file has %d", what, len(hs), len(f.Members))
	}
	rrec := &evRec{}
	var captured flate.Header
	ro := rOpt{K: kGzip, Mem: rmem, W: 15, Tr: []flate.Tracer{rrec, flate.CaptureHeader(&captured)}}
	if rmem%2 == 0 {
		ro.K = kAuto
	}
	got, err := decodeAll(t, stream, ro)
	expect(t, what, got, err, f.Out, endEOF)
	var wh, rh []flate.Header
	for _, e := range wrec.evs {
		if e.Type == flate.StreamHeaderEvent {
			wh = append(wh, *e.Header)
		}
	}
	for _, e := range rrec.evs {
		if e.Type == flate.StreamHeaderEvent {
			rh = append(rh, *e.Header)
		}
	}
	for who, r := range map[string]*evRec{"Writer": wrec, "Reader": rrec} {
		if k := r.kept(); k != "" {
			t.Failf("%s: %s: %s", what, who, k)
		}
	}
	if len(wh) != len(hs) || len(rh) != len(hs) {
		t.Failf("%s: %d streams, %d writer header events, %d reader header events", what, len(hs), len(wh), len(rh))
	}
	for i := range f.Members {
		w := fmt.Sprintf("%s, stream %d", what, i)
		want := checkHdrMember(t, w, stream, &f.Members[i], inForce[i], first[i])
		if a, b := fieldsKey(rh[i]), fieldsKey(want); a != b {
			t.Failf("%s: the Reader reports %s, written was %s", w, shorten(a, 900), shorten(b, 900))
		}
		want2 := want
		want2.OSType = wh[i].OSType // unknown may be reported either way
		if inForce[i].OSType != flate.OSTypeUnknown && wh[i].OSType != inForce[i].OSType {
			t.Failf("%s: the Writer reports OS type %v", w, wh[i].OSType)
		}
		if a, b := fieldsKey(wh[i]), fieldsKey(want2); a != b {
			t.Failf("%s: the Writer reports %s, written was %s", w, shorten(a, 900), shorten(b, 900))
		}
	}
	if a, b := headerKey(captured), headerKey(rh[len(rh)-1]); a != b {
		t.Failf("%s: captured header %s, last header event %s", what, shorten(a, 900), shorten(b, 900))
	}
	// The standard library understands Latin-1 names.
	for i := range f.Members {
		m := &f.Members[i]
		zr, err := stdgzip.NewReader(bytes.NewReader(stream[m.Start:m.End]))
		if err != nil {
			t.Failf("%s: compress/gzip rejects stream %d: %v", what, i, err)
		}
		if b, err := io.ReadAll(zr); err != nil || !bytes.Equal(b, datas[i]) {
			t.Failf("%s: compress/gzip cannot read stream %d: %v", what, i, err)
		}
		if isASCII(inForce[i].FileName) && zr.Name != inForce[i].FileName || isASCII(inForce[i].Comment) && zr.Comment != inForce[i].Comment {
			t.Failf("%s: compress/gzip reports name %q comment %q", what, zr.Name, zr.Comment)
		}
	}
	t.State(what, len(stream))
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 || s[i] == 0 {
			return false
		}
	}
	return true
}

func runP14(c *C) {
	o1 := wOpt{K: kGzip, Lvl: 1, Mem: 1, W: 8}
	one := func(t *T, h flate.Header, o wOpt, rmem int) {
		checkHdrFile(t, []*flate.Header{&h}, [][]byte{textLike}, o, rmem)
	}
	// Several streams which all have extra data.
	for n := 0; n < 4; n++ {
		for m := 0; m < 4; m++ {
			for k := 0; k < 4; k++ {
				n, m, k := n, m, k
				c.CaseF("extra after extra", func() string { return fmt.Sprint(n, " ", m, " ", k) }, func(t *T) {
					var hs []*flate.Header
					var ds [][]byte
					for i, l := range []int{n, m, k} {
						v := byte(16*i + 1)
						hs = append(hs, &flate.Header{ExtraData: flate.ExtraData{Records: []flate.ExtraDataRecord{{ID: [2]byte{v, 'x'}, Bytes: bytes.Repeat([]byte{v}, l)}}}})
						ds = append(ds, [][]byte{textLike, binaryLike}[(i+l)%2])
					}
					checkHdrFile(t, hs, ds, o1, 1)
				})
			}
		}
	}
	// (a) all byte values at all places
	for b := 0; b < 256; b++ {
		b := b
		c.CaseF("bytes", func() string { return fmt.Sprintf("%02x", b) }, func(t *T) {
			x := string([]byte{byte(b)})
			for _, s := range []string{x, x + "abc", "a" + x + "c", "abc" + x, x + x, strings.Repeat("n", 254) + x, x + strings.Repeat("n", 254), strings.Repeat(x, 255)} {
				t.Note("%02x %d", b, len(s))
				one(t, flate.Header{FileName: s}, o1, 1)
				one(t, flate.Header{Comment: s}, o1, 2)
				one(t, flate.Header{FileName: "x", Comment: s}, o1, 1)
				one(t, flate.Header{FileName: s, Comment: "y"}, o1, 3)
			}
			one(t, flate.Header{OSType: flate.OSType(b)}, o1, 1)
			one(t, flate.Header{OSType: flate.OSType(b), FileName: "f"}, o1, 2)
			for n := 1; n <= 6; n++ {
				var h flate.Header
				for k := 0; k < n; k++ {
					h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{byte(b), byte(k)}, Bytes: []byte(strings.Repeat(x, k))})
				}
				one(t, h, o1, 1)
			}
		})
	}
	// Pairs and triples of bytes, which text would be normalized by.
	odd := []byte{0, 1, '\t', '\n', '\r', 0x1a, 0x1b, ' ', '"', '%', '&', '\'', '+', '.', '/', '0', ':', '=', 'A', '\\', '^', 'a', '~', 0x7f, 0x80, 0x85, 0xa0, 0xc2, 0xc3, 0xe9, 0xfe, 0xff}
	pairs := odd
	if !c.Quick() {
		pairs = nil
		for b := 0; b < 256; b++ {
			pairs = append(pairs, byte(b))
		}
	}
	for _, a := range pairs {
		a := a
		c.CaseF("byte pairs", func() string { return fmt.Sprintf("%02x", a) }, func(t *T) {
			for _, b := range pairs {
				x := string([]byte{a, b})
				for k, s := range []string{x, x + "a", "a" + x, "ab" + x + "cd", x + x} {
					if !c.Quick() && k%2 == 1 {
						continue
					}
					t.Note("%x", s)
					one(t, flate.Header{FileName: s, Comment: "y"}, o1, 1)
					one(t, flate.Header{FileName: "n", Comment: s}, o1, 2)
					if a != 0 && b != 0 {
						// Bytes which the Writer refuses in a name, too.
						readHdr(t, gzHead{os: 3, name: []byte(s)}, 1, 1)
						readHdr(t, gzHead{os: 3, com: []byte(s), hcrc: true}, 2, 2)
					}
				}
			}
		})
	}
	for _, a := range odd {
		a := a
		if a == 0 {
			continue
		}
		c.CaseF("byte triples", func() string { return fmt.Sprintf("%02x", a) }, func(t *T) {
			for _, b := range odd[1:] {
				for _, d := range odd[1:] {
					if c.Quick() && (int(a)+3*int(b)+5*int(d))%5 != 0 {
						continue
					}
					s := []byte{a, b, d}
					t.Note("%x", s)
					readHdr(t, gzHead{os: 3, name: s, com: s}, 1, 1)
				}
			}
		})
	}
	// Lists of records: equal and different IDs, equal and different contents,
	// in any order.
	{
		var kinds []flate.ExtraDataRecord
		for _, id := range [][2]byte{{'A', 'p'}, {'A', 'q'}, {0, 0}}[:c.Pick(2, 3)] {
			for _, b := range [][]byte{{}, {7}, {'A', 'p'}} {
				kinds = append(kinds, flate.ExtraDataRecord{ID: id, Bytes: b})
			}
		}
		for first := range kinds {
			first := first
			c.CaseF("record lists", func() string { return fmt.Sprint(first) }, func(t *T) {
				var rec func(l []flate.ExtraDataRecord)
				rec = func(l []flate.ExtraDataRecord) {
					t.Note("%v", l)
					one(t, flate.Header{ExtraData: flate.ExtraData{Records: append([]flate.ExtraDataRecord(nil), l...)}}, o1, 1+len(l)%3)
					if len(l) < 4 {
						for _, k := range kinds {
							rec(append(l[:len(l):len(l)], k))
						}
					}
				}
				rec([]flate.ExtraDataRecord{kinds[first]})
			})
		}
	}
	// (b) lengths
	for n := 0; n <= 260; n++ {
		n := n
		c.CaseF("lengths", func() string { return fmt.Sprint(n) }, func(t *T) {
			for m := 1; m <= 9; m += c.Pick(4, 1) {
				o := o1
				o.Mem = m
				s := strings.Repeat("q", n)
				one(t, flate.Header{FileName: s}, o, m)
				one(t, flate.Header{Comment: s}, o, m)
				one(t, flate.Header{FileName: s, Comment: s, LastModified: time.Unix(12345, 0)}, o, m)
				one(t, flate.Header{FileName: s, Comment: "c", ExtraData: flate.ExtraData{Records: []flate.ExtraDataRecord{{ID: [2]byte{1, 2}, Bytes: []byte(s)}}}}, o, m)
			}
		})
	}
	for _, n := range []int{300, 511, 512, 1000, 32767, 32768, 65535, 65536, 70000} {
		n := n
		c.CaseF("lengths", func() string { return fmt.Sprint(n) }, func(t *T) {
			one(t, flate.Header{FileName: strings.Repeat("q", n)}, o1, 1)
			one(t, flate.Header{Comment: strings.Repeat("q", n)}, o1, 1)
		})
	}
	// (c) times
	var times []time.Time
	for _, s := range []int64{math.MinInt64 / 2, -62135596801, -1 << 40, -1 << 32, -1<<32 + 1, -1 << 31, -2, -1, 0, 1, 2, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 3, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 33, 1 << 40, 1 << 50} {
		for _, ns := range []int64{0, 1, 500000000, 999999999} {
			times = append(times, time.Unix(s, ns).UTC(), time.Unix(s, ns).In(time.FixedZone("z", 5*3600+1800)))
		}
	}
	times = append(times, time.Time{}, time.Time{}.In(time.FixedZone("a", 3600)))
	for i, tm := range times {
		i, tm := i, tm
		c.CaseF("times", func() string { return fmt.Sprint(i) }, func(t *T) {
			for m := 1; m <= 3; m++ {
				one(t, flate.Header{LastModified: tm}, o1, m)
				one(t, flate.Header{LastModified: tm, FileName: "n", Comment: "c", OSType: flate.OSTypeFAT}, o1, m)
			}
		})
	}
	// (d) extra data
	xl := []int{0, 1, 251, 252, 253, 255, 256, 257, 508, 1024, 16383, 21841, 21842, 32763, 32764, 32765, 65527, 65530, 65531, 65532, 65535, 65536, 65537, 70000, 131072}
	rec := func(n, k int) flate.ExtraDataRecord {
		return flate.ExtraDataRecord{ID: [2]byte{'A' + byte(k), byte(n)}, Bytes: noise(n, uint64(n+k))}
	}
	for i := range xl {
		i := i
		c.CaseF("extra", func() string { return fmt.Sprint(xl[i]) }, func(t *T) {
			x := func(recs ...flate.ExtraDataRecord) {
				one(t, flate.Header{ExtraData: flate.ExtraData{Records: recs}}, o1, 1)
			}
			x(rec(xl[i], 0))
			for j := range xl {
				t.Note("%d %d", xl[i], xl[j])
				x(rec(xl[i], 0), rec(xl[j], 1))
				if xl[i]+xl[j] < 70000 {
					rest := 65535 - xl[i] - xl[j] - 12
					for d := -2; d <= 2; d++ {
						if rest+d >= 0 {
							x(rec(xl[i], 0), rec(xl[j], 1), rec(rest+d, 2))
						}
					}
				}
			}
			for m := 1; m <= 9; m++ {
				for _, d := range [][]byte{nil, textLike, binaryLike} {
					o := o1
					o.Mem = m
					h := flate.Header{ExtraData: flate.ExtraData{Records: []flate.ExtraDataRecord{rec(xl[i], 0), rec(3, 1)}}, Comment: "x"}
					checkHdrFile(t, []*flate.Header{&h}, [][]byte{d}, o, m)
				}
			}
		})
	}
	// many records
	for _, n := range []int{100, 5000, 16383, 16384, 20000} {
		n := n
		c.CaseF("records", func() string { return fmt.Sprint(n) }, func(t *T) {
			h := flate.Header{}
			for k := 0; k < n; k++ {
				h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{byte(k), byte(k >> 8)}})
			}
			one(t, h, o1, 1)
		})
	}
	// (e) validity of all combinations: one class per field
	names := []string{"", "n", strings.Repeat("n", 255), strings.Repeat("n", 256), "a\x00", "a/b", "a\\b", "\xff\xe9"}
	coms := []string{"", "c", strings.Repeat("c", 255), strings.Repeat("c", 256), "\x00", "a/b\\c"}
	tms := []time.Time{{}, time.Unix(1, 0), time.Unix(1<<32-1, 999), time.Unix(1<<32, 0), time.Unix(-1, 0)}
	oss := []flate.OSType{0, 1, 4, 14, 15, 255}
	xds := []flate.ExtraData{{}, {Records: []flate.ExtraDataRecord{rec(3, 0), rec(0, 1)}}, {Records: []flate.ExtraDataRecord{rec(65532, 0)}}}
	good := flate.Header{FileName: "previous", Comment: "header", LastModified: time.Unix(77, 0), OSType: flate.OSTypeVMS, DataType: flate.BinaryData,
		ExtraData: flate.ExtraData{Records: []flate.ExtraDataRecord{rec(5, 0)}}}
	for ni := range names {
		for ci := range coms {
			ni, ci := ni, ci
			c.CaseF("combos", func() string { return fmt.Sprint(ni, ci) }, func(t *T) {
				for ti := range tms {
					for oi := range oss {
						for xi := range xds {
							dt := flate.DataType((ni + ci + ti + oi + xi) % 3)
							h := flate.Header{FileName: names[ni], Comment: coms[ci], LastModified: tms[ti], OSType: oss[oi], DataType: dt, ExtraData: xds[xi]}
							t.Note("%d %d %d %d %d", ni, ci, ti, oi, xi)
							d := [][]byte{textLike, binaryLike}[(ti+oi)%2]
							rm := 1 + (ni+ci+ti+oi+xi)%9
							if c.Quick() {
								rm = 1 + rm%3
							}
							if hdrOK(h) {
								checkHdrFile(t, []*flate.Header{&h}, [][]byte{d}, o1, rm)
							} else {
								// refused: the previous one stays
								p := good
								checkHdrFile(t, []*flate.Header{&p, &h, nil}, [][]byte{d, textLike, binaryLike}, o1, rm)
								checkHdrFile(t, []*flate.Header{&h}, [][]byte{d}, o1, rm)
							}
						}
					}
				}
			})
		}
	}
	// (f) sequences of streams and headers
	hs := []*flate.Header{nil, {}, &good, {FileName: "other", DataType: flate.TextData}, {Comment: "com", LastModified: time.Unix(5, 5)},
		{FileName: "bad/name"}, {OSType: flate.OSTypeAcornRISCOS, DataType: flate.UnknownData}}
	for i := range hs {
		for j := range hs {
			i, j := i, j
			c.CaseF("streams", func() string { return fmt.Sprint(i, j) }, func(t *T) {
				for k := range hs {
					for d := 0; d < 8; d++ {
						t.Note("%d %d %d data %d", i, j, k, d)
						var ds [][]byte
						for b := 0; b < 3; b++ {
							ds = append(ds, [][]byte{textLike, binaryLike}[d>>b&1])
						}
						o := o1
						o.Strat = allStrats[d%4]
						o.Lvl = d
						checkHdrFile(t, []*flate.Header{hs[i], hs[j], hs[k]}, ds, o, 1+(i+j+k)%3)
						if d%3 == (i+j+k)%3 {
							t.Note("%s, each while the stream before is under way", t.note)
							checkHdrFileWhen(t, []*flate.Header{hs[i], hs[j], hs[k]}, ds, o, 1+(i+j+k)%3, true)
						}
					}
				}
			})
		}
	}
	// names and comments longer than the Writer takes
	for _, n := range []int{256, 257, 1023, 4096, 65535, 65536, 65537, 131073, 1<<20 + 1} {
		n := n
		c.CaseF("read long", func() string { return fmt.Sprint(n) }, func(t *T) {
			w := &bitw{}
			w.stored(true, []byte("y"))
			a, b := noise(n, 1), noise(n, 2)
			for i := range a {
				a[i] |= 1
				b[i] |= 2
			}
			for v := 1; v < 4; v++ {
				h := gzHead{hcrc: v == 3, os: 3}
				var name, com string
				if v&1 != 0 {
					h.name, name = a, string(a)
				}
				if v&2 != 0 {
					h.com, com = b, string(b)
				}
				var got flate.Header
				for _, m := range []int{1, 9} {
					data, err := decodeAll(t, wrapGzip(w.p, []byte("y"), h), rOpt{K: kGzip, Mem: m, W: 15, Tr: []flate.Tracer{flate.CaptureHeader(&got)}})
					expect(t, fmt.Sprintf("fields %d of %d bytes", v, n), data, err, []byte("y"), endEOF)
					if got.FileName != name || got.Comment != com {
						t.Failf("fields %d of %d bytes: name of %d bytes (right: %v), comment of %d (right: %v)", v, n, len(got.FileName), got.FileName == name, len(got.Comment), got.Comment == com)
					}
				}
			}
			t.State("read long", n)
		})
	}
	// (g) any valid gzip header
	for flg := 0; flg < 32; flg++ {
		for osg := 0; osg < 8; osg++ {
			flg, osg := flg, osg
			c.CaseF("read", func() string { return fmt.Sprintf("%d/%d", flg, osg) }, func(t *T) {
				n := 0
				for os := osg * 32; os < osg*32+32; os++ {
					for _, mtime := range []uint32{0, 1, 1 << 31, 1<<32 - 1, 0x04030201} {
						for _, xfl := range []byte{0, 2, 4, byte(os)} {
							n++
							h := gzHead{flg: byte(flg & 1), mtime: mtime, xfl: xfl, os: byte(os), hcrc: flg&2 != 0}
							if flg&4 != 0 {
								h.extra = [][]byte{{}, {1, 2, 0, 0}, {1, 2, 3, 0, 9, 8, 7}, validExtra(300), validExtra(65535)}[n%5]
							}
							if flg&8 != 0 {
								h.name = [][]byte{{}, []byte("name"), []byte("d/n\\"), bytes.Repeat([]byte{0xc3}, 300)}[n%4]
							}
							if flg&16 != 0 {
								h.com = [][]byte{{}, []byte("comment"), bytes.Repeat([]byte("c\n"), 600)}[n%3]
							}
							readHdr(t, h, 1+n%9, n)
						}
					}
				}
			})
		}
	}
	// (h) lengths around the buffers
	for m := 1; m <= 9; m++ {
		m := m
		for f := 0; f < 3; f++ {
			f := f
			c.CaseF("readlen", func() string { return fmt.Sprintf("m%d/%d", m, f) }, func(t *T) {
				for _, b := range []int{16, 64, 1 << uint(m+6), 1 << uint(m+7), 1 << uint(m+8), 65535} {
					for d := -14; d <= 3; d++ {
						n := b + d
						if n < 0 || f == 2 && n > 65535 {
							continue
						}
						h := gzHead{os: 3, hcrc: d%2 == 0}
						switch f {
						case 0:
							h.name = bytes.Repeat([]byte("n"), n)
						case 1:
							h.com = bytes.Repeat([]byte("c"), n)
						case 2:
							h.extra = validExtra(n)
						}
						t.Note("mem %d field %d length %d", m, f, n)
						readHdr(t, h, m, d+14)
					}
				}
			})
		}
	}
}

// readHdr checks what a Reader reports of a file whose first member has
// header h.
func readHdr(t *T, h gzHead, mem int, n int) {
	data := []byte("d")
	w := &bitw{}
	w.stored(true, data)
	in := wrapGzip(w.p, data, h)
	// followed by a member with another header
	h2 := gzHead{os: 11, name: []byte("second"), mtime: 99}
	if n%2 == 0 {
		if n%4 == 0 && len(h.extra) >= 4 {
			// extra data again, as long but different
			x := bytes.Repeat([]byte{0xd7}, len(h.extra))
			x[0], x[1], x[2], x[3] = 'q', 'r', byte(len(x)-4), byte((len(x)-4)>>8)
			h2.extra = x
		}
		in = append(in, wrapGzip(w.p, data, h2)...)
	}
	rec := &evRec{}
	o := rOpt{K: kGzip, Mem: mem, W: 15, Tr: []flate.Tracer{rec}}
	if n%3 == 0 {
		o.K = kAuto
	}
	got, err := decodeAll(t, in, o)
	f := refDecode(in, o.K, nil, 15)
	expect(t, fmt.Sprintf("flg %d os %d", h.flg, h.os), got, err, f.Out, endEOF)
	var rh []flate.Header
	for _, e := range rec.evs {
		if e.Type == flate.StreamHeaderEvent {
			if e.Format != flate.GZIPFormat {
				t.Failf("header event reports format %v", e.Format)
			}
			rh = append(rh, *e.Header)
		}
	}
	if k := rec.kept(); k != "" {
		t.Failf("%s", k)
	}
	if len(rh) != len(f.Members) {
		t.Failf("%d header events for %d streams", len(rh), len(f.Members))
	}
	for i := range f.Members {
		m := &f.Members[i]
		want := flate.Header{FileName: string(m.Name), Comment: string(m.Com), DataType: flate.BinaryData}
		if m.FLG&1 != 0 {
			want.DataType = flate.TextData
		}
		if m.Mtime != 0 {
			want.LastModified = time.Unix(int64(m.Mtime), 0)
		}
		if m.OS <= 13 {
			want.OSType = flate.OSType(m.OS + 1)
		}
		for x := m.Extra; len(x) >= 4; {
			l := minInt(int(x[2])|int(x[3])<<8, len(x)-4)
			want.ExtraData.Records = append(want.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{x[0], x[1]}, Bytes: x[4 : 4+l]})
			x = x[4+l:]
		}
		if a, b := fieldsKey(rh[i]), fieldsKey(want); a != b {
			t.Failf("stream %d: the Reader reports %s, the file says %s", i, shorten(a, 900), shorten(b, 900))
		}
		if m.Mtime == 0 && !rh[i].LastModified.IsZero() {
			t.Failf("stream %d: MTIME 0 reported as %v", i, rh[i].LastModified)
		}
		lvl := flate.DefaultCompression
		switch m.XFL {
		case 2:
			lvl = 9
		case 4:
			lvl = 1
		}
		if rh[i].CompressLevel != flate.CompressLevel(lvl) {
			t.Failf("stream %d: XFL %d reported as level %v", i, m.XFL, rh[i].CompressLevel)
		}
	}
	t.State(fieldsKey(rh[0]), mem)
}
