package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/chronos-tachyon/flate"
	"github.com/rs/zerolog"
)

func init() {
	register(&Prop{
		ID: "P21", Run: runP21,
		Bounds: "all 256 values of all eleven enumerated types: validity, String, GoString and JSON; for the five types with Parse: print-then-parse of every value, every upper/lower-case variant of every accepted name, every string of up to 2 bytes and every string of 3 ASCII characters, every one-character deletion, insertion and substitution of every name, numbers 0..70000 and overflowing ones; all option constructors on all 256 values; Reader and Writer accessors for all values of all options (pairwise complete); Checksum32 JSON for all values with at most two non-zero bytes and all single-bit values; JSON of every event of a set of traces, also through the Log tracer",
	})
}

// An enum describes one enumerated type.
type enum struct {
	name    string
	bits    bool // values are signed (int8)
	valid   func(v int) bool
	isValid func(v int) bool // the method; nil if there is none
	str     func(v int) string
	goStr   func(v int) string
	goWant  func(v int) string // nil: not a constant name
	js      func(v int) ([]byte, error)
	jsWant  func(v int) string // "": only validity
	parse   func(start int, s string) (int, error)
	def     int
	names   map[string]int // accepted names, lower case
	numbers func(n int) (int, bool)
	option  func(v int) flate.Option
}

func rangeValid(lo, hi int) func(int) bool { return func(v int) bool { return v >= lo && v <= hi } }

func jstr(s string) string { b, _ := json.Marshal(s); return string(b) }

func enums() []enum {
	fmts := []string{"auto", "raw", "zlib", "gzip"}
	fmtGo := []string{"DefaultFormat", "RawFormat", "ZlibFormat", "GZIPFormat"}
	strs := []string{"default", "huffman-only", "huffman-rle", "fixed"}
	strGo := []string{"DefaultStrategy", "HuffmanOnlyStrategy", "HuffmanRLEStrategy", "FixedStrategy"}
	osGo := []string{"Unknown", "FAT", "Amiga", "VMS", "Unix", "VMCMS", "AtariTOS", "HPFS", "Macintosh", "ZSystem", "CPM", "TOPS20", "NTFS", "QDOS", "AcornRISCOS"}
	names := func(lists ...[]string) map[string]int {
		m := map[string]int{}
		for _, l := range lists {
			for i, s := range l {
				m[strings.ToLower(s)] = i
			}
		}
		return m
	}
	fn := names(fmts, fmtGo)
	fn["default"] = 0
	num := func(v int) string { return fmt.Sprint(v) }
	from := func(l []string) func(int) string {
		return func(v int) string {
			if v < 0 || v >= len(l) {
				return ""
			}
			return l[v]
		}
	}
	return []enum{
		{
			name: "Format", valid: rangeValid(0, 3),
			isValid: func(v int) bool { return flate.Format(v).IsValid() },
			str:     func(v int) string { return flate.Format(v).String() }, goStr: func(v int) string { return flate.Format(v).GoString() },
			goWant: from(fmtGo), js: func(v int) ([]byte, error) { return json.Marshal(flate.Format(v)) },
			jsWant: func(v int) string { return jstr(fmts[v]) },
			parse:  func(s int, x string) (int, error) { f := flate.Format(s); err := f.Parse(x); return int(f), err },
			names:  fn, option: func(v int) flate.Option { return flate.WithFormat(flate.Format(v)) },
		},
		{
			name: "Strategy", valid: rangeValid(0, 3),
			isValid: func(v int) bool { return flate.Strategy(v).IsValid() },
			str:     func(v int) string { return flate.Strategy(v).String() }, goStr: func(v int) string { return flate.Strategy(v).GoString() },
			goWant: from(strGo), js: func(v int) ([]byte, error) { return json.Marshal(flate.Strategy(v)) },
			jsWant: func(v int) string { return jstr(strs[v]) },
			parse:  func(s int, x string) (int, error) { f := flate.Strategy(s); err := f.Parse(x); return int(f), err },
			names:  names(strs, strGo), option: func(v int) flate.Option { return flate.WithStrategy(flate.Strategy(v)) },
		},
		{
			name: "CompressLevel", bits: true, valid: rangeValid(-1, 9),
			isValid: func(v int) bool { return flate.CompressLevel(v).IsValid() },
			str:     func(v int) string { return flate.CompressLevel(v).String() }, goStr: func(v int) string { return flate.CompressLevel(v).GoString() },
			js:     func(v int) ([]byte, error) { return json.Marshal(flate.CompressLevel(v)) },
			jsWant: num, def: -1,
			parse: func(s int, x string) (int, error) {
				f := flate.CompressLevel(s)
				err := f.Parse(x)
				return int(f), err
			},
			names:   map[string]int{"default": -1, "none": 0},
			numbers: func(n int) (int, bool) { return n, n <= 9 },
			option:  func(v int) flate.Option { return flate.WithCompressLevel(flate.CompressLevel(v)) },
		},
		{
			name: "MemoryLevel", valid: rangeValid(0, 9),
			isValid: func(v int) bool { return flate.MemoryLevel(v).IsValid() },
			str:     func(v int) string { return flate.MemoryLevel(v).String() }, goStr: func(v int) string { return flate.MemoryLevel(v).GoString() },
			js:     func(v int) ([]byte, error) { return json.Marshal(flate.MemoryLevel(v)) },
			jsWant: num,
			parse: func(s int, x string) (int, error) {
				f := flate.MemoryLevel(s)
				err := f.Parse(x)
				return int(f), err
			},
			names:   map[string]int{"default": 0},
			numbers: func(n int) (int, bool) { return n, n <= 9 },
			option:  func(v int) flate.Option { return flate.WithMemoryLevel(flate.MemoryLevel(v)) },
		},
		{
			name: "WindowBits", valid: func(v int) bool { return v == 0 || v >= 8 && v <= 15 },
			isValid: func(v int) bool { return flate.WindowBits(v).IsValid() },
			str:     func(v int) string { return flate.WindowBits(v).String() }, goStr: func(v int) string { return flate.WindowBits(v).GoString() },
			js:     func(v int) ([]byte, error) { return json.Marshal(flate.WindowBits(v)) },
			jsWant: num,
			parse: func(s int, x string) (int, error) {
				f := flate.WindowBits(s)
				err := f.Parse(x)
				return int(f), err
			},
			names:   map[string]int{"default": 0},
			numbers: func(n int) (int, bool) { return n, n >= 8 && n <= 15 },
			option:  func(v int) flate.Option { return flate.WithWindowBits(flate.WindowBits(v)) },
		},
		{
			name: "Method", valid: rangeValid(0, 0),
			isValid: func(v int) bool { return flate.Method(v).IsValid() },
			str:     func(v int) string { return flate.Method(v).String() }, goStr: func(v int) string { return flate.Method(v).GoString() },
			goWant: from([]string{"DeflateMethod"}), js: func(v int) ([]byte, error) { return json.Marshal(flate.Method(v)) },
			jsWant: func(v int) string { return `"deflate"` },
			option: func(v int) flate.Option { return flate.WithMethod(flate.Method(v)) },
		},
		{
			name: "FlushType", valid: rangeValid(0, 4),
			isValid: func(v int) bool { return flate.FlushType(v).IsValid() },
			str:     func(v int) string { return flate.FlushType(v).String() }, goStr: func(v int) string { return flate.FlushType(v).GoString() },
			goWant: from([]string{"BlockFlush", "PartialFlush", "SyncFlush", "FullFlush", "FinishFlush"}),
			js:     func(v int) ([]byte, error) { return json.Marshal(flate.FlushType(v)) },
		},
		{
			name: "DataType", valid: rangeValid(0, 2),
			isValid: func(v int) bool { return flate.DataType(v).IsValid() },
			str:     func(v int) string { return flate.DataType(v).String() }, goStr: func(v int) string { return flate.DataType(v).GoString() },
			goWant: from([]string{"UnknownData", "BinaryData", "TextData"}),
			js:     func(v int) ([]byte, error) { return json.Marshal(flate.DataType(v)) },
		},
		{
			name: "OSType", valid: rangeValid(0, 14),
			isValid: func(v int) bool { return flate.OSType(v).IsValid() },
			str:     func(v int) string { return flate.OSType(v).String() }, goStr: func(v int) string { return flate.OSType(v).GoString() },
			goWant: func(v int) string { return "OSType" + osGo[v] },
			js:     func(v int) ([]byte, error) { return json.Marshal(flate.OSType(v)) },
		},
		{
			name: "BlockType", valid: rangeValid(0, 3),
			str: func(v int) string { return flate.BlockType(v).String() }, goStr: func(v int) string { return flate.BlockType(v).GoString() },
			goWant: from([]string{"InvalidBlock", "StoredBlock", "StaticBlock", "DynamicBlock"}),
			js:     func(v int) ([]byte, error) { return json.Marshal(flate.BlockType(v)) },
		},
		{
			name: "EventType", valid: rangeValid(0, 6),
			str: func(v int) string { return flate.EventType(v).String() }, goStr: func(v int) string { return flate.EventType(v).GoString() },
			goWant: from([]string{"StreamBeginEvent", "StreamHeaderEvent", "BlockBeginEvent", "BlockTreesEvent", "BlockEndEvent", "StreamEndEvent", "StreamCloseEvent"}),
			js:     func(v int) ([]byte, error) { return json.Marshal(flate.EventType(v)) },
		},
	}
}

// want is the model of Parse.
func (e *enum) want(s string) (v int, ok, open bool) {
	if v, ok := e.names[strings.ToLower(s)]; ok {
		return v, true, false
	}
	if e.numbers == nil || s == "" {
		return e.def, false, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return e.def, false, false
		}
		if n < 1<<24 {
			n = n*10 + int(s[i]-'0')
		}
	}
	if len(s) > 1 && s[0] == '0' {
		return 0, false, true // leading zeros are nobody's business
	}
	if v, ok := e.numbers(n); ok {
		return v, true, false
	}
	return e.def, false, false
}

func (e *enum) checkParse(t *T, s string) {
	want, ok, open := e.want(s)
	if open {
		return
	}
	for _, start := range []int{3, 8, 0} {
		got, err := e.parse(start, s)
		t.Step(1)
		if ok != (err == nil) {
			t.Failf("%s.Parse(%q): error %v, but %v should be accepted", e.name, s, err, ok)
		}
		if got != want {
			t.Failf("%s.Parse(%q) (error %v) leaves %d, want %d", e.name, s, err, got, want)
		}
	}
}

func runP21(c *C) {
	es := enums()
	for ei := range es {
		e := &es[ei]
		c.CaseF("values", func() string { return e.name }, func(t *T) {
			seen := map[string]int{}
			for b := 0; b < 256; b++ {
				v := b
				if e.bits {
					v = int(int8(b))
				}
				t.Note("%s(%d)", e.name, v)
				valid := e.valid(v)
				if e.isValid != nil && e.isValid(v) != valid {
					t.Failf("%s(%d).IsValid() = %v", e.name, v, !valid)
				}
				if e.option != nil {
					if p, _ := t.Panics(func() { e.option(v) }); p == valid {
						t.Failf("option from %s(%d): panic %v, valid %v", e.name, v, p, valid)
					}
				}
				if !valid {
					continue
				}
				s, g := e.str(v), e.goStr(v)
				if old, ok := seen[s]; ok || s == "" {
					t.Failf("%s(%d).String() = %q, the same as of %d", e.name, v, s, old)
				}
				seen[s] = v
				if e.goWant != nil && g != e.goWant(v) {
					t.Failf("%s(%d).GoString() = %q, want %q", e.name, v, g, e.goWant(v))
				}
				if fmt.Sprint(v) == "" || g == "" {
					t.Failf("empty")
				}
				js, err := e.js(v)
				if err != nil || !json.Valid(js) {
					t.Failf("%s(%d) as JSON: %q, %v", e.name, v, js, err)
				}
				if old, ok := seen["json "+string(js)]; ok {
					t.Failf("%s(%d) as JSON is %q, the same as %d", e.name, v, js, old)
				}
				seen["json "+string(js)] = v
				if e.jsWant != nil && string(js) != e.jsWant(v) {
					t.Failf("%s(%d) as JSON is %s, want %s", e.name, v, js, e.jsWant(v))
				}
				if e.parse != nil {
					for _, start := range []int{3, 8, 0} {
						got, err := e.parse(start, s)
						if err != nil || got != v {
							t.Failf("%s(%d) prints as %q, which parses as %d, %v", e.name, v, s, got, err)
						}
					}
					if e.goWant != nil {
						if got, err := e.parse(3, g); err != nil || got != v {
							t.Failf("%s(%d) has the Go name %q, which parses as %d, %v", e.name, v, g, got, err)
						}
					}
				}
				t.Step(6)
				t.Trace()
				t.State(e.name, v)
			}
		})
		if e.parse == nil {
			continue
		}
		// names and their neighbours
		var accepted []string
		for n := range e.names {
			accepted = append(accepted, n)
		}
		sortStrings(accepted)
		for _, n := range accepted {
			n := n
			c.CaseF("names", func() string { return e.name + "/" + n }, func(t *T) {
				// all case variants of the first 12 letters
				var letters []int
				for i := range n {
					if n[i] >= 'a' && n[i] <= 'z' && len(letters) < c.Pick(12, 16) {
						letters = append(letters, i)
					}
				}
				for m := 0; m < 1<<uint(len(letters)); m++ {
					b := []byte(n)
					for k, i := range letters {
						if m>>uint(k)&1 != 0 {
							b[i] -= 32
						}
					}
					e.checkParse(t, string(b))
				}
				e.checkParse(t, strings.ToUpper(n))
				for i := 0; i <= len(n); i++ {
					e.checkParse(t, n[:i])
					e.checkParse(t, n[i:])
					if i < len(n) {
						e.checkParse(t, n[:i]+n[i+1:])
					}
					for ch := 0; ch < 128; ch++ {
						e.checkParse(t, n[:i]+string(rune(ch))+n[i:])
						if i < len(n) {
							e.checkParse(t, n[:i]+string(rune(ch))+n[i+1:])
						}
					}
				}
				for _, o := range accepted {
					e.checkParse(t, n+o)
					e.checkParse(t, n+" "+o)
				}
				t.Traces(1 << uint(len(letters)))
				t.State(e.name, n)
			})
		}
		for b := 0; b < 256; b++ {
			b := b
			c.CaseF("strings", func() string { return fmt.Sprintf("%s/%02x", e.name, b) }, func(t *T) {
				if b == 0 {
					e.checkParse(t, "")
				}
				e.checkParse(t, string([]byte{byte(b)}))
				for b2 := 0; b2 < 256; b2++ {
					e.checkParse(t, string([]byte{byte(b), byte(b2)}))
					if b < 128 && b2 < 128 {
						for b3 := 0; b3 < 128; b3++ {
							e.checkParse(t, string([]byte{byte(b), byte(b2), byte(b3)}))
						}
					}
				}
				t.Traces(256)
				t.State(e.name, b)
			})
		}
		c.CaseF("numbers", func() string { return e.name }, func(t *T) {
			for n := 0; n <= 70000; n++ {
				e.checkParse(t, fmt.Sprint(n))
			}
			for _, s := range []string{"4294967296", "4294967297", "4294967304", "18446744073709551615", "18446744073709551616", "18446744073709551624",
				"-1", "-0", "+1", "+8", "1e1", "0x8", "0b1000", "8.0", "8 ", " 8", "1_0", "\t9", "9\n", "8\x00", "٨", "-8", "256", "264", "257", "265", "248", "255",
				"nil", "null", "invalid", "unknown", "Default Compression", "MemoryLevel(3)", "CompressLevel(3)", "WindowBits(9)", "DefaultMemory ", strings.Repeat("9", 400)} {
				e.checkParse(t, s)
				e.checkParse(t, s+s)
			}
			t.Traces(70000)
			t.State(e.name, "numbers")
		})
	}
	runP21rest(c)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

type nopTracer struct{ id int }

func (*nopTracer) OnEvent(flate.Event) {}

func runP21rest(c *C) {
	// options on other values
	c.Case("options", "", func(t *T) {
		if p, _ := t.Panics(func() { flate.WithDictionary([]byte{}) }); !p {
			t.Failf("WithDictionary of an empty dictionary does not panic")
		}
		for _, f := range []func(){
			func() { flate.WithDictionary(nil) }, func() { flate.WithDictionary([]byte{0}) }, func() { flate.WithTracers() }, func() { flate.WithTracers(&nopTracer{}) },
		} {
			if p, v := t.Panics(f); p {
				t.Failf("a valid option panics: %v", v)
			}
		}
		if p, _ := t.Panics(func() { flate.WithTracers(nil) }); p {
			// A nil list is no list: allowed to be either.
			t.State("nil tracer panics")
		}
		t.Trace()
	})
	// accessors
	trs := []flate.Tracer{&nopTracer{1}, &nopTracer{2}}
	for fi := 0; fi < 4; fi++ {
		for m := 0; m <= 9; m++ {
			fi, m := fi, m
			c.CaseF("accessors", func() string { return fmt.Sprintf("f%d/m%d", fi, m) }, func(t *T) {
				for w := 7; w <= 15; w++ {
					wb := w
					if w == 7 {
						wb = 0
					}
					for s := 0; s < 4; s++ {
						for l := -1; l <= 9; l++ {
							if m > 2 && (w+s+l+m)%5 != 0 || m == 9 && (w+s+l)%3 != 0 {
								continue
							}
							var dict []byte
							var tr []flate.Tracer
							if (w+s+l)%2 == 0 {
								dict = noise(1+w, 1)
							}
							if (w+s+l+1)%3 > 0 {
								tr = trs[:(w+s+l+1)%3]
							}
							opts := []flate.Option{flate.WithFormat(flate.Format(fi)), flate.WithMemoryLevel(flate.MemoryLevel(m)), flate.WithWindowBits(flate.WindowBits(wb)),
								flate.WithStrategy(flate.Strategy(s)), flate.WithCompressLevel(flate.CompressLevel(l)), flate.WithMethod(flate.DefaultMethod), flate.WithDictionary(dict), flate.WithTracers(tr...)}
							// also in the other order
							if l%2 == 0 {
								for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
									opts[i], opts[j] = opts[j], opts[i]
								}
							}
							em, ew, el, ef := m, wb, l, fi
							if m == 0 {
								em = 9
							}
							if wb == 0 {
								ew = 15
							}
							if l == -1 {
								el = 6
							}
							if fi == 0 {
								ef = int(flate.ZlibFormat)
							}
							sink := &bytes.Buffer{}
							fw := flate.NewWriter(sink, opts...)
							t.Note("f%d m%d w%d s%d l%d", fi, m, wb, s, l)
							if int(fw.Format()) != ef || int(fw.MemoryLevel()) != em || int(fw.WindowBits()) != ew || int(fw.CompressLevel()) != el ||
								int(fw.Strategy()) != s || fw.Method() != flate.DeflateMethod || !bytes.Equal(fw.Dict(), dict) || !sameTracers(fw.Tracers(), tr) || fw.UnderlyingWriter() != io.Writer(sink) {
								t.Failf("%s: the Writer says format %v mem %v window %v level %v strategy %v method %v dict %x tracers %d", t.note,
									fw.Format(), fw.MemoryLevel(), fw.WindowBits(), fw.CompressLevel(), fw.Strategy(), fw.Method(), fw.Dict(), len(fw.Tracers()))
							}
							src := &bytes.Buffer{}
							fr := flate.NewReader(src, opts...)
							if int(fr.Format()) != fi || int(fr.MemoryLevel()) != em || int(fr.WindowBits()) != ew || !bytes.Equal(fr.Dict(), dict) ||
								!sameTracers(fr.Tracers(), tr) {
								t.Failf("%s: the Reader says format %v mem %v window %v dict %x tracers %d", t.note, fr.Format(), fr.MemoryLevel(), fr.WindowBits(), fr.Dict(), len(fr.Tracers()))
							}
							_ = fr.Close()
							t.Step(18)
							t.Traces(2)
							t.State(fi, m, wb, s, l)
						}
					}
				}
			})
		}
	}
	// a single option leaves the others at their defaults, the last one wins
	c.Case("single", "", func(t *T) {
		check := func(what string, f, m, w, l, s int, opts ...flate.Option) {
			fw := flate.NewWriter(io.Discard, opts...)
			if int(fw.Format()) != f || int(fw.MemoryLevel()) != m || int(fw.WindowBits()) != w || int(fw.CompressLevel()) != l || int(fw.Strategy()) != s {
				t.Failf("%s: the Writer says format %v mem %v window %v level %v strategy %v", what, fw.Format(), fw.MemoryLevel(), fw.WindowBits(), fw.CompressLevel(), fw.Strategy())
			}
			t.Trace()
		}
		check("none", 2, 9, 15, 6, 0)
		for v := 1; v < 4; v++ {
			check("format", v, 9, 15, 6, 0, flate.WithFormat(flate.Format(v)))
			check("strategy", 2, 9, 15, 6, v, flate.WithStrategy(flate.Strategy(v)))
			check("strategy twice", 2, 9, 15, 6, 4-v, flate.WithStrategy(flate.Strategy(v)), flate.WithStrategy(flate.Strategy(4-v)))
		}
		for v := 1; v <= 9; v++ {
			check("memory", 2, v, 15, 6, 0, flate.WithMemoryLevel(flate.MemoryLevel(v)))
			check("level", 2, 9, 15, v, 0, flate.WithCompressLevel(flate.CompressLevel(v)))
			check("memory twice", 2, 10-v, 15, 6, 0, flate.WithMemoryLevel(flate.MemoryLevel(v)), flate.WithMemoryLevel(flate.MemoryLevel(10-v)))
		}
		for v := 8; v <= 15; v++ {
			check("window", 2, 9, v, 6, 0, flate.WithWindowBits(flate.WindowBits(v)))
		}
		fr := flate.NewReader(&bytes.Buffer{})
		if fr.Format() != flate.DefaultFormat || fr.MemoryLevel() != 9 || fr.WindowBits() != 15 || fr.Dict() != nil || len(fr.Tracers()) != 0 {
			t.Failf("Reader defaults: %v %v %v", fr.Format(), fr.MemoryLevel(), fr.WindowBits())
		}
		_ = fr.Close()
	})
	// checksums
	sum := func(t *T, v uint32) {
		cs := flate.Checksum32(v)
		js, err := json.Marshal(cs)
		if err != nil || !json.Valid(js) {
			t.Failf("Checksum32(%#x) as JSON: %q, %v", v, js, err)
		}
		for _, start := range []uint32{0, 0xffffffff} {
			back := flate.Checksum32(start)
			if err := json.Unmarshal(js, &back); err != nil || uint32(back) != v {
				t.Failf("Checksum32(%#x) as JSON is %s, which reads as %#x, %v", v, js, uint32(back), err)
			}
		}
		var n uint32
		if _, err := fmt.Sscanf(cs.String(), "0x%x", &n); err != nil || n != v {
			t.Failf("Checksum32(%#x) prints as %q", v, cs.String())
		}
		t.Step(3)
	}
	for b := 0; b < 256; b++ {
		b := b
		c.CaseF("checksum", func() string { return fmt.Sprint(b) }, func(t *T) {
			for i := uint(0); i < 4; i++ {
				for b2 := 0; b2 < 256; b2 += c.Pick(3, 1) {
					for j := uint(0); j < 4; j++ {
						sum(t, uint32(b)<<(8*i)|uint32(b2)<<(8*j))
						sum(t, ^(uint32(b)<<(8*i) | uint32(b2)<<(8*j)))
					}
				}
			}
			t.Traces(2048)
			t.State("checksum", b)
		})
	}
	c.Case("checksum", "bad", func(t *T) {
		for i := uint(0); i < 32; i++ {
			sum(t, 1<<i)
			sum(t, 1<<i-1)
		}
		for _, s := range []string{`""`, `"0x"`, `"0xg"`, `"0x100000000"`, `"123456789"`, `"-1"`, `"0x-1"`, `" 1"`, `"1 "`, `{}`, `[]`, `true`, `12`, `1.5`, `"0x1_0"`, `"xyz"`, `"0x 1"`} {
			v := flate.Checksum32(7)
			if err := json.Unmarshal([]byte(s), &v); err == nil {
				t.Failf("Checksum32 accepts JSON %s as %#x", s, uint32(v))
			}
		}
		t.Trace()
	})
	// events as JSON
	var files []vfile
	{
		t := &T{c: c}
		if f := t.run(func(t *T) { files = validFiles(t, true) }); f != "" {
			panic(f)
		}
	}
	for _, v := range files {
		v := v
		c.CaseF("events", func() string { return v.name }, func(t *T) {
			rec := &evRec{}
			var log bytes.Buffer
			o := v.o
			o.Mem = 1
			o.Tr = []flate.Tracer{rec, flate.Log(zerolog.New(&log).Level(zerolog.TraceLevel))}
			old := zerolog.GlobalLevel()
			zerolog.SetGlobalLevel(zerolog.TraceLevel)
			defer zerolog.SetGlobalLevel(old)
			if _, err := decodeAll(t, v.in, o); err != io.EOF {
				t.Failf("%v", err)
			}
			lines := bytes.Split(bytes.TrimSpace(log.Bytes()), []byte("\n"))
			if len(lines) != len(rec.evs) {
				t.Failf("%d log lines for %d events", len(lines), len(rec.evs))
			}
			for i, e := range rec.evs {
				js, err := json.Marshal(e)
				if err != nil || !json.Valid(js) {
					t.Failf("event %d as JSON: %v", i, err)
				}
				var line struct {
					Level string
					Event interface{}
				}
				if err := json.Unmarshal(lines[i], &line); err != nil || line.Level != "trace" {
					t.Failf("log line %d is %s: %v", i, lines[i], err)
				}
				var direct map[string]interface{}
				must(json.Unmarshal(js, &direct))
				if !reflect.DeepEqual(interface{}(direct), line.Event) {
					t.Failf("log line %d says %s, the event is %s", i, lines[i], js)
				}
				// the checksums and sizes are those of the event
				if e.Footer != nil {
					var f struct{ Footer flate.FooterEvent }
					if err := json.Unmarshal(js, &f); err != nil || f.Footer != *e.Footer {
						t.Failf("footer as JSON: %s: %v", js, err)
					}
				}
				if e.Trees != nil {
					var f struct {
						Trees struct{ LiteralLengthSizes, DistanceSizes, CodeSizes []int }
					}
					if err := json.Unmarshal(js, &f); err != nil || !sameInts(f.Trees.LiteralLengthSizes, e.Trees.LiteralLengthSizes) ||
						!sameInts(f.Trees.DistanceSizes, e.Trees.DistanceSizes) || !sameInts(f.Trees.CodeSizes, e.Trees.CodeSizes) {
						t.Failf("trees as JSON: %s: %v", js, err)
					}
				}
			}
			t.State("events", v.name)
		})
	}
}

func sameInts(a []int, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != int(b[i]) {
			return false
		}
	}
	return true
}
