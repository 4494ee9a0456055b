package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{ID: "P28", Run: runP28,
		Bounds:      "Writer: the generic Writer sweep (formats, strategies, levels, memory levels, windows, dictionaries, all sequences of three flush types, boundary lengths, all short strings), each run repeated in 10 surroundings (underlying writers of six dynamic types, tracers, options in other orders and given repeatedly, pools filled with other instances' leavings or emptied by the garbage collector, other alignment and capacity of the caller's slices, other goroutine and stack depth), the small runs with default options (thorough: all small runs) in all of them, the others in two each in rotation; Reader: corpus of valid, truncated, corrupt and concatenated files x 12 underlying reader types x 6 surroundings; both again more than a second later, and in separate processes under 7 environments (time zone, locale, user, directory, GOMAXPROCS, GOGC, CPU features)",
		Assumptions: []string{"An underlying writer which has a Flush or Sync method may be flushed; it gets the same bytes."},
	})
}

// Sinks of different dynamic types.

type plainSink struct{ b *bytes.Buffer }

func (s plainSink) Write(p []byte) (int, error) { return s.b.Write(p) }

type richSink struct{ bytes.Buffer }

func (s *richSink) Flush() error { return nil }
func (s *richSink) Sync() error  { return nil }

type seekSink struct{ plainSink }

func (s seekSink) Seek(off int64, wh int) (int64, error) { return 0, nil }
func (s seekSink) Close() error                          { return nil }
func (s seekSink) Name() string                          { return "name.txt" }

// run28 runs r in surroundings v.
func run28(t *T, r *wrun, v int) []byte {
	o := r.o
	opts := o.opts()
	var buf bytes.Buffer
	var sink io.Writer = &buf
	done := func() []byte { return buf.Bytes() }
	pieces := r.pieces
	direct := true
	switch v {
	case 0:
	case 1:
		sink = plainSink{&buf}
	case 2:
		s := &richSink{}
		sink, done = s, func() []byte { return s.Bytes() }
		opts = append(opts, flate.WithTracers(flate.NoOpTracer{}))
	case 3:
		bw := bufio.NewWriterSize(plainSink{&buf}, 64)
		sink, done = bw, func() []byte { _ = bw.Flush(); return buf.Bytes() }
		opts = append(opts, flate.WithTracers(&evRec{}, flate.TracerFunc(func(flate.Event) { runtime.Gosched() })))
	case 4:
		sink = seekSink{plainSink{&buf}}
		// Reverse order; and everything given before with other values.
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
		pre := []flate.Option{flate.WithFormat(flate.GZIPFormat), flate.WithStrategy(flate.HuffmanRLEStrategy), flate.WithCompressLevel(9),
			flate.WithMemoryLevel(3), flate.WithWindowBits(9), flate.WithDictionary([]byte("other")), flate.WithTracers(flate.NoOpTracer{})}
		if o.Dict == nil {
			pre = append(pre, flate.WithDictionary(nil))
		}
		opts = append(append(pre, flate.WithTracers()), opts...)
	case 5:
		// Leavings of others in the pools.
		var junk bytes.Buffer
		fw := flate.NewWriter(&junk, flate.WithFormat(flate.GZIPFormat), flate.WithCompressLevel(9), flate.WithDictionary([]byte("junk dictionary")))
		_, _ = fw.Write(texty(3000, 99))
		_ = fw.Flush(flate.SyncFlush)
		_ = fw.Close()
		fr := flate.NewReader(bytes.NewReader(junk.Bytes()), flate.WithDictionary([]byte("junk dictionary")))
		_, _ = fr.Read(make([]byte, 100))
		_ = fr.Close()
	case 6:
		runtime.GC()
		runtime.GC()
	case 7:
		// Slices elsewhere, with spare capacity full of something else.
		pieces = nil
		for i, p := range r.pieces {
			q := make([]byte, len(p)+300)
			for k := range q {
				q[k] = byte(k*7 + i)
			}
			at := 1 + i%13
			copy(q[at:], p)
			pieces = append(pieces, q[at:at+len(p)])
		}
	case 8:
		direct = false
	case 9:
		// Method given, nil for empty pieces.
		opts = append(opts, flate.WithMethod(flate.DefaultMethod))
		pieces = nil
		for _, p := range r.pieces {
			if len(p) == 0 {
				p = nil
			}
			pieces = append(pieces, p)
		}
	}
	body := func() {
		fw := flate.NewWriter(sink, opts...)
		for i, p := range pieces {
			n, err := fw.Write(p)
			if n != len(p) || err != nil {
				t.Failf("Write(%d bytes) returned %d, %v in surroundings %d", len(p), n, err, v)
			}
			if i < len(r.flush) && r.flush[i] >= 0 {
				if err := fw.Flush(flate.FlushType(r.flush[i])); err != nil {
					t.Failf("Flush returned %v in surroundings %d", err, v)
				}
			}
			if v == 8 {
				runtime.Gosched()
			}
		}
		if err := fw.Close(); err != nil {
			t.Failf("Close returned %v in surroundings %d", err, v)
		}
	}
	if direct {
		body()
	} else {
		var fail interface{}
		ch := make(chan struct{})
		go func() {
			defer close(ch)
			defer func() { fail = recover() }()
			var deep func(n int, pad [64]int)
			deep = func(n int, pad [64]int) {
				if n == 0 {
					body()
					return
				}
				pad[n&63]++
				deep(n-1, pad)
			}
			deep(100, [64]int{})
		}()
		<-ch
		if fail != nil {
			panic(fail)
		}
	}
	t.Trace()
	return done()
}

const surroundings = 10

// Sources of different dynamic types.

type plainSource struct{ r io.Reader }

func (s plainSource) Read(p []byte) (int, error) { return s.r.Read(p) }

type source28 struct {
	name string
	mk   func(in []byte, dir string) (io.Reader, func())
}

func nop() {}

var sources28 = []source28{
	{"bytes.Reader", func(in []byte, _ string) (io.Reader, func()) { return bytes.NewReader(in), nop }},
	{"plain", func(in []byte, _ string) (io.Reader, func()) { return plainSource{bytes.NewReader(in)}, nop }},
	{"bytes.Buffer", func(in []byte, _ string) (io.Reader, func()) {
		return bytes.NewBuffer(append([]byte(nil), in...)), nop
	}},
	{"strings.Reader", func(in []byte, _ string) (io.Reader, func()) { return strings.NewReader(string(in)), nop }},
	{"bufio", func(in []byte, _ string) (io.Reader, func()) {
		return bufio.NewReaderSize(bytes.NewReader(in), 16), nop
	}},
	{"bufio big", func(in []byte, _ string) (io.Reader, func()) { return bufio.NewReader(bytes.NewReader(in)), nop }},
	{"multi", func(in []byte, _ string) (io.Reader, func()) {
		h := len(in) / 2
		return io.MultiReader(bytes.NewReader(in[:h]), strings.NewReader(""), bytes.NewReader(in[h:])), nop
	}},
	{"limited", func(in []byte, _ string) (io.Reader, func()) {
		return io.LimitReader(bytes.NewReader(append(append([]byte(nil), in...), "more"...)), int64(len(in))), nop
	}},
	{"section", func(in []byte, _ string) (io.Reader, func()) {
		return io.NewSectionReader(bytes.NewReader(append([]byte("xx"), in...)), 2, int64(len(in))), nop
	}},
	{"file", func(in []byte, dir string) (io.Reader, func()) {
		f, err := os.CreateTemp(dir, "src")
		must(err)
		_, err = f.Write(in)
		must(err)
		_, err = f.Seek(0, 0)
		must(err)
		return f, func() { _ = f.Close(); _ = os.Remove(f.Name()) }
	}},
	{"pipe", func(in []byte, _ string) (io.Reader, func()) {
		pr, pw := io.Pipe()
		go func() { _, _ = pw.Write(in); _ = pw.Close() }()
		return pr, func() { _ = pr.Close() }
	}},
	{"half", func(in []byte, _ string) (io.Reader, func()) {
		return iotest.HalfReader(iotest.DataErrReader(bytes.NewReader(in))), nop
	}},
}

// read28 decodes in from a source in surroundings v, and renders the outcome.
func read28(t *T, in []byte, o rOpt, src source28, v int, dir string) string {
	r, end := src.mk(in, dir)
	defer end()
	opts := o.opts()
	switch v {
	case 1:
		opts = append(opts, flate.WithTracers(&evRec{}))
	case 2:
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
		pre := []flate.Option{flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(3), flate.WithWindowBits(9), flate.WithDictionary([]byte("other"))}
		if o.Dict == nil {
			pre = append(pre, flate.WithDictionary(nil))
		}
		opts = append(pre, opts...)
	case 3:
		// What only matters to Writers.
		opts = append(opts, flate.WithStrategy(flate.FixedStrategy), flate.WithCompressLevel(9), flate.WithMethod(flate.DefaultMethod))
	case 4:
		runtime.GC()
		runtime.GC()
	case 5:
		var junk bytes.Buffer
		fw := flate.NewWriter(&junk, flate.WithFormat(flate.GZIPFormat), flate.WithCompressLevel(9))
		_, _ = fw.Write(texty(2000, 98))
		_ = fw.Close()
		fr := flate.NewReader(bytes.NewReader(junk.Bytes()[:junk.Len()/2]))
		_, _ = io.Copy(io.Discard, fr)
		_ = fr.Close()
	}
	fr := flate.NewReader(r, opts...)
	out, err := drainR(t, fr, nil)
	_ = fr.Close()
	t.Trace()
	return fmt.Sprintf("%x %d %v", sha256.Sum256(out), len(out), err)
}

// detRuns is a set of Writer uses and Reader inputs for comparison over time
// and between processes.
func detSum(t *T) string {
	var out []string
	add := func(what string, b []byte) {
		h := sha256.Sum256(b)
		out = append(out, what+" "+hex.EncodeToString(h[:6]))
	}
	n := 0
	for _, k := range []fmtKind{kAuto, kRaw, kZlib, kGzip} {
		for _, s := range allStrats {
			for _, l := range []int{-1, 0, 1, 3, 6, 9} {
				for _, m := range []int{0, 1, 5, 9} {
					if m == 9 && l != 6 {
						continue
					}
					n++
					o := wOpt{K: k, Strat: s, Lvl: l, Mem: m, Dict: dictFor(n%3, 12)}
					if n%2 == 0 {
						o.W = 12
					}
					r := &wrun{o: o, pieces: [][]byte{texty(700+n, 3), noise(300, uint64(n)), zeros(500), nil}, flush: []int{n%5 - 1, 1, -1, -1}}
					add(o.String(), run28(t, r, 0))
				}
			}
		}
	}
	// Many short writes.
	for i, m := range []int{0, 1, 3, 5} {
		for j, s := range allStrats {
			for _, size := range []int{60, 1000, 3000} {
				o := wOpt{K: allKinds[(i+j)%3], Strat: s, Lvl: []int{6, 1, 0, 9}[(i+j)%4], Mem: m}
				r := &wrun{o: o, pieces: split(texty(13000, uint64(i+1)), size)}
				add(fmt.Sprint(o, " pieces of ", size), run28(t, r, 0))
			}
		}
	}
	// Headers, with every set of fields given.
	for i := 0; i < 64; i++ {
		var h flate.Header
		if i&1 != 0 {
			h.FileName = "f"
		}
		if i&2 != 0 {
			h.Comment = "c"
		}
		if i&4 != 0 {
			h.LastModified = time.Unix(1e9, 0)
		}
		if i&8 != 0 {
			h.OSType = flate.OSTypeUnix
		}
		if i&16 != 0 {
			h.DataType = flate.BinaryData
		}
		if i&32 != 0 {
			h.ExtraData.Records = []flate.ExtraDataRecord{{ID: [2]byte{'a', 'b'}, Bytes: []byte("c")}}
		}
		var sink bytes.Buffer
		fw := flate.NewWriter(&sink, flate.WithFormat(flate.GZIPFormat))
		if err := fw.SetHeader(h); err != nil {
			t.Failf("SetHeader: %v", err)
		}
		writeAll(t, fw, texty(100, 1))
		if err := fw.Close(); err != nil {
			t.Failf("Close: %v", err)
		}
		add(fmt.Sprint("header ", i), sink.Bytes())
		var got flate.Header
		fr := flate.NewReader(bytes.NewReader(sink.Bytes()), flate.WithTracers(flate.CaptureHeader(&got)))
		_, err := io.Copy(io.Discard, fr)
		_ = fr.Close()
		lm := int64(0)
		if !got.LastModified.IsZero() {
			lm = got.LastModified.Unix()
		}
		got.LastModified = time.Time{}
		out = append(out, fmt.Sprintf("header read %d %v %+v %d", i, err, got, lm))
	}
	files, err := corpusQuiet(t.c)
	if err != "" {
		t.Failf("%s", err)
	}
	for i, f := range files {
		in := f.in
		switch i % 4 {
		case 1:
			in = in[:len(in)*2/3]
		case 2:
			in = append([]byte(nil), in...)
			in[len(in)/2] ^= 4
		case 3:
			in = append(append([]byte(nil), in...), in...)
		}
		out = append(out, f.name+" "+read28(t, in, f.o, sources28[0], 0, ""))
	}
	return strings.Join(out, "\n")
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return "missing: " + x[i]
		}
		if x[i] != y[i] {
			return fmt.Sprintf("%q instead of %q", y[i], x[i])
		}
	}
	return "additional lines"
}

// detMain is the process started for comparison.
func detMain() {
	if len(os.Args) > 2 {
		part, err := strconv.Atoi(os.Args[2])
		must(err)
		fmt.Print(sum31(part))
		return
	}
	t := &T{c: &C{describe: -1, only: -1, of: 1}}
	var s string
	if f := t.run(func(t *T) { s = detSum(t) }); f != "" {
		fmt.Println("FAIL", f)
		os.Exit(1)
	}
	fmt.Print(s)
}

func runP28(c *C) {
	c.Case("later", "later", func(t *T) {
		a := detSum(t)
		time.Sleep(1200 * time.Millisecond)
		if b := detSum(t); a != b {
			t.Failf("the same calls gave other results a second later: %s", diffLine(a, b))
		}
	})
	self, _ := os.Executable()
	for _, env := range []string{"", "TZ=Asia/Tokyo LANG=tr_TR.UTF-8 LC_ALL=tr_TR.UTF-8 HOME=/nonexistent USER=nobody", "GOMAXPROCS=1 GOGC=1", "GOGC=off GOMAXPROCS=8", "GOMAXPROCS=2",
		"GODEBUG=cpu.pclmulqdq=off,cpu.sse41=off", "GODEBUG=cpu.all=off", "SOURCE_DATE_EPOCH=12345 PWD=/ GZIP=-1 TERM=dumb"} {
		env := env
		c.Case("process", env, func(t *T) {
			a := detSum(t)
			dir, e := os.MkdirTemp("", "p28.")
			must(e)
			defer os.RemoveAll(dir)
			cmd := exec.Command(self, "detsum")
			cmd.Dir = dir
			cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "TMPDIR=" + filepath.Clean(dir)}, strings.Fields(env)...)
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			out, e := cmd.Output()
			if e != nil {
				t.Failf("process with %q: %v %s %s", env, e, shorten(string(out), 2000), shorten(stderr.String(), 2000))
			}
			t.Trace()
			if a != string(out) {
				t.Failf("the same calls gave other results in a process with %q: %s", env, diffLine(a, string(out)))
			}
		})
	}

	i := 0
	writerRuns(c, nil, func(t *T, r *wrun) {
		i++
		base := run28(t, r, 0)
		check := func(v int) {
			got := run28(t, r, v)
			if !bytes.Equal(got, base) {
				t.Failf("%v %s: the output in surroundings %d differs from that in surroundings 0: %s", r.o, r.name, v, diffAt(got, base))
			}
		}
		if v := i % surroundings; v == 6 && i%100 != 6 {
			// Collections are expensive.
			check(0)
		} else {
			check(v)
		}
		if len(r.data()) < 2000 && r.o.Mem < 5 && (!c.Quick() || r.tag == "defaults" || i%16 == 0) {
			for v := 0; v < surroundings; v++ {
				if v != 6 || !c.Quick() && i%10 == 0 {
					check(v)
				}
			}
		} else {
			check([]int{1, 2, 3, 4, 5, 7, 8, 9}[i/surroundings%8])
		}
	})

	runOrders(c)

	files, err := corpusQuiet(c)
	if err != "" {
		c.Case("corpus", "corpus", func(t *T) { t.Failf("%s", err) })
		return
	}
	for fi, f := range files {
		fi, f := fi, f
		c.CaseF("read", func() string { return f.name }, func(t *T) {
			dir, e := os.MkdirTemp("", "p28.")
			must(e)
			defer os.RemoveAll(dir)
			ins := [][]byte{f.in, f.in[:len(f.in)/2], f.in[:len(f.in)-1], append(append([]byte(nil), f.in...), f.in...), append(append([]byte(nil), f.in...), "trailing"...)}
			x := append([]byte(nil), f.in...)
			x[len(x)/2] ^= 0x10
			ins = append(ins, x)
			for k, in := range ins {
				for _, m := range []int{1, 9} {
					o := f.o
					o.Mem = m
					base := read28(t, in, o, sources28[0], 0, dir)
					for si, s := range sources28 {
						for v := 0; v < 6; v++ {
							if v == 4 && (fi+k+si+m)%40 != 0 || c.Quick() && v != 0 && (fi+k+si+v)%4 != 0 {
								continue
							}
							t.Note("%s input %d source %s surroundings %d m%d", f.name, k, s.name, v, m)
							got := read28(t, in, o, s, v, dir)
							if got != base {
								t.Failf("%s input %d, m%d, from a %s in surroundings %d: %s instead of %s", f.name, k, m, s.name, v, got, base)
							}
							t.State(t.note)
						}
					}
				}
			}
		})
	}

}

// runOrders: options given in every order, at first and to Reset, and what
// remains of them for a later Reset with one more.
func runOrders(c *C) {
	data := concat(texty(500, 7), zeros(200), texty(400, 7))
	n := 0
	for _, k := range []fmtKind{kRaw, kGzip} {
		for _, s := range allStrats {
			for _, l := range []int{-1, 0, 1, 6, 9} {
				for _, m := range []int{0, 1, 9} {
					n++
					if c.Quick() && m == 9 && n%2 == 0 {
						continue
					}
					o := wOpt{K: k, Strat: s, Lvl: l, Mem: m, W: 8 + n%8, Dict: dictFor(n%2, 12)}
					c.CaseF("orders", func() string { return o.String() }, func(t *T) {
						opts := []flate.Option{flate.WithStrategy(o.Strat), flate.WithCompressLevel(flate.CompressLevel(o.Lvl)),
							flate.WithMemoryLevel(flate.MemoryLevel(o.Mem)), flate.WithWindowBits(flate.WindowBits(o.W)), flate.WithDictionary(o.Dict)}
						fo := flate.WithFormat(flate.RawFormat)
						if o.K == kGzip {
							fo = flate.WithFormat(flate.GZIPFormat)
						}
						later := []flate.Option{nil, flate.WithCompressLevel(6), flate.WithCompressLevel(0), flate.WithStrategy(flate.HuffmanRLEStrategy),
							flate.WithStrategy(flate.DefaultStrategy), flate.WithMemoryLevel(4), flate.WithWindowBits(15), flate.WithDictionary(nil), flate.WithDictionary([]byte("the of and"))}
						li := 0
						one := func(order []int, useReset bool) []byte {
							var sink bytes.Buffer
							var given []flate.Option
							for _, i := range order {
								given = append(given, opts[i])
							}
							var fw *flate.Writer
							if useReset {
								fw = flate.NewWriter(&sink, fo)
								fw.Reset(&sink, given...)
							} else {
								fw = flate.NewWriter(&sink, append(given, fo)...)
							}
							writeAll(t, fw, data)
							if err := fw.Close(); err != nil {
								t.Failf("Close: %v", err)
							}
							if later[li] != nil {
								fw.Reset(&sink, later[li])
							} else {
								fw.Reset(&sink)
							}
							writeAll(t, fw, data)
							if err := fw.Close(); err != nil {
								t.Failf("Close: %v", err)
							}
							t.Trace()
							t.Step(2)
							return sink.Bytes()
						}
						for li = range later {
							base := one([]int{0, 1, 2, 3, 4}, false)
							k := 0
							permute(5, func(order []int) {
								k++
								if c.Quick() && (k+li)%6 != 0 {
									return
								}
								for _, r := range []bool{false, true} {
									t.Note("%v order %v, by Reset %v, later %d", o, order, r, li)
									if got := one(order, r); !bytes.Equal(got, base) {
										t.Failf("%s: the output differs from that with the options in another order: %s", t.note, diffAt(got, base))
									}
								}
							})
							t.State(o, li)
						}
					})
				}
			}
		}
	}
}

// permute calls f with every order of 0..n-1.
func permute(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}
