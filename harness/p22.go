package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{ID: "P22", Run: runP22, MaxProcs: 2,
		Bounds: "the command is built from the tree and run as a process: (format 4 x strategy 4 x level 12 x input 4) with -d back, window and memory flags x format; 5 dictionaries x 5 dictionaries x format; 13 dictionaries of unusual bytes x format, with own and hand-made streams; every level x strategy x format and 5 memory/window settings against the library; header values 12x6x7; every truncation and every single-bit change of a small file of each format, judged by the reference decoder; every invalid value of each flag from a list; logging modes; output device full; unreadable input; operands (standard input as \"-\", files, missing files, several) x format x -d x 5 flag sets",
		Assumptions: []string{"Only standard input to standard output operation is implemented by the command (it says so for other uses).",
			"The command is executed as a black box; its exit status, standard output and standard error are what is judged."}})
}

type cmdRes struct {
	code   int
	out    []byte
	stderr string
}

// gz runs the command under test.
func gz(t *T, in []byte, args ...string) cmdRes { return gzFile(t, in, nil, nil, args...) }

func gzFile(t *T, in []byte, stdin, stdout *os.File, args ...string) cmdRes {
	bin := os.Getenv("VERIF_GZIP")
	if bin == "" {
		panic("VERIF_GZIP is not set")
	}
	cmd := exec.Command(bin, args...)
	var ob, eb bytes.Buffer
	cmd.Stderr = &eb
	if stdin != nil {
		cmd.Stdin = stdin
	} else {
		cmd.Stdin = bytes.NewReader(in)
	}
	if stdout != nil {
		cmd.Stdout = stdout
	} else {
		cmd.Stdout = &ob
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	timer := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Signal(syscall.SIGQUIT) })
	_ = cmd.Wait()
	t.Step(1)
	t.c.crumb.tick()
	if !timer.Stop() {
		t.Failf("gzip %q did not end within a minute: %s", args, shorten(eb.String(), 3000))
	}
	code := cmd.ProcessState.ExitCode()
	s := eb.String()
	if strings.Contains(s, "goroutine ") && strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
		t.Failf("gzip %q crashed: %s", args, shorten(s, 3000))
	}
	t.State(strings.Join(args, " "), code, refCRC(in), refCRC(ob.Bytes()))
	return cmdRes{code, ob.Bytes(), s}
}

func gzOK(t *T, what string, in []byte, args ...string) []byte {
	r := gz(t, in, args...)
	if r.code != 0 {
		t.Failf("%s: gzip %q exited with %d: %s", what, args, r.code, shorten(r.stderr, 600))
	}
	return r.out
}

func gzFails(t *T, what string, in []byte, args ...string) cmdRes {
	r := gz(t, in, args...)
	mustFail(t, what, r, args)
	return r
}

func mustFail(t *T, what string, r cmdRes, args []string) {
	if r.code == 0 {
		t.Failf("%s: gzip %q reported success (stdout %s, stderr %q)", what, args, hexs(r.out), shorten(r.stderr, 300))
	}
	if strings.TrimSpace(r.stderr) == "" {
		t.Failf("%s: gzip %q exited with %d without any message", what, args, r.code)
	}
}

// cliCheck checks one compressed output against the options, and restores it.
func cliCheck(t *T, what string, stream []byte, o wOpt, data []byte) refFile {
	f := strictCheck(t, what, stream, o, data)
	if len(f.Members) == 0 {
		t.Failf("%s: no stream in the output", what)
	}
	if o.Dict == nil || o.K != kGzip {
		got, err := stdDecode(stream, o.K, o.Dict)
		if err != nil || !bytes.Equal(got, data) {
			t.Failf("%s: the standard library decodes it to %d bytes, %v; want %d", what, len(got), err, len(data))
		}
	}
	for _, m := range f.Members {
		if m.Kind != o.K {
			t.Failf("%s: the stream is %v, want %v", what, m.Kind, o.K)
		}
		if o.K == kZlib && o.W != 0 && int(m.CMF>>4)+8 > o.W {
			t.Failf("%s: announces a window of %d bits, option was %d", what, m.CMF>>4+8, o.W)
		}
		for _, b := range m.S.Blocks {
			switch {
			case o.Lvl == 0 && b.Type != 0:
				t.Failf("%s: level 0 wrote a block of type %d", what, b.Type)
			case o.Strat == flate.FixedStrategy && b.Type == 2:
				t.Failf("%s: fixed strategy wrote a dynamic block", what)
			case o.Strat == flate.HuffmanOnlyStrategy && len(b.Matches) != 0:
				t.Failf("%s: huffman-only wrote back-references", what)
			}
			if o.Strat == flate.HuffmanRLEStrategy {
				for _, x := range b.Matches {
					if x.Dist != 1 {
						t.Failf("%s: huffman-rle wrote distance %d", what, x.Dist)
					}
				}
			}
		}
	}
	t.Trace()
	return f
}

func runP22(c *C) {
	fmts := []string{"", "gzip", "zlib", "raw"}
	kinds := []fmtKind{kGzip, kGzip, kZlib, kRaw}
	strats := []string{"default", "huffman-only", "huffman-rle", "fixed"}
	inputs := [][]byte{{}, []byte("x"), texty(3000, 1), concat(texty(40000, 2), noise(9000, 3), zeros(80000), texty(40000, 2))}
	if !c.Quick() {
		inputs = append(inputs, texty(700000, 4), noise(70000, 5), zeros(300000))
	}
	fmtArgs := func(f int) []string {
		if fmts[f] == "" {
			return nil
		}
		if f%2 == 0 {
			return []string{"--format=" + fmts[f]}
		}
		return []string{"-F", fmts[f]}
	}

	// Format, strategy and level.
	for f := range fmts {
		for si, s := range strats {
			for lv := -1; lv <= 10; lv++ {
				lvl := lv
				var la []string
				switch {
				case lv == 10:
					la, lvl = []string{"--compress-level=default"}, -1
				case lv >= 0 && (lv+f+si)%2 == 0:
					la = []string{fmt.Sprintf("-%d", lv)}
				case lv >= 0 && (lv+f+si)%4 == 1:
					la = []string{"-C", fmt.Sprint(lv)}
				case lv >= 0:
					la = []string{fmt.Sprintf("--compress-level=%d", lv)}
				}
				c.Case("options", fmt.Sprintf("fmt=%q strat=%s level=%v", fmts[f], s, la), func(t *T) {
					for _, in := range inputs {
						args := append(append([]string{"-S", s}, fmtArgs(f)...), la...)
						o := wOpt{K: kinds[f], Strat: allStrats[si], Lvl: lvl}
						what := fmt.Sprintf("%d bytes", len(in))
						out := gzOK(t, what, in, args...)
						cliCheck(t, what+fmt.Sprintf(" %q", args), out, o, in)
						for i, d := range [][]string{append([]string{"-d"}, fmtArgs(f)...), {"--decompress", "--format=auto"}} {
							if i == 1 && (f == 3 || len(in) == 1) {
								continue
							}
							if got := gzOK(t, what, out, d...); !bytes.Equal(got, in) {
								t.Failf("%s: gzip %q restores other data: %s", what, d, diffAt(got, in))
							}
						}
					}
				})
			}
		}
	}
	// Every option reaches the compressor, in every spelling: for an input
	// that fits one write, the output is the library's own.
	for f := range fmts {
		for si, s := range strats {
			for lv := 0; lv <= 9; lv++ {
				c.Case("passed-on", fmt.Sprintf("fmt=%q strat=%s level=%d", fmts[f], s, lv), func(t *T) {
					in := concat(texty(1500, 5), noise(300, 5), zeros(200), texty(700, 5))
					for vi, o := range []wOpt{{}, {Mem: 1, W: 8}, {Mem: 9}, {W: 9}, {Mem: 3, W: 11}} {
						if vi > 1 && c.Quick() && (vi+lv+si+f)%3 != 0 {
							continue
						}
						o.K, o.Strat, o.Lvl = kinds[f], allStrats[si], lv
						var sink bytes.Buffer
						fw := flate.NewWriter(&sink, o.opts()...)
						_, _ = fw.Write(in)
						_ = fw.Close()
						base := append([]string{"-S", s}, fmtArgs(f)...)
						if o.Mem != 0 {
							base = append(base, "-M", fmt.Sprint(o.Mem))
						}
						if o.W != 0 {
							base = append(base, fmt.Sprintf("--window-size-bits=%d", o.W))
						}
						var first []byte
						for i, la := range [][]string{{fmt.Sprintf("-%d", lv)}, {fmt.Sprintf("--compress-level=%d", lv)}, {"-C", fmt.Sprint(lv)}} {
							if i == 2 && c.Quick() {
								continue
							}
							args := append(append([]string{}, base...), la...)
							if (lv+vi)%2 == 1 {
								args = append(la, base...)
							}
							out := gzOK(t, "", in, args...)
							cliCheck(t, fmt.Sprintf("%q", args), out, o, in)
							if i == 0 {
								first = out
							}
							if !bytes.Equal(out, first) {
								t.Failf("gzip %q differs from level option -%d: %s", args, lv, diffAt(out, first))
							}
							if !bytes.Equal(dropHeader(out, o.K), dropHeader(sink.Bytes(), o.K)) {
								t.Failf("gzip %q differs from a Writer with these options: %s", args, diffAt(out, sink.Bytes()))
							}
						}
					}
				})
			}
		}
	}
	// Every level in every spelling.
	for lv := 0; lv <= 9; lv++ {
		for _, la := range [][]string{{fmt.Sprintf("-%d", lv)}, {"-C", fmt.Sprint(lv)}, {fmt.Sprintf("-C%d", lv)}, {fmt.Sprintf("--compress-level=%d", lv)}} {
			c.Case("levels", strings.Join(la, " "), func(t *T) {
				want := [10]byte{0, 0, 1, 1, 1, 1, 2, 3, 3, 3}[lv]
				in := texty(5000, 9)
				out := gzOK(t, "", in, append([]string{"-F", "zlib"}, la...)...)
				f := cliCheck(t, "zlib", out, wOpt{K: kZlib, Lvl: lv}, in)
				if got := f.Members[0].FLG >> 6; got != want {
					t.Failf("level %d is announced as FLEVEL %d, want %d", lv, got, want)
				}
				out = gzOK(t, "", in, la...)
				f = cliCheck(t, "gzip", out, wOpt{K: kGzip, Lvl: lv}, in)
				wantX := byte(0)
				if lv < 2 {
					wantX = 4
				} else if lv == 9 {
					wantX = 2
				}
				if got := f.Members[0].XFL; got != wantX {
					t.Failf("level %d is announced as XFL %d, want %d", lv, got, wantX)
				}
			})
		}
	}

	// Window and memory.
	for f := range fmts {
		for w := 7; w <= 15; w++ {
			for _, m := range []string{"", "default", "1", "5", "9"} {
				c.Case("window-memory", fmt.Sprintf("fmt=%q w=%d m=%q", fmts[f], w, m), func(t *T) {
					in := concat(texty(60000, 6), noise(500, 6), texty(3000, 6))
					var x []string
					wb := 0
					if w > 7 {
						x = append(x, "-W", fmt.Sprint(w))
						wb = w
					} else {
						x = append(x, "--window-size-bits=default")
					}
					if m != "" {
						x = append(x, "-M", m)
					}
					args := append(fmtArgs(f), x...)
					out := gzOK(t, "", in, args...)
					cliCheck(t, fmt.Sprintf("%q", args), out, wOpt{K: kinds[f], Lvl: -1, W: wb}, in)
					got := gzOK(t, "", out, append(append([]string{"-d"}, fmtArgs(f)...), x...)...)
					if !bytes.Equal(got, in) {
						t.Failf("gzip %q -d restores other data: %s", args, diffAt(got, in))
					}
				})
			}
		}
	}

	// Dictionaries.
	dicts := [][]byte{nil, []byte("hello"), []byte("@"), zeros(300), texty(40000, 7)}
	dictArg := func(t *T, i int) ([]string, func()) {
		if dicts[i] == nil {
			return nil, func() {}
		}
		if i == 1 {
			return []string{"--dictionary", string(dicts[i])}, func() {}
		}
		d, err := os.MkdirTemp("", "vgz")
		must(err)
		p := filepath.Join(d, "dict")
		must(os.WriteFile(p, dicts[i], 0o644))
		return []string{"--dictionary=@" + p}, func() { os.RemoveAll(d) }
	}
	for f := range fmts {
		for i := range dicts {
			for j := range dicts {
				c.Case("dictionary", fmt.Sprintf("fmt=%q write=%d read=%d", fmts[f], i, j), func(t *T) {
					wa, done := dictArg(t, i)
					defer done()
					ra, done2 := dictArg(t, j)
					defer done2()
					in := []byte("hello hello @@@@@ ")
					if dicts[i] != nil {
						in = append(in, dicts[i][len(dicts[i])/2:]...)
						if len(in) > 3000 {
							in = in[:3000]
						}
					}
					out := gzOK(t, "", in, append(fmtArgs(f), wa...)...)
					cliCheck(t, fmt.Sprintf("dictionary %d", i), out, wOpt{K: kinds[f], Lvl: -1, Dict: dicts[i]}, in)
					args := append(append([]string{"-d"}, fmtArgs(f)...), ra...)
					r := gz(t, out, args...)
					ref := refDecode(out, kinds[f], dicts[j], 15)
					cliAgree(t, "", r, ref, args)
					if i == j && (r.code != 0 || !bytes.Equal(r.out, in)) {
						t.Failf("gzip %q with the same dictionary exits %d with %d bytes: %s", args, r.code, len(r.out), r.stderr)
					}
					if i != j && kinds[f] == kZlib {
						mustFail(t, "another dictionary", r, args)
						if len(r.out) != 0 {
							t.Failf("another dictionary: %d bytes were delivered", len(r.out))
						}
					}
				})
			}
		}
	}

	// Dictionaries are used byte for byte.
	for di, d := range []string{"\n", "dictionary\n", "dictionary\r\n\n", "  space around  ", "\x00binary\x00", "@at sign@", "\n\tleading", "\xff\xfe\x80high", "\xef\xbb\xbfmarked", "dictionary\x1a", "dictionary\x00", "dict: $HOME %s \\n \"quoted\"", strings.Repeat("\n", 300)} {
		for f := range fmts {
			c.Case("dictionary-bytes", fmt.Sprintf("fmt=%q %d", fmts[f], di), func(t *T) {
				dir, err := os.MkdirTemp("", "vgz")
				must(err)
				defer os.RemoveAll(dir)
				p := filepath.Join(dir, "dict")
				must(os.WriteFile(p, []byte(d), 0o644))
				forms := [][]string{{"--dictionary=@" + p}, {"--dictionary", "@" + p}}
				if d[0] != '@' && !strings.Contains(d, "\x00") {
					forms = append(forms, []string{"--dictionary=" + d})
				}
				for _, in := range [][]byte{[]byte(d), []byte(d + d + "x" + d), []byte("x"), nil} {
					for _, a := range forms {
						out := gzOK(t, "", in, append(fmtArgs(f), a...)...)
						cliCheck(t, fmt.Sprintf("dictionary %q", d), out, wOpt{K: kinds[f], Lvl: -1, Dict: []byte(d)}, in)
						// made by someone else: all of it by reference
						w := &bitw{}
						toks := applyable(d)
						w.fixed(true, toks)
						made := wrap(kinds[f], w.p, applyToks([]byte(d), toks)[len(d):], []byte(d))
						for _, st := range [][]byte{out, made} {
							args := append(append([]string{"-d"}, fmtArgs(f)...), a...)
							ref := refDecode(st, kinds[f], []byte(d), 15)
							if ref.Err != refOK {
								t.Failf("harness: %s", ref.Msg)
							}
							cliAgree(t, fmt.Sprintf("dictionary %q", d), gz(t, st, args...), ref, args)
						}
					}
				}
			})
		}
	}

	// Header values.
	names := []string{"", "a", "a file.txt", ".", "..", "-", "@x", "n\xffm\x80", "caf\u00e9", strings.Repeat("n", 255), strings.Repeat("n", 256), "a/b", "/"}
	comments := []string{"", "c", "two\nlines", "a/b", "\xe9", strings.Repeat("c", 255), strings.Repeat("c", 256)}
	times := []string{"", "1970-01-01T00:00:01Z", "2001-09-09T01:46:40Z", "2021-06-05T12:34:56+05:30", "2106-02-07T06:28:15Z", "2106-02-07T06:28:16Z", "1969-12-31T23:59:59Z", "2021-06-05"}
	for _, n := range names {
		for _, cm := range comments {
			for _, tm := range times {
				c.Case("header", fmt.Sprintf("name=%q comment=%q time=%s", shorten(n, 20), shorten(cm, 20), tm), func(t *T) {
					var args []string
					h := flate.Header{FileName: n, Comment: cm, OSType: flate.OSTypeUnknown}
					if n != "" {
						args = append(args, "--filename="+n)
					}
					if cm != "" {
						args = append(args, "--comment", cm)
					}
					ok := true
					if tm != "" {
						args = append(args, "--last-modified="+tm)
						x, err := time.Parse(time.RFC3339, tm)
						if err != nil {
							ok = false
						}
						h.LastModified = x
					}
					ok = ok && hdrOK(h)
					in := texty(100, 1)
					if !ok {
						r := gzFails(t, "a header that cannot be represented", in, args...)
						if len(r.out) != 0 {
							t.Failf("gzip %q failed but wrote %d bytes", args, len(r.out))
						}
						return
					}
					out := gzOK(t, "", in, args...)
					f := cliCheck(t, "header", out, wOpt{K: kGzip, Lvl: -1}, in)
					m := f.Members[0]
					if string(m.Name) != n || string(m.Com) != cm {
						t.Failf("gzip %q embedded name %q and comment %q", args, m.Name, m.Com)
					}
					want := uint32(0)
					if tm != "" {
						want = uint32(h.LastModified.Unix())
					}
					if m.Mtime != want {
						t.Failf("gzip %q embedded time %d, want %d", args, m.Mtime, want)
					}
					if got := gzOK(t, "", out, "-d"); !bytes.Equal(got, in) {
						t.Failf("gzip -d restores other data")
					}
					t.Trace()
				})
			}
		}
	}

	// Corrupt and truncated input.
	for f := range fmts {
		for bi, in := range [][]byte{[]byte("abracadabra"), texty(400, 2)} {
			var stream []byte
			{
				w := &wrun{o: wOpt{K: kinds[f], Lvl: 9, Mem: 1}, pieces: [][]byte{in}}
				var sink bytes.Buffer
				fw := flate.NewWriter(&sink, w.o.opts()...)
				_, _ = fw.Write(in)
				_ = fw.Close()
				stream = sink.Bytes()
			}
			step := 1
			if bi == 1 {
				step = c.Pick(2, 1)
			}
			run := func(t *T, what string, bad []byte) {
				for i, a := range [][]string{fmtArgs(f), {"-F", "auto"}} {
					k := kinds[f]
					if len(a) == 0 || i == 1 {
						k = kAuto
						if f == 3 || i == 1 && c.Quick() && len(bad)%4 != 0 {
							continue // raw data is not detected
						}
					}
					args := append([]string{"-d"}, a...)
					ref := refDecode(bad, k, nil, 15)
					r := gz(t, bad, args...)
					cliAgree(t, what, r, ref, args)
				}
			}
			for n := 0; n < len(stream); n += step {
				c.Case("truncated", fmt.Sprintf("fmt=%q content=%d cut=%d", fmts[f], bi, n), func(t *T) {
					run(t, fmt.Sprintf("cut to %d of %d bytes", n, len(stream)), append([]byte(nil), stream[:n]...))
				})
			}
			for n := 0; n < len(stream); n += step {
				c.Case("corrupt", fmt.Sprintf("fmt=%q content=%d byte=%d", fmts[f], bi, n), func(t *T) {
					for b := 0; b < 8; b += c.Pick(2, 1) {
						bad := append([]byte(nil), stream...)
						bit := (b + n) % 8
						bad[n] ^= 1 << bit
						run(t, fmt.Sprintf("bit %d of byte %d inverted", bit, n), bad)
					}
				})
			}
			c.Case("concatenated", fmt.Sprintf("fmt=%q content=%d", fmts[f], bi), func(t *T) {
				run(t, "two streams", concat(stream, stream))
				run(t, "two streams and garbage", concat(stream, stream, []byte("garbage")))
				run(t, "stream and a cut stream", concat(stream, stream[:len(stream)/2]))
			})
		}
	}
	for f := range fmts {
		for g := 1; g < len(fmts); g++ {
			if kinds[f] == kinds[g] || g == 3 {
				continue
			}
			c.Case("mismatch", fmt.Sprintf("%q read as %q", fmts[f], fmts[g]), func(t *T) {
				out := gzOK(t, "", texty(100, 1), fmtArgs(f)...)
				args := append([]string{"-d"}, fmtArgs(g)...)
				r := gz(t, out, args...)
				mustFail(t, "another format", r, args)
			})
		}
	}

	// Unusable flags.
	for _, args := range [][]string{
		{"-F", "bogus"}, {"-F", ""}, {"--format=gz"}, {"-S", "bogus"}, {"--strategy="}, {"-C", "10"}, {"-C", "-2"}, {"-C", "x"}, {"-C", ""},
		{"-M", "10"}, {"-M", "x"}, {"-M", "-1"}, {"-W", "7"}, {"-W", "16"}, {"-W", "0"}, {"-W", "x"}, {"-W", "-1"},
		{"--last-modified", "yesterday"}, {"--no-such-flag"}, {"-Z"}, {"--dictionary=@/nonexistent/dictionary"}, {"somefile"}, {"-k", "somefile"}, {"-d", "somefile"},
		{"-C", "256"}, {"-M", "257"}, {"-W", "271"}, {"-C", "4294967297"}, {"-W", "4294967304"},
	} {
		for _, d := range []bool{false, true} {
			c.Case("bad-flags", fmt.Sprintf("%q decompress=%v", args, d), func(t *T) {
				in := []byte("data")
				a := args
				if d {
					in = gzOK(t, "", in)
					a = append([]string{"-d"}, args...)
				}
				r := gzFails(t, "an unusable flag", in, a...)
				if len(r.out) != 0 {
					t.Failf("gzip %q failed but wrote %s", a, hexs(r.out))
				}
				t.Trace()
			})
		}
	}

	// Other conditions.
	for f := range fmts {
		for _, lg := range [][]string{{"-v"}, {"-D"}, {"-D", "-L"}, {"-c"}, {"-f", "-k"}, {"profiles"}} {
			c.Case("modes", fmt.Sprintf("fmt=%q %v", fmts[f], lg), func(t *T) {
				in := texty(2000, 3)
				x := lg
				if lg[0] == "profiles" {
					d, err := os.MkdirTemp("", "vgz")
					must(err)
					defer os.RemoveAll(d)
					x = []string{"--cpu-profile=" + filepath.Join(d, "c"), "--mem-profile=" + filepath.Join(d, "m")}
				}
				args := append(append([]string{}, fmtArgs(f)...), x...)
				out := gzOK(t, "", in, args...)
				cliCheck(t, fmt.Sprintf("%q", args), out, wOpt{K: kinds[f], Lvl: -1}, in)
				if got := gzOK(t, "", out, append([]string{"-d"}, args...)...); !bytes.Equal(got, in) {
					t.Failf("gzip %q -d restores other data", args)
				}
			})
		}
		c.Case("output-fails", fmts[f], func(t *T) {
			full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			must(err)
			defer full.Close()
			for _, in := range [][]byte{{}, texty(100, 1), noise(200000, 1)} {
				args := fmtArgs(f)
				r := gzFile(t, in, nil, full, args...)
				mustFail(t, "output device full", r, args)
				if len(in) == 0 {
					continue
				}
				out := gzOK(t, "", in, args...)
				args = append([]string{"-d"}, args...)
				r = gzFile(t, out, nil, full, args...)
				mustFail(t, "output device full", r, args)
			}
			t.Trace()
		})
		c.Case("input-fails", fmts[f], func(t *T) {
			for _, d := range []bool{false, true} {
				dir, err := os.Open("/")
				must(err)
				args := fmtArgs(f)
				if d {
					args = append([]string{"-d"}, args...)
				}
				r := gzFile(t, nil, dir, nil, args...)
				dir.Close()
				mustFail(t, "input cannot be read", r, args)
			}
			t.Trace()
		})
	}
	// Operands: what is named is what is processed, or the command refuses.
	for f := range fmts {
		for _, d := range []bool{false, true} {
			for oi, names := range [][]string{{"-"}, {"a"}, {"missing"}, {"a", "b"}, {"-", "-"}, {"-", "a"}, {""}, {"dir"}} {
				for _, fl := range [][]string{nil, {"-c"}, {"--stdout", "-k"}, {"-k"}, {"-c", "-f"}} {
					f, d, names, fl := f, d, names, fl
					c.Case("operands", fmt.Sprintf("fmt=%q decompress=%v %q %q", fmts[f], d, fl, names), func(t *T) {
						operands(t, fmtArgs(f), d, oi == 0, names, fl)
					})
				}
			}
		}
	}
}

// operands runs the command on files in a scratch directory.
func operands(t *T, fa []string, d, stdinOnly bool, names, fl []string) {
	tmp, err := os.MkdirTemp("", "gzop-")
	must(err)
	defer os.RemoveAll(tmp)
	plain := map[string][]byte{"-": []byte("standard input\n"), "a": []byte("the file a\n"), "b": []byte("the file b\n")}
	content := map[string][]byte{}
	for n, p := range plain {
		content[n] = p
		if d {
			content[n] = gzOK(t, "making an input", p, fa...)
		}
		if n != "-" {
			must(os.WriteFile(filepath.Join(tmp, n), content[n], 0o600))
		}
	}
	must(os.Mkdir(filepath.Join(tmp, "dir"), 0o700))
	args := append(append([]string(nil), fa...), fl...)
	if d {
		args = append(args, "-d")
	}
	args = append(args, "--")
	var want []byte
	known := true
	for _, n := range names {
		want = append(want, plain[n]...)
		if plain[n] == nil {
			known = false
		}
		if n != "-" && n != "" {
			n = filepath.Join(tmp, n)
		}
		args = append(args, n)
	}
	t.Note("%q", args)
	r := gz(t, content["-"], args...)
	t.Trace()
	if r.code != 0 {
		mustFail(t, "refused operands", r, args)
		for _, n := range []string{"a", "b"} {
			if b, err := os.ReadFile(filepath.Join(tmp, n)); err != nil || !bytes.Equal(b, content[n]) {
				t.Failf("gzip %q failed but did not leave %s alone", args, n)
			}
		}
		return
	}
	if !known {
		t.Failf("gzip %q reported success although its operand cannot be read", args)
	}
	restore := func(p []byte) []byte {
		if d || len(p) == 0 {
			return p
		}
		return gzOK(t, "restoring", p, append([]string{"-d"}, fa...)...)
	}
	if bytes.Equal(restore(r.out), want) {
		return
	}
	// Or everything is in files of its own beside the originals.
	var all []byte
	for _, n := range names {
		if n == "-" {
			all = append(all, restore(r.out)...)
			continue
		}
		ms, _ := filepath.Glob(filepath.Join(tmp, n+".*"))
		if len(ms) != 1 {
			break
		}
		b, err := os.ReadFile(ms[0])
		must(err)
		all = append(all, restore(b)...)
	}
	if !bytes.Equal(all, want) {
		t.Failf("gzip %q reported success, but what it was told to process is nowhere: stdout %s", args, hexs(r.out))
	}
}

// cliAgree compares a run of -d with the reference decoder.
func cliAgree(t *T, what string, r cmdRes, ref refFile, args []string) {
	switch {
	case ref.Soft:
		if !bytes.HasPrefix(ref.Out, r.out) {
			t.Failf("%s: gzip %q delivered other data", what, args)
		}
		if ref.Err != refOK && r.code == 0 {
			t.Failf("%s: gzip %q reported success on bad input (%s)", what, args, ref.Msg)
		}
	case ref.Err == refOK:
		if r.code != 0 || !bytes.Equal(r.out, ref.Out) {
			t.Failf("%s: gzip %q exited with %d and %d bytes on valid input holding %d: %s", what, args, r.code, len(r.out), len(ref.Out), shorten(r.stderr, 400))
		}
	default:
		mustFail(t, what+" ("+ref.Msg+")", r, args)
		if !bytes.HasPrefix(ref.Out, r.out) {
			t.Failf("%s: gzip %q delivered data which the input does not contain: %s", what, args, diffAt(r.out, ref.Out))
		}
	}
	t.Trace()
}

// applyable refers to the whole of the dictionary d, in pieces.
func applyable(d string) (out []tk) {
	for n := len(d); n >= 3; {
		l := n
		if l > 258 {
			l = 258
		}
		out = append(out, tk{Len: l, Dist: len(d)})
		n -= l
	}
	return append(out, lits([]byte("."))...)
}

// dropHeader removes the header of a gzip stream, in which the command is free
// to put what it likes.
func dropHeader(p []byte, k fmtKind) []byte {
	if k == kGzip && len(p) > 10 {
		f := refDecode(p, k, nil, 15)
		if len(f.Members) > 0 {
			return p[f.Members[0].Body:]
		}
	}
	return p
}
