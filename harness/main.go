package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness run|worker|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(driver(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "detsum":
		detMain()
	case "fresh":
		freshHook(os.Args[2:])
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

// freshHook runs one of P24's scenarios in a process of its own.
var freshHook func(args []string)

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	only := fs.Int64("only", -1, "")
	from := fs.Int64("from", 0, "")
	crumbPath := fs.String("crumb", "", "")
	out := fs.String("out", "", "")
	secs := fs.Int("secs", 60, "")
	known := fs.String("known", "", "")
	must(fs.Parse(args))

	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(2)
	}
	mp := p.MaxProcs
	if mp == 0 {
		mp = 2
	}
	runtime.GOMAXPROCS(mp)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	c := &C{prop: *prop, tier: *tier, shard: *shard, of: *of, only: *only, from: *from, describe: -1,
		started: time.Now(), deadline: time.Now().Add(time.Duration(*secs) * time.Second), knownKeys: map[string]bool{}}
	if *known != "" {
		for k := range readKnown(*known, *prop) {
			c.knownKeys[k] = true
		}
	}
	if *crumbPath != "" {
		c.crumb = openCrumb(*crumbPath)
		c.crumb.setIdx(-1)
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, err := os.Create(f)
		must(err)
		must(pprof.StartCPUProfile(w))
		defer w.Close()
	}
	p.Run(c)
	pprof.StopCPUProfile()
	c.finish()
	b, err := json.Marshal(c.res)
	must(err)
	must(os.WriteFile(*out, b, 0o644))
	os.Exit(0)
}

func readKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, line := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> -- <what fails>
		if !strings.HasPrefix(line, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+prop+" key=")
		k, what, _ := strings.Cut(rest, " -- ")
		m[k] = what
	}
	return m
}

type workerProc struct {
	shard   int
	cmd     *exec.Cmd
	stderr  *tailBuf
	crumb   *crumb
	outPath string
	done    chan error
	variant string
}

type tailBuf struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	// keep the head: the panic message comes first
	if len(t.buf) < 64<<10 {
		n := 64<<10 - len(t.buf)
		if n > len(p) {
			n = len(p)
		}
		t.buf = append(t.buf, p[:n]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

type driverCfg struct {
	prop, tier string
	secs       int
	known      string
	tmp        string
	hang       time.Duration
	variant    string // extra environment setting
}

func (d *driverCfg) start(name string, shard, of int, only, from int64) *workerProc {
	w := &workerProc{shard: shard, stderr: &tailBuf{}, done: make(chan error, 1)}
	crumbPath := filepath.Join(d.tmp, name+".crumb")
	w.outPath = filepath.Join(d.tmp, name+".out")
	_ = os.Remove(w.outPath)
	w.crumb = openCrumb(crumbPath)
	w.crumb.setIdx(-1)
	w.cmd = exec.Command("/proc/self/exe", "worker", "-prop", d.prop, "-tier", d.tier,
		"-shard", fmt.Sprint(shard), "-of", fmt.Sprint(of), "-only", fmt.Sprint(only), "-from", fmt.Sprint(from),
		"-crumb", crumbPath, "-out", w.outPath, "-secs", fmt.Sprint(d.secs), "-known", d.known)
	w.cmd.Stdout = w.stderr
	w.cmd.Stderr = w.stderr
	w.cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	if d.variant != "" {
		w.cmd.Env = append(w.cmd.Env, d.variant)
	}
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(w.cmd.Start())
	go func() { w.done <- w.cmd.Wait() }()
	return w
}

const (
	endOK = iota
	endFail
	endCrash
	endHang
	endKilled
)

// wait waits for a worker to finish, or to make no progress for too long.
func (d *driverCfg) wait(w *workerProc, stop <-chan struct{}) (int, *Result, string) {
	last := w.crumb.progress()
	lastT := time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-stop:
			_ = w.cmd.Process.Kill()
			<-w.done
			return endKilled, nil, ""
		case err := <-w.done:
			b, rerr := os.ReadFile(w.outPath)
			if rerr == nil {
				var r Result
				if json.Unmarshal(b, &r) == nil {
					if r.Fail != nil {
						return endFail, &r, ""
					}
					return endOK, &r, ""
				}
			}
			if ee, ok := err.(*exec.ExitError); ok {
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					return endKilled, nil, "worker was killed from outside"
				}
			}
			s := w.stderr.String()
			if strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory") {
				return endKilled, nil, "worker ran out of memory"
			}
			return endCrash, nil, s
		case <-tick.C:
			if p := w.crumb.progress(); p != last {
				last = p
				lastT = time.Now()
				continue
			}
			if time.Since(lastT) > d.hang {
				_ = w.cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-w.done:
				case <-time.After(10 * time.Second):
					_ = w.cmd.Process.Kill()
					<-w.done
				}
				return endHang, nil, w.stderr.String()
			}
		}
	}
}

func driver(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	shards := fs.Int("shards", 8, "")
	secs := fs.Int("secs", 0, "")
	must(fs.Parse(args))
	started := time.Now()

	p := props[*prop]
	if p == nil {
		fmt.Println("no such property", *prop)
		return 2
	}
	if *secs == 0 {
		*secs = 300
		if *tier == "thorough" {
			*secs = 780
		}
	}
	tmp, err := os.MkdirTemp("", "vh-")
	must(err)
	defer os.RemoveAll(tmp)
	d := &driverCfg{prop: *prop, tier: *tier, secs: *secs, known: *known, tmp: tmp, hang: 90 * time.Second}

	variants := p.Variants
	if len(variants) == 0 {
		variants = []string{""}
	}
	if len(variants) > 1 {
		*shards = (*shards + len(variants) - 1) / len(variants)
	}
	workers := *shards * len(variants)
	type outcome struct {
		w    *workerProc
		kind int
		r    *Result
		msg  string
	}
	stop := make(chan struct{})
	outs := make(chan outcome, workers)
	for i := 0; i < workers; i++ {
		dv := *d
		dv.variant = variants[i%len(variants)]
		w := dv.start(fmt.Sprintf("w%d", i), i/len(variants), *shards, -1, 0)
		w.variant = dv.variant
		go func() {
			kind, r, msg := d.wait(w, stop)
			outs <- outcome{w, kind, r, msg}
		}()
	}

	total := Result{Exhaustive: true, Groups: map[string]int64{}}
	var fail *Failure
	var notes []string
	stopped := false
	failVariant := ""
	for i := 0; i < workers; i++ {
		o := <-outs
		if o.r != nil {
			total.Cases += o.r.Cases
			total.States += o.r.States
			total.Transitions += o.r.Transitions
			total.Traces += o.r.Traces
			if o.r.Total > total.Total {
				total.Total = o.r.Total
			}
			if o.r.PeakMB > total.PeakMB {
				total.PeakMB = o.r.PeakMB
			}
			if len(o.r.Samples) > 0 {
				n := 2
				if len(o.r.Samples) < n {
					n = len(o.r.Samples)
				}
				total.Samples = append(total.Samples, o.r.Samples[:n]...)
			}
			for g, n := range o.r.Groups {
				total.Groups[g] += n
			}
			total.Known = append(total.Known, o.r.Known...)
			total.Exhaustive = total.Exhaustive && o.r.Exhaustive
			for _, n := range o.r.Notes {
				notes = appendUnique(notes, n)
			}
		} else {
			total.Exhaustive = false
		}
		var f *Failure
		switch o.kind {
		case endFail:
			f = o.r.Fail
		case endCrash:
			idx := o.w.crumb.idx()
			if idx < 0 || !strings.Contains(o.msg, "chronos-tachyon/") && !strings.Contains(o.msg, "fatal error") {
				// The worker died before the first case: the
				// harness itself cannot run.
				fmt.Println("worker failed outside any case:\n" + indent(shorten(o.msg, 4000)))
				return 2
			}
			f = &Failure{Idx: idx, Key: o.w.crumb.str(offKey), Note: o.w.crumb.str(offNote),
				Detail: "the process died:\n" + shorten(o.msg, 6000)}
			if readKnown(*known, *prop)[f.Key] != "" {
				total.Known = append(total.Known, f.Key)
				f = nil
			}
		case endHang:
			// Confirm on its own, with nothing else running.
			idx := o.w.crumb.idx()
			if idx >= 0 && fail == nil {
				if !stopped {
					close(stop)
					stopped = true
				}
				d2 := *d
				d2.hang = 120 * time.Second
				d2.variant = o.w.variant
				w := d2.start("hang", 0, 1, idx, 0)
				kind, r, msg := d2.wait(w, nil)
				switch kind {
				case endHang, endCrash:
					f = &Failure{Idx: idx, Key: w.crumb.str(offKey), Note: w.crumb.str(offNote),
						Detail: "no progress (blocked or looping forever):\n" + shorten(msg, 6000)}
				case endFail:
					f = r.Fail
				default:
					notes = append(notes, fmt.Sprintf("case %d was slow once", idx))
					total.Exhaustive = false
				}
			}
		case endKilled:
			if !stopped {
				notes = appendUnique(notes, o.msg)
			}
		}
		if f != nil && fail == nil {
			fail = f
			failVariant = o.w.variant
			if !stopped {
				close(stop)
				stopped = true
			}
		}
	}

	for _, k := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s -- %s\n", *prop, k, readKnown(*known, *prop)[k])
	}

	code := 0
	violations := 0
	if fail != nil {
		violations = 1
		code = 1
		_ = os.MkdirAll(*replays, 0o755)
		path := filepath.Join(*replays, fmt.Sprintf("%s-%s-%d.json", *prop, *tier, fail.Idx))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": *prop, "tier": *tier, "case": fail.Idx, "key": fail.Key, "note": fail.Note, "detail": fail.Detail, "variant": failVariant,
			"how": fmt.Sprintf("/verif/check.sh replay %s", path),
		}, "", "  ")
		_ = os.WriteFile(path, b, 0o644)
		fmt.Printf("property %s violated\n  case %d: %s\n  %s\n%s\n", *prop, fail.Idx, fail.Key, fail.Note, indent(shorten(fail.Detail, 3000)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	}

	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]interface{}{
		"states":                        total.States,
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"evaluations":                   total.Cases,
		"exhaustive":                    total.Exhaustive,
		"samples":                       total.Samples,
		"cases_by_group":                total.Groups,
		"bounds":                        p.Bounds,
		"shards":                        *shards,
		"peak_worker_mb":                total.PeakMB,
	}
	if len(variants) > 1 {
		cov["variants"] = variants
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": p.Assumptions, "wall_s": time.Since(started).Seconds(), "violations": violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if *evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(*evidence), 0o755)
		must(os.WriteFile(*evidence, append(b, '\n'), 0o644))
	}
	fmt.Printf("%s %s: cases=%d/%d states=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs peakMB=%d\n",
		*prop, *tier, total.Cases, total.Total, total.States, total.Transitions, total.Traces, total.Exhaustive, violations, time.Since(started).Seconds(), total.PeakMB)
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	return code
}

func appendUnique(s []string, v string) []string {
	for _, x := range s {
		if x == v {
			return s
		}
	}
	return append(s, v)
}

func replay(args []string) int {
	b, err := os.ReadFile(args[0])
	must(err)
	var m struct {
		Property, Tier, Key, Variant string
		Case                         int64
	}
	must(json.Unmarshal(b, &m))
	tmp, err := os.MkdirTemp("", "vh-")
	must(err)
	defer os.RemoveAll(tmp)
	d := &driverCfg{prop: m.Property, tier: m.Tier, secs: 600, tmp: tmp, hang: 60 * time.Second, variant: m.Variant}
	w := d.start("r", 0, 1, m.Case, 0)
	kind, r, msg := d.wait(w, nil)
	fmt.Println("case:", w.crumb.str(offKey), w.crumb.str(offNote))
	switch kind {
	case endOK:
		fmt.Println("the case passes")
		return 0
	case endFail:
		fmt.Println(r.Fail.Note)
		fmt.Println(r.Fail.Detail)
	default:
		fmt.Println(msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", m.Property, args[0])
	return 1
}

var _ = bytes.NewReader
var _ = io.EOF
