//go:build sched

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/chronos-tachyon/flate"
	vs "verifharness/vsched"
)

// What is set up on first use, by whoever comes first, is exposed only to the
// first uses of a process: each execution here is a process of its own.

type freshOut struct {
	Status  int
	Recs    []vs.Rec
	Fail    string
	Blocked string
}

func init() {
	freshHook = freshMain
}

// freshMain runs the named scripts concurrently, under the given schedule,
// before anything else has used the library.
func freshMain(args []string) {
	runtime.GOMAXPROCS(1)
	var names []string
	var path []int8
	must(json.Unmarshal([]byte(args[0]), &names))
	must(json.Unmarshal([]byte(args[1]), &path))
	vs.PoolsForget = args[2] == "true"
	all := map[string]*spec24{}
	for _, s := range specs24() {
		all[s.name] = s
	}
	x := &X{}
	var is []*inst24
	var fs []func()
	for _, n := range names {
		i := all[n].new()
		is = append(is, i)
		fs = append(fs, i.all)
	}
	body := func() { x.threads(fs...) }
	var out freshOut
	if schedFree {
		runtime.GOMAXPROCS(4)
		done := make(chan struct{})
		vs.SetPerturb(func() { runtime.Gosched() })
		go func() { body(); close(done) }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			out.Status = vs.Deadlock
		}
	} else {
		out.Status = vs.Run(path, 60000, body)
		n := int(vs.NRecs)
		if n > vs.MaxPoints {
			n = vs.MaxPoints
		}
		out.Recs = append(out.Recs, vs.Recs[:n]...)
	}
	if out.Status == vs.Deadlock || out.Status == vs.Livelock {
		out.Blocked = vs.Blocked()
	} else {
		for k, i := range is {
			j := all[names[k]].new()
			j.all()
			if d := i.diff(&ref24{j.log, j.evs, j.calls}); d != "" {
				out.Fail = names[k] + " behaves differently from alone, later: " + d
				break
			}
		}
	}
	must(json.NewEncoder(os.Stdout).Encode(out))
	os.Exit(0)
}

// exploreFresh enumerates the schedules of the scripts, each in a process of
// its own.
func exploreFresh(t *T, bound int, forget bool, names ...string) {
	e := &explorer{bound: bound, limit: 60000, delay: true}
	jn, _ := json.Marshal(names)
	for {
		p := e.path
		if p == nil {
			p = []int8{}
		}
		jp := []byte("[")
		for k, v := range p {
			if k > 0 {
				jp = append(jp, ',')
			}
			jp = append(jp, fmt.Sprint(v)...)
		}
		jp = append(jp, ']')
		cmd := exec.Command("/proc/self/exe", "fresh", string(jn), string(jp), fmt.Sprint(forget))
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		runtime.LockOSThread()
		must(cmd.Start())
		tm := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
		err := cmd.Wait()
		killed := !tm.Stop()
		runtime.UnlockOSThread()
		e.Execs++
		t.c.crumb.tick()
		if killed {
			t.Failf("the first uses of a process: %s do not end\n%s", strings.Join(names, " and "), shorten(se.String(), 3000))
		}
		if err != nil {
			if ee, ok := err.(*exec.ExitError); ok && !ee.Exited() && !strings.Contains(se.String(), "goroutine ") {
				t.c.note("a process was killed from outside: " + t.key)
				t.c.capped = true
				return
			}
			t.Failf("the first uses of a process, %s at once (schedule %s, pools forget: %v): %v\n%s", strings.Join(names, " and "), jp, forget, err, shorten(se.String(), 6000))
		}
		var out freshOut
		must(json.Unmarshal(so.Bytes(), &out))
		n := len(out.Recs)
		vs.NRecs = int32(n)
		for k := range out.Recs {
			vs.Recs[k] = out.Recs[k]
		}
		t.Step(n)
		t.Trace()
		for i := e.seenPts; i < n; i++ {
			t.StateHash(out.Recs[i].Hash ^ 0x9e3779b97f4a7c15)
		}
		switch out.Status {
		case vs.Deadlock:
			t.Failf("the first uses of a process, %s at once: deadlock:%s\nschedule: %s", strings.Join(names, " and "), out.Blocked, e.describe(n))
		case vs.Livelock:
			t.Failf("the first uses of a process, %s at once: no end:%s", strings.Join(names, " and "), out.Blocked)
		case vs.Diverged:
			e.Diverge++
			t.c.note("a schedule could not be replayed exactly in a new process")
			if e.Diverge > 3 {
				t.c.capped = true
				return
			}
		}
		if out.Fail != "" {
			t.Failf("the first uses of a process: %s\nschedule: %s", out.Fail, e.describe(n))
		}
		if schedFree && e.Execs < 6 {
			continue
		}
		if schedFree || !e.next(n) {
			return
		}
		if time.Now().After(t.c.deadline) {
			t.c.capped = true
			t.c.note("the schedules of a scenario were not enumerated completely: " + t.key)
			return
		}
	}
}

// util24 uses what belongs to no instance: names, parsing, encodings.
func util24(n int) string {
	var sb strings.Builder
	p := func(v interface {
		String() string
		GoString() string
		MarshalJSON() ([]byte, error)
	}) {
		defer func() {
			if recover() != nil {
				sb.WriteString("not encodable;")
			}
		}()
		fmt.Fprintf(&sb, "%s %s ", v.String(), v.GoString())
		b, err := v.MarshalJSON()
		fmt.Fprintf(&sb, "%s %v;", b, err)
	}
	for k := 0; k < 17; k += n {
		p(flate.Format(k))
		p(flate.Strategy(k))
		p(flate.CompressLevel(k))
		p(flate.MemoryLevel(k))
		p(flate.WindowBits(k))
		p(flate.BlockType(k))
		p(flate.EventType(k))
		p(flate.FlushType(k))
		p(flate.DataType(k))
		p(flate.Method(k))
		p(flate.OSType(k))
		p(flate.Checksum32(k * 12345678))
	}
	for _, s := range []string{"auto", "gzip", "ZLIB", "raw", "default", "huffman-only", "9", "best", "", "junk", "0xa", "15"} {
		var f flate.Format
		var st flate.Strategy
		var cl flate.CompressLevel
		var ml flate.MemoryLevel
		var wb flate.WindowBits
		fmt.Fprint(&sb, f.Parse(s), f, st.Parse(s), st, cl.Parse(s), cl, ml.Parse(s), ml, wb.Parse(s), wb, ";")
	}
	var x flate.ExtraData
	x.Parse([]byte{1, 2, 3, 0, 9, 9, 9})
	fmt.Fprint(&sb, x.Records, x.AsBytes())
	return sb.String()
}
