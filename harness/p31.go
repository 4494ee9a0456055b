package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// P31: the library on a platform with 32-bit words.  check.sh builds the
// harness for GOARCH=386 to decide it, and for the native platform to compare
// with; the enumerations are those of the other properties.

var subs31 = []struct {
	prop   string
	stride int // in the quick tier
}{
	{"P03", 2}, {"P21", 1}, {"P27", 2}, {"P05", 4}, {"P04", 8}, {"P06", 6}, {"P11", 8}, {"P13", 6}, {"P14", 3}, {"P15", 4},
	{"P16", 3}, {"P09", 12}, {"P10", 3}, {"P12", 4}, {"P02", 12}, {"P20", 12}, {"P08", 16}, {"P07", 16}, {"P19", 24}, {"P23", 24},
	{"P25", 24}, {"P30", 12}, {"P26", 24}, {"P22", 8},
}

func init() {
	b := "the enumerations of the following properties, run on the library built for GOARCH=386 (32-bit words, code words moved 32 bits at a time), every n-th case in the quick tier and all of that tier's cases plus every 32nd of the thorough tier's in the thorough tier:"
	for _, s := range subs31 {
		b += fmt.Sprintf(" %s/%d", s.prop, s.stride)
	}
	b += "; and the writer sweep of P02 (12 of 64 parts, thorough all) and the fixed list of calls of P28, executed by a 64-bit process as well, output and errors compared"
	register(&Prop{ID: "P31", Run: runP31, Bounds: b,
		Assumptions: []string{"386 stands for the 32-bit platforms; big-endian and ARM processors are not at hand",
			"concurrent use (P17, P18, P24) is explored on 64 bits only, because the race detector has no 32-bit build"}})
}

const parts31 = 64

// sum31 executes one part of the writer sweep and returns what came out.
func sum31(part int) string {
	c := &C{prop: "P31", tier: "quick", describe: -1, only: -1, of: parts31, shard: part, deadline: time.Now().Add(time.Hour)}
	var out []string
	n := 0
	writerRuns(c, nil, func(t *T, r *wrun) {
		n++
		if len(r.data()) > 20000 && n%4 != 0 {
			return
		}
		res := r.exec(t)
		h := fnv.New64a()
		_, _ = h.Write(res.stream)
		out = append(out, fmt.Sprintf("%v %s %d bytes %x", r.o, r.name, len(res.stream), h.Sum64()))
	})
	if c.res.Fail != nil {
		out = append(out, "FAIL "+c.res.Fail.Key+": "+c.res.Fail.Detail)
	}
	return strings.Join(out, "\n")
}

func runP31(c *C) {
	if strconv.IntSize != 32 {
		c.Case("width", "width", func(t *T) { panic("not a 32-bit build: use check.sh") })
		return
	}
	native := os.Getenv("VERIF_NATIVE")
	other := func(t *T, args ...string) string {
		cmd := exec.Command(native, append([]string{"detsum"}, args...)...)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, e := cmd.Output()
		if e != nil {
			t.Failf("64-bit process: %v %s %s", e, shorten(string(out), 2000), shorten(stderr.String(), 2000))
		}
		t.Trace()
		return string(out)
	}
	compare := func(t *T, a, b string) {
		if a != b {
			t.Failf("64-bit and %s builds differ (64-bit first): %s", runtime.GOARCH, diffLine(b, a))
		}
	}
	c.Case("both widths", "list", func(t *T) { compare(t, other(t), detSum(t)) })
	for part := 0; part < c.Pick(12, parts31); part++ {
		c.CaseF("both widths", func() string { return fmt.Sprint(part) }, func(t *T) {
			a := sum31(part)
			n := strings.Count(a, "\n") + 1
			t.Step(2 * n)
			t.Traces(2 * n)
			t.State("part", part)
			compare(t, other(t, fmt.Sprint(part)), a)
		})
	}
	for _, s := range subs31 {
		if c.Quick() {
			c.sub(s.prop, "quick", s.stride)
		} else {
			c.sub(s.prop, "quick", 1)
		}
	}
	if !c.Quick() {
		for _, s := range subs31 {
			c.sub(s.prop, "thorough", 32*s.stride)
		}
	}
}
