// Package main is the model-checking harness for chronos-tachyon/flate.
//
// Every check enumerates a finite space of executions of the real code
// (inputs, operation sequences, fault positions, chunkings, schedules), runs
// every one of them and compares what happened with an independent model.
package main

import (
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// A Prop is one property and the enumeration that decides it.
type Prop struct {
	ID          string
	Run         func(c *C)
	Bounds      string
	Assumptions []string
	MaxProcs    int // GOMAXPROCS of the workers (default 2)
	// Variants are environment settings ("NAME=value"); the enumeration is
	// repeated under each of them.
	Variants []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// C is the enumeration context of one worker.
type C struct {
	prop     string
	tier     string
	shard    int
	of       int
	only     int64 // if >= 0 run just this case
	from     int64 // skip cases before this one
	describe int64 // if >= 0, just find the key of this case

	idx       int64
	started   time.Time
	deadline  time.Time
	timedOut  bool
	capped    bool // part of the space was left out
	crumb     *crumb
	res       Result
	seen      map[uint64]struct{}
	found     string
	knownKeys map[string]bool

	// A part of another property's enumeration (see sub).
	prefix  string
	stride  uint64
	counter uint64
}

// sub runs another property's enumeration as a part of this one, or the
// stride-th part of it.
func (c *C) sub(prop, tier string, stride int) {
	was := *c
	c.prop, c.tier, c.prefix, c.stride, c.counter = prop, tier, prop+"."+tier+".", uint64(stride), 0
	props[prop].Run(c)
	c.prop, c.tier, c.prefix, c.stride, c.counter = was.prop, was.tier, was.prefix, was.stride, was.counter
}

// Result is what a worker reports.
type Result struct {
	Cases       int64
	Total       int64 // cases enumerated in all shards
	States      int64
	Transitions int64
	Traces      int64
	Samples     []string
	Exhaustive  bool
	Groups      map[string]int64
	Fail        *Failure
	Known       []string
	Notes       []string
	PeakMB      int64
}

// Failure describes a violation.
type Failure struct {
	Idx    int64
	Key    string
	Note   string
	Detail string
}

type crumb struct {
	f   *os.File
	mem []byte
}

const crumbSize = 1 << 14

func openCrumb(path string) *crumb {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	must(f.Truncate(crumbSize))
	mem, err := syscall.Mmap(int(f.Fd()), 0, crumbSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	return &crumb{f, mem}
}

func (cr *crumb) setIdx(idx int64) {
	if cr == nil {
		return
	}
	*(*int64)(unsafe.Pointer(&cr.mem[0])) = idx
	*(*int64)(unsafe.Pointer(&cr.mem[8]))++
}

// tick records progress inside a case.
func (cr *crumb) tick() {
	if cr == nil {
		return
	}
	*(*int64)(unsafe.Pointer(&cr.mem[8]))++
}

func (cr *crumb) setStr(off int, s string) {
	if cr == nil {
		return
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	*(*int64)(unsafe.Pointer(&cr.mem[off])) = int64(len(s))
	copy(cr.mem[off+8:], s)
}

func (cr *crumb) idx() int64      { return *(*int64)(unsafe.Pointer(&cr.mem[0])) }
func (cr *crumb) progress() int64 { return *(*int64)(unsafe.Pointer(&cr.mem[8])) }
func (cr *crumb) str(off int) string {
	n := *(*int64)(unsafe.Pointer(&cr.mem[off]))
	if n < 0 || n > 4000 {
		return ""
	}
	return string(cr.mem[off+8 : off+8+int(n)])
}

const (
	offKey  = 16
	offNote = 16 + 4096
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Quick reports whether this is the quick tier.
func (c *C) Quick() bool { return c.tier == "quick" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *C) Pick(q, t int) int {
	if c.Quick() {
		return q
	}
	return t
}

// Stop reports whether enumeration should end early (violation, deadline).
func (c *C) Stop() bool {
	return c.res.Fail != nil || c.timedOut || c.found != ""
}

// Group counts the cases of a named part of the enumeration.
func (c *C) group(name string) {
	if c.res.Groups == nil {
		c.res.Groups = map[string]int64{}
	}
	c.res.Groups[name]++
}

// Case enumerates one case.  f is run by exactly one shard.
func (c *C) Case(group, key string, f func(t *T)) {
	c.CaseF(group, func() string { return key }, f)
}

// CaseF is like Case with a lazily built key.
func (c *C) CaseF(group string, key func() string, f func(t *T)) {
	if c.Stop() {
		return
	}
	if c.stride > 0 {
		c.counter++
		if mix(c.counter)%c.stride != 0 && !(c.prop == "P02" && (group == "huge" || group == "longcodes")) {
			return
		}
		group = c.prefix + group
	}
	idx := c.idx
	c.idx++
	if c.describe >= 0 {
		if idx == c.describe {
			c.found = group + "/" + key()
		}
		return
	}
	if c.only >= 0 {
		if idx != c.only {
			return
		}
	} else {
		// A multiplicative hash spreads neighbouring (similar cost)
		// cases over the shards.
		if int(mix(uint64(idx))%uint64(c.of)) != c.shard || idx < c.from {
			return
		}
	}
	if time.Now().After(c.deadline) {
		c.timedOut = true
		return
	}
	k := group + "/" + key()
	c.crumb.setStr(offKey, k)
	c.crumb.setStr(offNote, "")
	c.crumb.setIdx(idx)
	c.res.Cases++
	c.group(group)
	if len(c.res.Samples) < 4 && (c.res.Cases == 1 || c.res.Cases%97 == 0) {
		c.res.Samples = append(c.res.Samples, k)
	}
	logEvery = 0
	t := &T{c: c, key: k}
	start := time.Now()
	fail := t.run(f)
	if f := os.Getenv("VERIF_TIMES"); f != "" {
		if w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			fmt.Fprintf(w, "%.3f %s\n", time.Since(start).Seconds(), k)
			w.Close()
		}
	}
	if fail == "" {
		return
	}
	if c.knownKeys[k] {
		c.res.Known = append(c.res.Known, k)
		return
	}
	c.res.Fail = &Failure{Idx: idx, Key: k, Note: t.note, Detail: fail}
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

var hashSeed = maphash.MakeSeed()

// T is the context of one running case.
type T struct {
	c    *C
	key  string
	note string
}

type failure string

func (t *T) run(f func(t *T)) (fail string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(failure); ok {
				fail = string(s)
				return
			}
			fail = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	f(t)
	return ""
}

// Failf reports a violation and ends the case.
func (t *T) Failf(format string, v ...interface{}) {
	s := fmt.Sprintf(format, v...)
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	panic(failure(s))
}

// Note names the sub-case being explored.
func (t *T) Note(format string, v ...interface{}) {
	t.note = fmt.Sprintf(format, v...)
	t.c.crumb.setStr(offNote, t.note)
	t.c.crumb.tick()
}

// Step counts transitions: calls made into the code under test.
func (t *T) Step(n int) { t.c.res.Transitions += int64(n) }

// Trace counts one complete execution compared with the model.
func (t *T) Trace() {
	t.c.res.Traces++
	t.c.crumb.tick()
}

// Traces counts n executions.
func (t *T) Traces(n int) { t.c.res.Traces += int64(n) }

// State records a model state reached, for counting distinct ones.
func (t *T) State(parts ...interface{}) {
	t.StateKey(fmt.Sprint(parts...))
}

const maxSeen = 4 << 20

// StateKey records a state by a string.
func (t *T) StateKey(s string) {
	t.StateHash(maphash.String(hashSeed, s))
}

// StateBytes records a state by bytes.
func (t *T) StateBytes(b []byte) {
	t.StateHash(maphash.Bytes(hashSeed, b))
}

// StateHash records a state by hash.
func (t *T) StateHash(h uint64) {
	c := t.c
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	if len(c.seen) >= maxSeen {
		return
	}
	c.seen[h] = struct{}{}
}

// Panics runs f and reports whether it panicked.
func (t *T) Panics(f func()) (panicked bool, value interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(failure); ok {
				panic(s)
			}
			panicked = true
			value = r
		}
	}()
	f()
	return
}

func (c *C) finish() {
	c.res.States = int64(len(c.seen))
	c.res.Total = c.idx
	c.res.Exhaustive = !c.timedOut && !c.capped && c.res.Fail == nil
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	c.res.PeakMB = int64(ru.Maxrss) / 1024
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func shorten(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "..."
}

func hexs(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%x...(%d bytes)", b[:96], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

var _ = runtime.NumCPU

func addrOf(p []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(p))) }
