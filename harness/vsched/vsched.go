// Package vsched replaces package sync in the code under test.  While a
// controlled execution is active, exactly one registered thread runs at a time
// and every synchronization operation is a scheduling point at which the
// explorer decides who goes on.  Otherwise everything is passed through.
//
// The scheduler's own state is touched by norace functions only, so that the
// hand-over between threads creates no happens-before edges; the real
// primitives are executed as well (uncontended), so that the race detector
// sees exactly the edges which the program itself creates.
package vsched

import (
	"runtime"
	"sync"
	"sync/atomic"
)

const (
	MaxThreads = 16
	MaxPoints  = 1 << 15
)

// Kinds of pending operations.
const (
	kRun   = iota // always enabled
	kFree         // enabled iff !*pb
	kSet          // enabled iff *pb
	kZero         // enabled iff *pi == 0
	kRead         // enabled iff *pi >= 0 && *pj == 0
	kYield        // enabled, but prefers others
)

type thread struct {
	live bool
	kind uint8
	pb   *bool
	pi   *int32
	pj   *int32
	what string
	ops  uint32
	lib  bool
}

// Rec describes one scheduling decision.
type Rec struct {
	Mask   uint16 // enabled threads
	Self   int8   // thread which reached the point, or -1
	Free   bool   // switching away from Self is no preemption
	Chosen int8
	Def    int8 // the default choice
	Forced bool // no branching here
	Hash   uint64
}

// Status of a finished execution.
const (
	Done = iota
	Deadlock
	Livelock
	Diverged
)

// SpinLimit is how long a thread may go on by default without giving way.
var SpinLimit int32 = 2000

var (
	active   bool
	running  int32
	threads  [MaxThreads]thread
	nthreads int32
	path     []int8
	Recs     [MaxPoints]Rec
	NRecs    int32
	steps    int32
	maxSteps int32
	inRow    int32
	clock    int64
	epoch    int32
	status   int32
	mainCh   chan struct{}
	realWG   *sync.WaitGroup
	perturb  func()
)

//go:norace
func enabled(t *thread) bool {
	switch t.kind {
	case kFree:
		return !*t.pb
	case kSet:
		return *t.pb
	case kZero:
		return *t.pi == 0
	case kRead:
		return *t.pi >= 0 && *t.pj == 0
	}
	return true
}

// pick decides who runs next; self is the thread at the point, or -1.
//
//go:norace
func pick(self int32) int32 {
	var mask uint16
	h := uint64(14695981039346656037)
	any := false
	for i := int32(0); i < nthreads; i++ {
		t := &threads[i]
		h = (h ^ uint64(t.ops)) * 1099511628211
		h = (h ^ uint64(t.kind)<<1) * 1099511628211
		if !t.live {
			continue
		}
		any = true
		if enabled(t) {
			mask |= 1 << uint(i)
			h = (h ^ 1) * 1099511628211
		}
	}
	if mask == 0 {
		if any {
			status = Deadlock
		}
		return -2
	}
	selfOn := self >= 0 && mask&(1<<uint(self)) != 0
	free := !selfOn || threads[self].kind == kYield
	def := self
	if free {
		def = -1
		for k := int32(1); k <= nthreads; k++ {
			i := (self + k + nthreads) % nthreads
			if mask&(1<<uint(i)) != 0 {
				def = i
				break
			}
		}
	}
	steps++
	if steps > maxSteps {
		status = Livelock
		return -2
	}
	forced := false
	if def == self {
		inRow++
		if inRow > SpinLimit {
			// A polling loop: let the others have a go.
			for k := int32(1); k < nthreads; k++ {
				i := (self + k) % nthreads
				if mask&(1<<uint(i)) != 0 {
					def = i
					break
				}
			}
			inRow = 0
			forced = true
		}
	} else {
		inRow = 0
	}
	choice := def
	n := NRecs
	if int(n) < len(path) {
		c := int32(path[n])
		if mask&(1<<uint(c)) == 0 {
			status = Diverged
		} else {
			choice = c
		}
	}
	if n < MaxPoints {
		r := &Recs[n]
		r.Mask = mask
		r.Self = int8(self)
		r.Free = free
		r.Chosen = int8(choice)
		r.Def = int8(def)
		r.Forced = forced
		r.Hash = h
		NRecs = n + 1
	}
	return choice
}

//go:norace
func finish() {
	running = -2
	mainCh <- struct{}{}
}

// point blocks the calling thread until the explorer lets it go on.
//
//go:norace
func point(kind uint8, pb *bool, pi, pj *int32, what string) {
	self := running
	t := &threads[self]
	t.kind, t.pb, t.pi, t.pj, t.what = kind, pb, pi, pj, what
	t.ops++
	next := pick(self)
	if next != self {
		if next < 0 {
			finish()
			// Never to return.
			select {}
		}
		running = next
		for running != self {
			runtime.Gosched()
		}
	}
	t.kind = kRun
}

//go:norace
func on() bool { return active }

//go:norace
func await(id int32) {
	for running != id {
		runtime.Gosched()
	}
}

//go:norace
func exit(id int32) {
	threads[id].live = false
	threads[id].ops++
	next := pick(id)
	if next < 0 {
		finish()
		return
	}
	running = next
}

//go:norace
func newThread(lib bool) int32 {
	id := nthreads
	if id >= MaxThreads {
		panic("too many threads")
	}
	nthreads++
	threads[id] = thread{live: true, lib: lib}
	return id
}

func spawn(f func(), lib bool) {
	if !on() {
		go f()
		return
	}
	id := newThread(lib)
	realWG.Add(1)
	go func() {
		defer realWG.Done()
		await(id)
		f()
		exit(id)
	}()
}

// Go starts a thread of the code under test.
func Go(f func()) { spawn(f, true) }

// Thread starts a thread of the harness.
func Thread(f func()) { spawn(f, false) }

//go:norace
func begin(p []int8, limit int) {
	path = p
	NRecs, steps, inRow, nthreads = 0, 0, 0, 0
	maxSteps = int32(limit)
	clock = 0
	epoch++
	status = Done
	running = -1
	mainCh = make(chan struct{}, 1)
	realWG = new(sync.WaitGroup)
	active = true
}

//go:norace
func kick() { running = 0 }

//go:norace
func end() int { active = false; return int(status) }

// Run executes body as thread 0 under the given forced choices.
func Run(p []int8, limit int, body func()) int {
	begin(p, limit)
	spawn(body, false)
	kick()
	<-mainCh
	st := end()
	if st != Deadlock && st != Livelock {
		realWG.Wait()
	}
	return st
}

// Blocked describes what every live thread is waiting for.
//
//go:norace
func Blocked() string {
	s := ""
	for i := int32(0); i < nthreads; i++ {
		t := &threads[i]
		if !t.live {
			continue
		}
		who := "caller"
		if t.lib {
			who = "background"
		}
		s += " [" + who + " thread: " + t.what + "]"
	}
	return s
}

// LibThreads returns the number of live threads started by the code under
// test.
//
//go:norace
func LibThreads() int {
	n := 0
	for i := int32(0); i < nthreads; i++ {
		if threads[i].live && threads[i].lib {
			n++
		}
	}
	return n
}

// Now is a clock which orders events of all threads.
func Now() int64 {
	if !on() {
		return atomic.AddInt64(&freeClock, 1)
	}
	return now()
}

var freeClock int64

//go:norace
func now() int64 { clock++; return clock }

// Point is a scheduling point of the harness.
func Point(what string) {
	if on() {
		point(kRun, nil, nil, nil, what)
	} else if perturb != nil {
		perturb()
	}
}

// SetPerturb sets what Point does outside controlled executions.
func SetPerturb(f func()) { perturb = f }

// Gosched replaces runtime.Gosched and time.Sleep.
func Gosched() {
	if on() {
		point(kYield, nil, nil, nil, "yield")
	} else {
		runtime.Gosched()
	}
}

// Sleep replaces time.Sleep.
func Sleep(d int64) { Gosched() }

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	m    sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if on() {
		m.lock()
	}
	m.m.Lock()
}

//go:norace
func (m *Mutex) lock() {
	point(kFree, &m.held, nil, nil, "Mutex.Lock")
	m.held = true
}

//go:norace
func (m *Mutex) unlock() { m.held = false }

func (m *Mutex) Unlock() {
	if on() {
		m.unlock()
	}
	m.m.Unlock()
}

//go:norace
func (m *Mutex) try() bool {
	point(kRun, nil, nil, nil, "Mutex.TryLock")
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) TryLock() bool {
	if on() && !m.try() {
		return false
	}
	return m.m.TryLock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	m       sync.RWMutex
	state   int32 // readers, or -1
	pending int32
	wlock   bool
}

//go:norace
func (m *RWMutex) lock() {
	point(kFree, &m.wlock, nil, nil, "RWMutex.Lock")
	m.wlock = true
	m.pending++
	if m.state != 0 {
		point(kZero, nil, &m.state, nil, "RWMutex.Lock")
	}
	m.pending--
	m.state = -1
}

//go:norace
func (m *RWMutex) unlock() { m.state = 0; m.wlock = false }

//go:norace
func (m *RWMutex) rlock() {
	point(kRead, nil, &m.state, &m.pending, "RWMutex.RLock")
	m.state++
}

//go:norace
func (m *RWMutex) runlock() { m.state-- }

func (m *RWMutex) Lock() {
	if on() {
		m.lock()
	}
	m.m.Lock()
}

func (m *RWMutex) Unlock() {
	if on() {
		m.unlock()
	}
	m.m.Unlock()
}

func (m *RWMutex) RLock() {
	if on() {
		m.rlock()
	}
	m.m.RLock()
}

func (m *RWMutex) RUnlock() {
	if on() {
		m.runlock()
	}
	m.m.RUnlock()
}

//go:norace
func (m *RWMutex) try(r bool) bool {
	point(kRun, nil, nil, nil, "RWMutex.TryLock")
	if r {
		if m.state < 0 || m.pending != 0 {
			return false
		}
		m.state++
		return true
	}
	if m.wlock || m.state != 0 {
		return false
	}
	m.wlock = true
	m.state = -1
	return true
}

func (m *RWMutex) TryLock() bool {
	if on() && !m.try(false) {
		return false
	}
	return m.m.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	if on() && !m.try(true) {
		return false
	}
	return m.m.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type waiter struct {
	flag bool
	hb   atomic.Int32
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	q    [MaxThreads]*waiter
	n    int
	real *sync.Cond
	once sync.Once
}

// NewCond replaces sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) r() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

//go:norace
func (c *Cond) push(w *waiter) {
	c.q[c.n] = w
	c.n++
}

//go:norace
func (c *Cond) pop() *waiter {
	if c.n == 0 {
		return nil
	}
	w := c.q[0]
	c.n--
	for i := 0; i < c.n; i++ {
		c.q[i] = c.q[i+1]
	}
	c.q[c.n] = nil
	return w
}

// newWaiter is not instrumented: whoever signals without having held the lock
// gets to see the waiter without an edge from its creation.
//
//go:norace
//go:noinline
func newWaiter() *waiter { return new(waiter) }

//go:norace
func (w *waiter) set() { w.flag = true }

//go:norace
func (w *waiter) wait() { point(kSet, &w.flag, nil, nil, "Cond.Wait") }

//go:norace
func lockedBySomeone(l Locker) bool {
	m, ok := l.(*Mutex)
	return ok && m.held
}

func (c *Cond) Wait() {
	if !on() {
		c.r().Wait()
		return
	}
	w := newWaiter()
	c.push(w)
	c.L.Unlock()
	w.wait()
	_ = w.hb.Load()
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !on() {
		c.r().Signal()
		return
	}
	if !lockedBySomeone(c.L) {
		point(kRun, nil, nil, nil, "Cond.Signal")
	}
	if w := c.pop(); w != nil {
		w.hb.Store(1)
		w.set()
	}
}

func (c *Cond) Broadcast() {
	if !on() {
		c.r().Broadcast()
		return
	}
	if !lockedBySomeone(c.L) {
		point(kRun, nil, nil, nil, "Cond.Broadcast")
	}
	for {
		w := c.pop()
		if w == nil {
			return
		}
		w.hb.Store(1)
		w.set()
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int32
}

//go:norace
func (g *WaitGroup) add(d int32) { g.n += d }

//go:norace
func (g *WaitGroup) wait() {
	point(kZero, nil, &g.n, nil, "WaitGroup.Wait")
}

func (g *WaitGroup) Add(d int) {
	if on() {
		point(kRun, nil, nil, nil, "WaitGroup.Add")
		g.add(int32(d))
	}
	g.wg.Add(d)
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if on() {
		g.wait()
	}
	g.wg.Wait()
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Join lets the harness wait for threads without further scheduling points.
type Join struct {
	wg sync.WaitGroup
	n  int32
}

//go:norace
func (g *Join) add(d int32) { g.n += d }

//go:norace
func (g *Join) wait() { point(kZero, nil, &g.n, nil, "join") }

func (g *Join) Add(d int) {
	if on() {
		g.add(int32(d))
	}
	g.wg.Add(d)
}

func (g *Join) Done() { g.Add(-1) }

func (g *Join) Wait() {
	if on() {
		g.wait()
	}
	g.wg.Wait()
}

// Once replaces sync.Once.
type Once struct {
	o    sync.Once
	busy bool
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

//go:norace
func (o *Once) enter() {
	point(kFree, &o.busy, nil, nil, "Once.Do")
	o.busy = true
}

//go:norace
func (o *Once) leave() { o.busy = false }

func (o *Once) Do(f func()) {
	if on() && !o.isDone() {
		o.enter()
		defer o.leave()
	}
	o.o.Do(f)
	o.setDone()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type poolItem struct {
	v  any
	hb atomic.Int32
}

// PoolsForget makes all Pools forget what is put into them, as they may at any
// time.  Then nothing orders the one who puts before the one who gets.
var PoolsForget bool

// Pool replaces sync.Pool.
type Pool struct {
	New   func() any
	p     sync.Pool
	items [64]*poolItem
	n     int
	epoch int32
}

//go:norace
func (p *Pool) push(it *poolItem) {
	if p.epoch != epoch {
		p.epoch = epoch
		p.n = 0
	}
	if p.n < len(p.items) {
		p.items[p.n] = it
		p.n++
	}
}

//go:norace
func (p *Pool) pop() *poolItem {
	if p.epoch != epoch {
		p.epoch = epoch
		p.n = 0
	}
	if p.n == 0 {
		return nil
	}
	p.n--
	it := p.items[p.n]
	p.items[p.n] = nil
	return it
}

func (p *Pool) Get() any {
	if on() {
		point(kRun, nil, nil, nil, "Pool.Get")
		if it := p.pop(); it != nil {
			_ = it.hb.Load()
			return it.v
		}
	} else if v := p.p.Get(); v != nil {
		return v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if on() {
		point(kRun, nil, nil, nil, "Pool.Put")
		if PoolsForget {
			return
		}
		it := &poolItem{v: v}
		it.hb.Store(1)
		p.push(it)
		return
	}
	p.p.Put(v)
}

// Map replaces sync.Map.
type Map struct{ m sync.Map }

func mp() {
	if on() {
		point(kRun, nil, nil, nil, "Map")
	}
}

func (m *Map) Load(k any) (any, bool)           { mp(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { mp(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { mp(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { mp(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { mp(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { mp(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { mp(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { mp(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { mp(); m.m.Range(f) }
func (m *Map) Clear()                           { mp(); m.m.Clear() }

// AtomicPoint is the scheduling point before an atomic operation.
func AtomicPoint() {
	if on() {
		point(kRun, nil, nil, nil, "atomic")
	}
}
