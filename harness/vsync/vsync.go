// Package vsync is the controlled scheduler: exactly one goroutine of the explored
// program runs at a time, and every place where the schedule or the order of
// iteration over a map may differ is a choice made by the explorer.
//
// Handing over control is hidden from the race detector, so it sees only the ordering
// which follows from the synchronization done by the program itself.
package vsync

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"unsafe"
)

const (
	maxThreads = 64
	maxChoices = 1 << 16
)

// Kinds of blocking.
const (
	running = iota
	waitMutex
	waitRead
	waitWrite
	waitGroup
	waitCond
	done
)

type thread struct {
	id    int
	state int
	mu    *Mutex
	rw    *RWMutex
	wg    *WaitGroup
	cond  *Cond
	woken bool
	wake  chan struct{}
}

// Choice is a single decision.
type Choice struct {
	N     int // Number of alternatives.
	Pick  int
	Cost  int // Cost of alternatives other than the first one.
	Order bool
}

var (
	active   bool
	aborted  bool
	deadlock bool
	overflow bool
	fatal    string
	hasFatal bool
	races    int
	cur      *thread
	threads  [maxThreads]*thread
	nthreads int
	choices  [maxChoices]Choice
	nchoices int
	prefix   []int
	joinWG   sync.WaitGroup
	switches int
	points   int
)

// Result of an execution.
type Result struct {
	Choices  []Choice
	Fatal    string
	HasFatal bool
	Deadlock bool
	Overflow bool
	Races    int
	Threads  int
	Points   int
	Alive    int
}

// Run executes the function as the first goroutine, making given choices first, then the default ones.
func Run(pre []int, f func()) Result {
	aborted, deadlock, overflow, fatal, hasFatal = false, false, false, "", false
	nthreads, nchoices, switches, points = 0, 0, 0, 0
	prefix = pre
	before := raceErrors()
	active = true
	cur = newThread()
	joinWG.Add(1)
	go threadMain(cur, f)
	first := cur
	raceDisable()
	first.wake <- struct{}{}
	raceEnable()
	joinWG.Wait()
	active = false
	r := Result{Fatal: fatal, HasFatal: hasFatal, Deadlock: deadlock, Overflow: overflow, Threads: nthreads, Points: points, Alive: alive}
	if races >= 0 {
		r.Races = races - before
	}
	r.Choices = append(r.Choices, choices[:nchoices]...)
	return r
}

var alive int

//go:norace
func newThread() *thread {
	t := &thread{id: nthreads, wake: make(chan struct{}, 1)}
	threads[nthreads] = t
	nthreads++
	return t
}

//go:norace
func threadMain(t *thread, f func()) {
	defer joinWG.Done()
	defer threadEnd(t)
	raceDisable()
	<-t.wake
	raceEnable()
	if aborted {
		return
	}
	f()
}

//go:norace
func threadEnd(t *thread) {
	raceDisable()
	t.state = done
	if !aborted {
		if t.id == 0 {
			// The process ends.
			abort()
		} else {
			next := pick(nil)
			if next == nil {
				if !overflow {
					deadlock = true
				}
				abort()
			} else {
				cur = next
				next.wake <- struct{}{}
			}
		}
	}
	if aborted {
		// Remaining goroutines are unwound one after another.
		for i := 0; i < nthreads; i++ {
			if threads[i].state != done {
				cur = threads[i]
				threads[i].wake <- struct{}{}
				break
			}
		}
	}
	raceEnable()
}

//go:norace
func abort() {
	if aborted {
		return
	}
	aborted = true
	races = raceErrors()
	alive = 0
	for i := 0; i < nthreads; i++ {
		if threads[i].state != done {
			alive++
		}
	}
}

//go:norace
func enabled(t *thread) bool {
	switch t.state {
	case running:
		return true
	case waitMutex:
		return !t.mu.held
	case waitRead:
		return !t.rw.writer
	case waitWrite:
		return !t.rw.writer && t.rw.readers == 0
	case waitGroup:
		return t.wg.n <= 0
	case waitCond:
		return t.woken
	}
	return false
}

// pick chooses the next thread, me is the current one if it may go on.
//
//go:norace
func pick(me *thread) *thread {
	var en [maxThreads]*thread
	n := 0
	if me != nil {
		en[n] = me
		n++
	}
	for i := 0; i < nthreads; i++ {
		if threads[i] != me && enabled(threads[i]) {
			en[n] = threads[i]
			n++
		}
	}
	points++
	if n == 0 {
		return nil
	}
	if n == 1 {
		return en[0]
	}
	cost := 0
	if me != nil {
		cost = 1
	}
	return en[choose(n, cost, false)]
}

//go:norace
func choose(n, cost int, order bool) int {
	if nchoices >= maxChoices {
		overflow = true
		return 0
	}
	p := 0
	if nchoices < len(prefix) {
		p = prefix[nchoices]
		if p >= n {
			p = 0
			overflow = true
		}
	}
	c := &choices[nchoices]
	c.N, c.Pick, c.Cost, c.Order = n, p, cost, order
	nchoices++
	return p
}

// point is a place where another goroutine may preempt the current one.
//
//go:norace
func point() {
	me := cur
	me.state = running
	switchTo(me, pick(me))
}

//go:norace
func switchTo(me, next *thread) {
	if next == nil {
		deadlock = true
		abort()
		raceEnable()
		runtime.Goexit()
	}
	if next == me {
		me.state = running
		return
	}
	cur = next
	switches++
	next.wake <- struct{}{}
	<-me.wake
	me.state = running
	if aborted {
		raceEnable()
		runtime.Goexit()
	}
}

// block suspends the current goroutine until its condition is true.
//
//go:norace
func block(me *thread) {
	if enabled(me) {
		me.state = running
		return
	}
	switchTo(me, pick(nil))
}

// Fatal ends the execution the way exit of the process does.
//
//go:norace
func Fatal(msg string) {
	if !active {
		panic("fatal: " + msg)
	}
	raceDisable()
	if !aborted {
		fatal, hasFatal = msg, true
		abort()
	}
	raceEnable()
	runtime.Goexit()
}

// Go replaces the go statement.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	if aborted {
		return
	}
	if nthreads == maxThreads {
		panic("too many goroutines")
	}
	t := newThread()
	joinWG.Add(1)
	go threadMain(t, f)
	raceDisable()
	point()
	raceEnable()
}

// Locker is sync.Locker.
type Locker = sync.Locker

// Pool is sync.Pool.
type Pool = sync.Pool

// Map is sync.Map.
type Map = sync.Map

// Mutex replaces sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) Lock() {
	if !active {
		m.real.Lock()
		return
	}
	if aborted {
		return
	}
	raceDisable()
	point()
	me := cur
	for m.held {
		me.state, me.mu = waitMutex, m
		block(me)
	}
	m.held = true
	raceEnable()
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !active {
		return m.real.TryLock()
	}
	if aborted {
		return true
	}
	raceDisable()
	point()
	ok := !m.held
	if ok {
		m.held = true
	}
	raceEnable()
	if ok {
		raceAcquire(unsafe.Pointer(m))
	}
	return ok
}

//go:norace
func (m *Mutex) Unlock() {
	if !active {
		m.real.Unlock()
		return
	}
	if aborted {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.held = false
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	rs, ws  int
}

//go:norace
func (m *RWMutex) Lock() {
	if !active {
		m.real.Lock()
		return
	}
	if aborted {
		return
	}
	raceDisable()
	point()
	me := cur
	for m.writer || m.readers > 0 {
		me.state, me.rw = waitWrite, m
		block(me)
	}
	m.writer = true
	raceEnable()
	raceAcquire(unsafe.Pointer(&m.rs))
	raceAcquire(unsafe.Pointer(&m.ws))
}

//go:norace
func (m *RWMutex) Unlock() {
	if !active {
		m.real.Unlock()
		return
	}
	if aborted {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rs))
	m.writer = false
}

//go:norace
func (m *RWMutex) RLock() {
	if !active {
		m.real.RLock()
		return
	}
	if aborted {
		return
	}
	raceDisable()
	point()
	me := cur
	for m.writer {
		me.state, me.rw = waitRead, m
		block(me)
	}
	m.readers++
	raceEnable()
	raceAcquire(unsafe.Pointer(&m.rs))
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !active {
		m.real.RUnlock()
		return
	}
	if aborted {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.ws))
	m.readers--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is (*sync.RWMutex).RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if !active {
		w.real.Add(d)
		return
	}
	if aborted {
		return
	}
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is (*sync.WaitGroup).Done.
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !active {
		w.real.Wait()
		return
	}
	if aborted {
		return
	}
	raceDisable()
	point()
	me := cur
	for w.n > 0 {
		me.state, me.wg = waitGroup, w
		block(me)
	}
	raceEnable()
	raceAcquire(unsafe.Pointer(w))
}

// Go is (*sync.WaitGroup).Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is (*sync.Once).Do.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := &Once{}
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	real *sync.Cond
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

//go:norace
func (c *Cond) Wait() {
	if !active {
		c.real.Wait()
		return
	}
	if aborted {
		return
	}
	me := cur
	me.woken = false
	c.L.Unlock()
	raceDisable()
	me.state, me.cond = waitCond, c
	switchTo(me, pick(nil))
	raceEnable()
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) signal(all bool) {
	raceReleaseMerge(unsafe.Pointer(c))
	for i := 0; i < nthreads; i++ {
		t := threads[i]
		if t.state == waitCond && t.cond == c && !t.woken {
			t.woken = true
			if !all {
				return
			}
		}
	}
}

// Signal is (*sync.Cond).Signal.
func (c *Cond) Signal() {
	if !active {
		c.real.Signal()
	} else if !aborted {
		c.signal(false)
	}
}

// Broadcast is (*sync.Cond).Broadcast.
func (c *Cond) Broadcast() {
	if !active {
		c.real.Broadcast()
	} else if !aborted {
		c.signal(true)
	}
}

// OrderPoints tells whether orders of iterations are explored.
var OrderPoints = true

// order returns keys in the chosen order.
func order[K comparable](keys []K) []K {
	n := len(keys)
	if n < 2 || !active || aborted {
		return keys
	}
	switch reflect.TypeOf(keys[0]).Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() })
	case reflect.Pointer, reflect.Chan, reflect.Func, reflect.UnsafePointer, reflect.Interface:
		return keys // There is no stable order.
	default:
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	}
	if n >= len(permCache) || !OrderPoints {
		return keys
	}
	alts := permCache[n]
	p := choose(len(alts), 1, true)
	r := make([]K, n)
	for i, j := range alts[p] {
		r[i] = keys[j]
	}
	return r
}

// permutations of all supported lengths, prepared before any execution.
var permCache [24][][]int

func init() {
	for n := range permCache {
		permCache[n] = permutations(n)
	}
}

// permutations returns all orders of up to 4 elements. For more elements these are
// rotations, their reversals and swaps of two adjacent elements.
func permutations(n int) [][]int {
	res := [][]int{}
	base := make([]int, n)
	for i := range base {
		base[i] = i
	}
	if n <= 4 {
		var rec func(cur, left []int)
		rec = func(cur, left []int) {
			if len(left) == 0 {
				res = append(res, append([]int{}, cur...))
				return
			}
			for i := range left {
				rest := append(append([]int{}, left[:i]...), left[i+1:]...)
				rec(append(append([]int{}, cur...), left[i]), rest)
			}
		}
		rec(nil, base)
		return res
	}
	for s := range n {
		a := make([]int, n)
		b := make([]int, n)
		for i := range n {
			a[i] = (i + s) % n
			b[i] = (2*n - 1 - i - s) % n
		}
		res = append(res, a, b)
	}
	for i := 0; i+1 < n; i++ {
		a := append([]int{}, base...)
		a[i], a[i+1] = a[i+1], a[i]
		res = append(res, a)
	}
	return res
}

// Range replaces iteration over a map.
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		for _, k := range order(keys) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// ExpKeys is golang.org/x/exp/maps.Keys.
func ExpKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	return order(keys)
}

// ExpValues is golang.org/x/exp/maps.Values.
func ExpValues[M ~map[K]V, K comparable, V any](m M) []V {
	r := make([]V, 0, len(m))
	for _, k := range ExpKeys(m) {
		r = append(r, m[k])
	}
	return r
}

// StdAll is maps.All.
func StdAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return Range(m) }

// StdKeys is maps.Keys.
func StdKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Range(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// StdValues is maps.Values.
func StdValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Range(m) {
			if !yield(v) {
				return
			}
		}
	}
}
