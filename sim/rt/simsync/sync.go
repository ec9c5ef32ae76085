// Package simsync replaces package sync in the instrumented library. The
// primitives are scheduled by package rt and establish the same
// happens-before edges (for the race detector) as the originals.
package simsync

import (
	"fmt"
	"time"
	"unsafe"

	"verifrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	holder uint64 // the epoch in which it was locked
	hb     uint64
}

//go:norace
func (m *Mutex) Lock() {
	rt.SyncPoint()
	for m.holder == rt.Epoch() {
		rt.Block(unsafe.Pointer(m), "Mutex.Lock")
	}
	m.holder = rt.Epoch()
	rt.RaceAcquire(unsafe.Pointer(&m.hb))
}

//go:norace
func (m *Mutex) TryLock() bool {
	rt.SyncPoint()
	if m.holder == rt.Epoch() {
		return false
	}
	m.holder = rt.Epoch()
	rt.RaceAcquire(unsafe.Pointer(&m.hb))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if m.holder != rt.Epoch() {
		rt.Fatal("sync: unlock of unlocked mutex")
	}
	rt.RaceRelease(unsafe.Pointer(&m.hb))
	m.holder = 0
	rt.Wake(unsafe.Pointer(m))
	rt.SyncPoint()
}

// RWMutex is sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	writer  bool
	_       [3]byte
	readers int32
	waiting int32
	epoch   uint64
	rhb     uint64
	whb     uint64
}

// fresh forgets who held it in another run or in a process that is gone.
//
//go:norace
func (m *RWMutex) fresh() {
	if m.epoch != rt.Epoch() {
		m.epoch = rt.Epoch()
		m.writer, m.readers, m.waiting = false, 0, 0
	}
}

//go:norace
func (m *RWMutex) RLock() {
	rt.SyncPoint()
	m.fresh()
	for m.writer || m.waiting > 0 {
		rt.Block(unsafe.Pointer(m), "RWMutex.RLock")
	}
	m.readers++
	rt.RaceAcquire(unsafe.Pointer(&m.rhb))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.SyncPoint()
	m.fresh()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	rt.RaceAcquire(unsafe.Pointer(&m.rhb))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.fresh()
	if m.readers <= 0 {
		rt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	rt.RaceReleaseMerge(unsafe.Pointer(&m.whb))
	m.readers--
	rt.Wake(unsafe.Pointer(m))
	rt.SyncPoint()
}

//go:norace
func (m *RWMutex) Lock() {
	rt.SyncPoint()
	m.fresh()
	m.waiting++
	for m.writer || m.readers > 0 {
		rt.Block(unsafe.Pointer(m), "RWMutex.Lock")
	}
	m.waiting--
	m.writer = true
	rt.RaceAcquire(unsafe.Pointer(&m.rhb))
	rt.RaceAcquire(unsafe.Pointer(&m.whb))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	rt.SyncPoint()
	m.fresh()
	if m.writer || m.readers > 0 || m.waiting > 0 {
		return false
	}
	m.writer = true
	rt.RaceAcquire(unsafe.Pointer(&m.rhb))
	rt.RaceAcquire(unsafe.Pointer(&m.whb))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.fresh()
	if !m.writer {
		rt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	rt.RaceRelease(unsafe.Pointer(&m.rhb))
	m.writer = false
	rt.Wake(unsafe.Pointer(m))
	rt.SyncPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n  int
	hb uint64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		rt.RaceReleaseMerge(unsafe.Pointer(&w.hb))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		rt.Wake(unsafe.Pointer(w))
	}
	rt.SyncPoint()
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	rt.SyncPoint()
	for w.n > 0 {
		rt.Block(unsafe.Pointer(w), "WaitGroup.Wait")
	}
	rt.RaceAcquire(unsafe.Pointer(&w.hb))
}

// Go is sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Cond is sync.Cond.
type Cond struct {
	L   Locker
	seq uint64
	sig uint64
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	my := c.seq
	c.seq++
	c.L.Unlock()
	for c.sig <= my {
		rt.Block(unsafe.Pointer(c), "Cond.Wait")
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.sig < c.seq {
		c.sig++
	}
	rt.Wake(unsafe.Pointer(c))
	rt.SyncPoint()
}

//go:norace
func (c *Cond) Broadcast() {
	c.sig = c.seq
	rt.Wake(unsafe.Pointer(c))
	rt.SyncPoint()
}

// Pool is sync.Pool: a deterministic stack.
type Pool struct {
	New   func() any
	items [64]any
	n     int
	hb    uint64
}

//go:norace
func (p *Pool) Get() any {
	rt.SyncPoint()
	if p.n > 0 {
		p.n--
		x := p.items[p.n]
		p.items[p.n] = nil
		rt.RaceAcquire(unsafe.Pointer(&p.hb))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	rt.SyncPoint()
	if p.n < len(p.items) {
		rt.RaceReleaseMerge(unsafe.Pointer(&p.hb))
		p.items[p.n] = x
		p.n++
	}
}

// Map is sync.Map (ordered by insertion, hence deterministic).
type Map struct {
	m    Mutex
	keys []any
	vals map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.vals[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	m.m.Lock()
	defer m.m.Unlock()
	m.store(k, v)
}

func (m *Map) store(k, v any) {
	if m.vals == nil {
		m.vals = map[any]any{}
	}
	if _, ok := m.vals[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.vals[k] = v
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if old, ok := m.vals[k]; ok {
		return old, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.vals[k]
	if ok {
		delete(m.vals, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	keys := append([]any{}, m.keys...)
	m.m.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Channels stay real values (identity, capacity), their contents are kept here.
type chanState struct {
	buf          []any
	cap          int
	ref          any // keeps the channel, and hence its address, alive
	recvq, sendq []*waiter
	closed       bool
}

// waiter is a case of an operation that is blocked.
type waiter struct {
	op *operation
	i  int // index of the case
	v  any // to be sent
}

// operation is a blocked select, send or receive.
type operation struct {
	done   bool
	i      int
	v      any
	ok     bool
	closed bool
}

var (
	chans  = map[string]*chanState{}
	chansM Mutex
	chansC = NewCond(&chansM)
	chansR = rt.NewPrng(1)
)

// ResetChans forgets all channels of the previous run.
func ResetChans(seed uint64) {
	chans = map[string]*chanState{}
	chansM = Mutex{}
	chansC = NewCond(&chansM)
	chansR = rt.NewPrng(seed, 77)
}

// chanOf is called with chansM held.
func chanOf(ref any, capacity int) *chanState {
	ch := fmt.Sprintf("%p", ref)
	s := chans[ch]
	if s == nil {
		s = &chanState{cap: capacity, ref: ref}
		chans[ch] = s
	}
	return s
}

// pop returns the first waiter whose operation is not done yet.
func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.op.done {
			return w
		}
	}
	return nil
}

// Case is a case of a select statement.
type Case interface {
	channel() *chanState // nil: nil channel
	send() (any, bool)
	set(v any, ok bool)
}

// RecvC receives.
type RecvC[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

// SendC sends.
type SendC[T any] struct {
	ch chan<- T
	v  T
}

// RecvCase is case <-ch.
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

// SendCase is case ch <- v.
func SendCase[T any](ch chan<- T, v T) *SendC[T] { return &SendC[T]{ch, v} }

func (c *RecvC[T]) channel() *chanState {
	if c.ch == nil {
		return nil
	}
	return chanOf(c.ch, cap(c.ch))
}
func (c *RecvC[T]) send() (any, bool)  { return nil, false }
func (c *RecvC[T]) set(v any, ok bool) { c.v, _ = v.(T); c.ok = ok }

// V is what was received.
func (c *RecvC[T]) V() T { return c.v }

// Ok tells whether something was received.
func (c *RecvC[T]) Ok() bool { return c.ok }

func (c *SendC[T]) channel() *chanState {
	if c.ch == nil {
		return nil
	}
	return chanOf(c.ch, cap(c.ch))
}
func (c *SendC[T]) send() (any, bool) { return c.v, true }
func (c *SendC[T]) set(any, bool)     {}

// Select is a select statement. It returns the index of the case, -1 for default.
func Select(block bool, cases ...Case) int {
	chansM.Lock()
	defer chansM.Unlock()
	n := len(cases)
	start := 0
	if n > 1 {
		start = chansR.Intn(n)
	}
	for k := 0; k < n; k++ {
		i := (start + k) % n
		c := cases[i]
		s := c.channel()
		if s == nil {
			continue
		}
		if v, send := c.send(); send {
			if s.closed {
				panic("send on closed channel")
			}
			if w := pop(&s.recvq); w != nil {
				*w.op = operation{done: true, i: w.i, v: v, ok: true}
				chansC.Broadcast()
				return i
			}
			if len(s.buf) < s.cap {
				s.buf = append(s.buf, v)
				return i
			}
			continue
		}
		if len(s.buf) > 0 {
			c.set(s.buf[0], true)
			s.buf = s.buf[1:]
			if w := pop(&s.sendq); w != nil {
				s.buf = append(s.buf, w.v)
				*w.op = operation{done: true, i: w.i}
				chansC.Broadcast()
			}
			return i
		}
		if w := pop(&s.sendq); w != nil {
			c.set(w.v, true)
			*w.op = operation{done: true, i: w.i}
			chansC.Broadcast()
			return i
		}
		if s.closed {
			c.set(nil, false)
			return i
		}
	}
	if !block {
		return -1
	}
	op := &operation{}
	for i, c := range cases {
		s := c.channel()
		if s == nil {
			continue
		}
		if v, send := c.send(); send {
			s.sendq = append(s.sendq, &waiter{op, i, v})
		} else {
			s.recvq = append(s.recvq, &waiter{op, i, nil})
		}
	}
	for !op.done {
		chansC.Wait()
	}
	if op.closed {
		panic("send on closed channel")
	}
	cases[op.i].set(op.v, op.ok)
	return op.i
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) { Select(true, SendCase(ch, v)) }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	c := RecvCase(ch)
	Select(true, c)
	return c.v, c.ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	chansM.Lock()
	defer chansM.Unlock()
	s := chanOf(ch, cap(ch))
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	for w := pop(&s.recvq); w != nil; w = pop(&s.recvq) {
		*w.op = operation{done: true, i: w.i}
	}
	for w := pop(&s.sendq); w != nil; w = pop(&s.sendq) {
		*w.op = operation{done: true, i: w.i, closed: true}
	}
	chansC.Broadcast()
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	chansM.Lock()
	defer chansM.Unlock()
	return len(chanOf(ch, cap(ch)).buf)
}

// After is time.After.
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	rt.Go(func() {
		rt.Sleep(uint64(d / time.Microsecond))
		Send(ch, time.Unix(1700000000, 0))
	})
	return ch
}
