// Package sync replaces the standard package in instrumented builds.
package sync

import (
	rs "sync"

	"github.com/peterbourgon/trc/zvsched"
)

type (
	Locker = rs.Locker
	Map    = rs.Map
)

type Mutex struct{ mu rs.Mutex }

func (m *Mutex) Lock() {
	zvsched.Y(0)
	for !m.mu.TryLock() {
		if !zvsched.Block(m) {
			m.mu.Lock()
			return
		}
	}
}

func (m *Mutex) TryLock() bool { zvsched.Y(0); return m.mu.TryLock() }

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	zvsched.Wake(m)
	zvsched.Y(0)
}

type RWMutex struct{ mu rs.RWMutex }

func (m *RWMutex) Lock() {
	zvsched.Y(0)
	for !m.mu.TryLock() {
		if !zvsched.Block(m) {
			m.mu.Lock()
			return
		}
	}
}

func (m *RWMutex) TryLock() bool { zvsched.Y(0); return m.mu.TryLock() }

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	zvsched.Wake(m)
	zvsched.Y(0)
}

func (m *RWMutex) RLock() {
	zvsched.Y(0)
	for !m.mu.TryRLock() {
		if !zvsched.Block(m) {
			m.mu.RLock()
			return
		}
	}
}

func (m *RWMutex) TryRLock() bool { zvsched.Y(0); return m.mu.TryRLock() }

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	zvsched.Wake(m)
	zvsched.Y(0)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	mu rs.Mutex
	n  int
	c  chan struct{}
}

func (w *WaitGroup) Add(d int) {
	zvsched.Y(0)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 && w.c != nil {
		close(w.c)
		w.c = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	w.mu.Lock()
	if w.n == 0 {
		w.mu.Unlock()
		return
	}
	if w.c == nil {
		w.c = make(chan struct{})
	}
	c := w.c
	w.mu.Unlock()
	zvsched.Recv(c)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	ok := zvsched.Spawn()
	go func() {
		defer zvsched.Enter(ok)()
		defer w.Done()
		f()
	}()
}

// Cond keeps its own list of waiters.
type Cond struct {
	L  Locker
	mu rs.Mutex
	ws []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{}, 1)
	c.mu.Lock()
	c.ws = append(c.ws, ch)
	c.mu.Unlock()
	c.L.Unlock()
	zvsched.Recv(ch)
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.ws) > 0 {
		c.ws[0] <- struct{}{}
		c.ws = c.ws[1:]
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, w := range c.ws {
		w <- struct{}{}
	}
	c.ws = nil
	c.mu.Unlock()
}

// Pool is deterministic: last in, first out, nothing is ever discarded. This
// is one of the behaviours the standard pool allows.
type Pool struct {
	New func() any
	mu  rs.Mutex
	xs  []any
}

func (p *Pool) Get() any {
	zvsched.Y(0)
	p.mu.Lock()
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	zvsched.Y(0)
	if x == nil {
		return
	}
	p.mu.Lock()
	p.xs = append(p.xs, x)
	p.mu.Unlock()
}
