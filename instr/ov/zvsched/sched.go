// Package zvsched is a cooperative scheduler used by the verification harness.
// It is only ever compiled in through a build overlay, never part of /repo.
//
// Registered goroutines ("threads") run one at a time; the instrumented code
// calls Y at every statement, where the scheduler may hand the token to another
// thread. Goroutines that are not registered are not affected.
package zvsched

import (
	"fmt"
	rs "sync"
	ra "sync/atomic"
)

// Getg identifies the calling goroutine; set by the harness.
var Getg func() uintptr

func getg() uintptr { return Getg() }

type state uint8

const (
	runnable state = iota
	blocked        // waiting for a mutex (obj)
	detached       // in a real blocking operation, does not hold the token
	done
)

type thread struct {
	id    int
	g     uintptr
	st    state
	obj   any
	wake  chan struct{}
	prio  int
	steps int
}

// Strategy decides which thread runs next.
type Strategy interface {
	// Pick returns the index in cand to run; cur is the index in cand of the
	// running thread, or -1 if it can't continue. site identifies the code.
	Pick(step int, cand []int, cur int, site int) int
}

// Sched is one controlled run.
type Sched struct {
	mu      rs.Mutex
	strat   Strategy
	threads []*thread
	byg     map[uintptr]*thread
	cur     *thread
	steps   int
	limit   int
	pending int // goroutines spawned but not yet registered
	pendc   chan struct{}
	quiet   chan struct{} // closed/sent when nothing can run
	dead    ra.Bool       // abandon: everybody runs free
	dlock   bool
	over    bool
	npre    int
	Tick    func() // called at every scheduling point, if set
}

var active ra.Pointer[Sched]

// New installs a scheduler. All threads must be added (Go) before Run.
func New(strat Strategy, limit int) *Sched {
	s := &Sched{strat: strat, byg: map[uintptr]*thread{}, limit: limit, quiet: make(chan struct{}, 1), pendc: make(chan struct{}, 1)}
	active.Store(s)
	return s
}

// Go registers f as a thread; it starts running when Run is called.
func (s *Sched) Go(f func()) {
	s.mu.Lock()
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	s.mu.Unlock()
	ready := make(chan struct{})
	go func() {
		s.mu.Lock()
		t.g = getg()
		s.byg[t.g] = t
		s.mu.Unlock()
		close(ready)
		<-t.wake
		defer s.exit(t)
		f()
	}()
	<-ready
}

// Result of a run.
type Result struct {
	Steps    int
	Switches int
	Deadlock bool
	Over     bool // step limit exceeded
}

// Run hands the token to the threads until all of them are done or nothing
// can run any more. idle is called when no thread can run but some are
// detached; it returns false to give up waiting for them.
func (s *Sched) Run(idle func() bool) Result {
	s.mu.Lock()
	s.dispatch(nil, 0)
	s.mu.Unlock()
	for {
		<-s.quiet
		s.mu.Lock()
		alldone, anydet, canrun := true, false, false
		for _, t := range s.threads {
			if t.st != done {
				alldone = false
			}
			if t.st == detached {
				anydet = true
			}
			if t.st == runnable {
				canrun = true
			}
		}
		if s.cur != nil {
			s.mu.Unlock()
			continue
		}
		if alldone && s.pending == 0 {
			break
		}
		if canrun {
			s.dispatch(nil, 0)
			s.mu.Unlock()
			continue
		}
		if anydet || s.pending > 0 {
			s.mu.Unlock()
			if idle() {
				s.kick()
				continue
			}
			s.mu.Lock()
		}
		s.dlock = true
		break
	}
	r := Result{Steps: s.steps, Switches: s.npre, Deadlock: s.dlock, Over: s.over}
	s.mu.Unlock()
	s.Stop()
	return r
}

func (s *Sched) kick() {
	select {
	case s.quiet <- struct{}{}:
	default:
	}
}

// Stop uninstalls the scheduler; remaining threads run freely.
func (s *Sched) Stop() {
	active.CompareAndSwap(s, nil)
	s.dead.Store(true)
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, t := range s.threads {
		if t.st != done {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
}

// dispatch gives the token to some runnable thread. s.mu held. self is the
// thread that is giving up or keeping the token (nil if none).
func (s *Sched) dispatch(self *thread, site int) (next *thread) {
	var cand []int
	cur := -1
	for _, t := range s.threads {
		if t.st == runnable {
			if t == self {
				cur = len(cand)
			}
			cand = append(cand, t.id)
		}
	}
	if len(cand) == 0 {
		s.cur = nil
		s.kick()
		return nil
	}
	i := s.strat.Pick(s.steps, cand, cur, site)
	next = s.threads[cand[i]]
	s.cur = next
	if next != self {
		s.npre++
		next.wake <- struct{}{}
	}
	return next
}

func (s *Sched) self() *thread {
	g := getg()
	s.mu.Lock()
	t := s.byg[g]
	s.mu.Unlock()
	return t
}

func (s *Sched) exit(t *thread) {
	s.mu.Lock()
	t.st = done
	delete(s.byg, t.g)
	if !s.dead.Load() {
		if s.cur == t {
			s.waitPending()
			s.dispatch(t, 0)
		} else {
			s.kick()
		}
	}
	s.mu.Unlock()
}

// waitPending waits until spawned goroutines have registered. s.mu held.
func (s *Sched) waitPending() {
	for s.pending > 0 && !s.dead.Load() {
		s.mu.Unlock()
		<-s.pendc
		s.mu.Lock()
	}
}

func (s *Sched) yield(t *thread, site int) {
	if s.Tick != nil && !s.dead.Load() {
		s.Tick()
	}
	s.mu.Lock()
	if s.dead.Load() {
		s.mu.Unlock()
		return
	}
	s.steps++
	if s.limit > 0 && s.steps > s.limit {
		s.over = true
	}
	s.waitPending()
	next := s.dispatch(t, site)
	s.mu.Unlock()
	if next != t {
		<-t.wake
	}
}

// Y is called before every statement of the instrumented code.
func Y(site int) {
	s := active.Load()
	if s == nil {
		return
	}
	t := s.self()
	if t == nil {
		return
	}
	s.yield(t, site)
}

// B detaches the thread before a real blocking operation.
func B() {
	s := active.Load()
	if s == nil {
		return
	}
	t := s.self()
	if t == nil {
		return
	}
	s.mu.Lock()
	if !s.dead.Load() {
		s.steps++
		t.st = detached
		s.waitPending()
		s.dispatch(t, 0)
	}
	s.mu.Unlock()
}

// R re-attaches the thread after a real blocking operation.
func R() {
	s := active.Load()
	if s == nil {
		return
	}
	t := s.self()
	if t == nil {
		return
	}
	s.mu.Lock()
	if s.dead.Load() || t.st != detached {
		s.mu.Unlock()
		return
	}
	t.st = runnable
	if s.cur == nil {
		s.kick()
	}
	s.mu.Unlock()
	<-t.wake
}

// Recv receives from c.
func Recv[T any](c <-chan T) T {
	Y(0)
	select {
	case v := <-c:
		return v
	default:
	}
	B()
	v := <-c
	R()
	return v
}

// Send sends to c.
func Send[T any](c chan<- T, v T) {
	Y(0)
	select {
	case c <- v:
		return
	default:
	}
	B()
	c <- v
	R()
}

// Spawn announces that the calling thread is about to start a goroutine
// that will call Enter.
func Spawn() bool {
	s := active.Load()
	if s == nil {
		return false
	}
	if s.self() == nil {
		return false
	}
	s.mu.Lock()
	s.pending++
	s.mu.Unlock()
	return true
}

// Enter registers the calling goroutine.
func Enter(ok bool) func() {
	if !ok {
		return func() {}
	}
	s := active.Load()
	if s == nil {
		return func() {}
	}
	s.mu.Lock()
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1), g: getg()}
	s.threads = append(s.threads, t)
	s.byg[t.g] = t
	s.pending--
	select {
	case s.pendc <- struct{}{}:
	default:
	}
	if s.cur == nil {
		s.kick()
	}
	s.mu.Unlock()
	<-t.wake
	return func() { s.exit(t) }
}

// Block is called by the lock replacements when obj is not available.
// It returns false if the calling goroutine is not under control.
func Block(obj any) bool {
	s := active.Load()
	if s == nil {
		return false
	}
	t := s.self()
	if t == nil {
		return false
	}
	s.mu.Lock()
	if s.dead.Load() {
		s.mu.Unlock()
		return false
	}
	t.st, t.obj = blocked, obj
	s.waitPending()
	s.dispatch(t, 0)
	s.mu.Unlock()
	<-t.wake
	return !s.dead.Load()
}

// Controlled reports whether the calling goroutine is a thread.
func Controlled() bool {
	s := active.Load()
	return s != nil && s.self() != nil
}

// Wake makes the threads blocked on obj runnable.
func Wake(obj any) {
	s := active.Load()
	if s == nil {
		return
	}
	s.mu.Lock()
	for _, t := range s.threads {
		if t.st == blocked && t.obj == obj {
			t.st, t.obj = runnable, nil
		}
	}
	if s.cur == nil {
		s.kick()
	}
	s.mu.Unlock()
}

// Inc is x++ or x-- with a scheduling point between load and store.
func Inc[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64](p *T, d int) {
	v := *p
	Y(0)
	if d > 0 {
		v++
	} else {
		v--
	}
	*p = v
}

// Set is *p = v with a scheduling point between computing v and storing it.
func Set[T any](p *T, v T) {
	Y(0)
	*p = v
}

func (r Result) String() string {
	return fmt.Sprintf("steps=%d switches=%d deadlock=%v over=%v", r.Steps, r.Switches, r.Deadlock, r.Over)
}

// CanRun reports whether some thread can run.
func (s *Sched) CanRun() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, t := range s.threads {
		if t.st == runnable {
			return true
		}
	}
	return false
}

// Describe says what the threads are doing.
func (s *Sched) Describe() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := ""
	for _, t := range s.threads {
		r += fmt.Sprintf("thread %d: %s %T; ", t.id+1, [...]string{"runnable", "waits for", "in a blocking operation", "done"}[t.st], t.obj)
	}
	return r
}
