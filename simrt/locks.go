package simrt

import (
	"fmt"
	"os"
	"runtime"
)

// need returns the running world and task. During teardown it ends the
// goroutine; outside a run it is an error of the harness.
func need() (*World, *Task) {
	if w == nil || w.cur == nil {
		fmt.Fprintln(os.Stderr, "simrt: blocking operation outside a simulation")
		os.Exit(3)
	}
	if w.dead {
		runtime.Goexit()
	}
	return w, w.cur
}

// fatal models runtime.fatal: the process dies, nobody can recover.
func (nw *World) fatal(msg string) {
	if nw.res.Crash == "" {
		nw.res.Crash = fmt.Sprintf("fatal error: %s in task %s near %s", msg, nw.cur.Name, SiteName(nw.cur.lastYS))
	}
	nw.finish(nw.cur)
}

// Mutex is the simulated sync.Mutex.
type Mutex struct {
	held bool
	q    []*Task
}

// Lock locks.
func (m *Mutex) Lock() {
	nw, t := me()
	if nw == nil {
		if inDead() {
			return
		}
		m.held = true
		return
	}
	nw.syncPoint()
	for m.held {
		m.q = append(m.q, t)
		nw.block(t, "Mutex.Lock near "+SiteName(t.lastYS))
	}
	m.held = true
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	nw, _ := me()
	if nw == nil {
		m.held = false
		return
	}
	if !m.held {
		nw.fatal("sync: unlock of unlocked mutex")
		return
	}
	m.held = false
	if len(m.q) > 0 {
		x := m.q[0]
		m.q = m.q[1:]
		nw.ready(x)
	}
	nw.syncPoint()
}

// RWMutex is the simulated sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	readers int
	writer  bool
	wwait   int
	q       []*Task
}

func (m *RWMutex) wakeAll(nw *World) {
	q := m.q
	m.q = nil
	for _, x := range q {
		nw.ready(x)
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	nw, t := me()
	if nw == nil {
		return
	}
	nw.syncPoint()
	for m.writer || m.wwait > 0 {
		m.q = append(m.q, t)
		nw.block(t, "RWMutex.RLock near "+SiteName(t.lastYS))
	}
	m.readers++
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	nw, _ := me()
	if nw == nil {
		return
	}
	if m.readers <= 0 {
		nw.fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.readers--
	if m.readers == 0 {
		m.wakeAll(nw)
	}
	nw.syncPoint()
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	nw, t := me()
	if nw == nil {
		return
	}
	nw.syncPoint()
	m.wwait++
	for m.writer || m.readers > 0 {
		m.q = append(m.q, t)
		nw.block(t, "RWMutex.Lock near "+SiteName(t.lastYS))
	}
	m.wwait--
	m.writer = true
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	nw, _ := me()
	if nw == nil {
		return
	}
	if !m.writer {
		nw.fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	m.writer = false
	m.wakeAll(nw)
	nw.syncPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

// WaitGroup is the simulated sync.WaitGroup.
type WaitGroup struct {
	n int
	q []*Task
}

// Add adds d.
func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		nw, _ := me()
		q := g.q
		g.q = nil
		for _, x := range q {
			if nw != nil {
				nw.ready(x)
			}
		}
	}
}

// Done is Add(-1).
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for zero.
func (g *WaitGroup) Wait() {
	nw, t := need()
	nw.syncPoint()
	for g.n > 0 {
		g.q = append(g.q, t)
		nw.block(t, "WaitGroup.Wait near "+SiteName(t.lastYS))
	}
}

// Go runs f in a new task.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(0, func() { defer g.Done(); f() })
}

// Once is the simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Cond is the simulated sync.Cond.
type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	q []*Task
}

// NewCond is sync.NewCond.
func NewCond(l interface {
	Lock()
	Unlock()
}) *Cond {
	return &Cond{L: l}
}

// Wait waits.
func (c *Cond) Wait() {
	nw, t := need()
	c.q = append(c.q, t)
	c.L.Unlock()
	nw.block(t, "Cond.Wait near "+SiteName(t.lastYS))
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	nw, _ := need()
	if len(c.q) > 0 {
		x := c.q[0]
		c.q = c.q[1:]
		nw.ready(x)
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	nw, _ := need()
	for _, x := range c.q {
		nw.ready(x)
	}
	c.q = nil
}

// Pool is the simulated sync.Pool: which item (if any) comes back is a
// scheduling choice.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	nw, _ := me()
	if nw != nil {
		nw.syncPoint()
	}
	if len(p.items) > 0 {
		i := len(p.items) - 1
		v := p.items[i]
		p.items = p.items[:i]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.items = append(p.items, x)
	if nw, _ := me(); nw != nil {
		nw.syncPoint()
	}
}

// Map is the simulated sync.Map.
type Map struct {
	keys []interface{}
	m    map[interface{}]interface{}
}

func (m *Map) sp() {
	if nw, _ := me(); nw != nil {
		nw.syncPoint()
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}

// Load loads.
func (m *Map) Load(k interface{}) (interface{}, bool) { m.sp(); v, ok := m.m[k]; return v, ok }

// Store stores.
func (m *Map) Store(k, v interface{}) {
	m.sp()
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.sp()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.sp()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

// Delete deletes.
func (m *Map) Delete(k interface{}) { m.sp(); m.del(k) }

// Swap swaps.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.sp()
	x, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return x, ok
}

// CompareAndSwap compares and swaps.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.sp()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}

// Range ranges.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.sp()
	for _, k := range append([]interface{}(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// Clear clears.
func (m *Map) Clear() { m.m = nil; m.keys = nil }
