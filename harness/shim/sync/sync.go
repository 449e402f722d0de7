// Package sync stands in for the standard package, on top of the controlled scheduler.
package sync

import "trypo/zzverif/sym"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ held int }

func (m *Mutex) Lock() {
	sym.WaitZero(&m.held)
	m.held = 1
}

func (m *Mutex) TryLock() bool {
	sym.Yield()
	if m.held != 0 {
		return false
	}
	m.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if m.held == 0 {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = 0
	sym.Release(&m.held)
}

// RWMutex: rb counts writers holding or waiting (they block readers), wb counts holders (they block writers).
type RWMutex struct{ rb, wb, readers, writer int }

func (m *RWMutex) Lock() {
	m.rb++
	sym.WaitZero(&m.wb)
	m.wb = 1
	m.writer = 1
}

func (m *RWMutex) TryLock() bool {
	sym.Yield()
	if m.wb != 0 {
		return false
	}
	m.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	if m.writer == 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = 0
	m.rb--
	m.wb = 0
	sym.Release(&m.rb)
	sym.Release(&m.wb)
}

func (m *RWMutex) RLock() {
	sym.WaitZero(&m.rb)
	m.wb++
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	sym.Yield()
	if m.rb != 0 {
		return false
	}
	m.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wb--
	sym.Release(&m.wb)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	sym.Release(&g.n)
}

func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() { sym.WaitZero(&g.n) }

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go func() {
		defer g.Done()
		f()
	}()
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

type Cond struct {
	L       Locker
	waiting []*int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := new(int)
	*w = 1
	c.waiting = append(c.waiting, w)
	c.L.Unlock()
	sym.WaitZero(w)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.waiting) > 0 {
		w := c.waiting[0]
		c.waiting = c.waiting[1:]
		*w = 0
		sym.Release(w)
	}
}

func (c *Cond) Broadcast() {
	for len(c.waiting) > 0 {
		c.Signal()
	}
}

// Map keeps its entries behind one lock.
type Map struct {
	m Mutex
	e map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.e[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.e == nil {
		m.e = map[interface{}]interface{}{}
	}
	m.e[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.e[k]; ok {
		return x, true
	}
	if m.e == nil {
		m.e = map[interface{}]interface{}{}
	}
	m.e[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.e[k]
	delete(m.e, k)
	return v, ok
}

func (m *Map) Delete(k interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	delete(m.e, k)
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.m.Lock()
	c := make(map[interface{}]interface{}, len(m.e))
	for k, v := range m.e {
		c[k] = v
	}
	m.m.Unlock()
	for k, v := range c {
		if !f(k, v) {
			return
		}
	}
}

type Pool struct {
	New func() interface{}
}

func (p *Pool) Get() interface{} {
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x interface{}) {}
