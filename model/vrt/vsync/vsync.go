// Package vsync stands for sync on the cooperative scheduler.
package vsync

import "vrt/verif"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	verif.Yield()
	if m.locked {
		verif.Block(func() bool { return !m.locked })
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	verif.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	verif.Yield()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	verif.Yield()
	if m.w || m.r > 0 {
		verif.Block(func() bool { return !m.w && m.r == 0 })
	}
	m.w = true
}

func (m *RWMutex) Unlock() {
	verif.Yield()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	verif.Yield()
	if m.w {
		verif.Block(func() bool { return !m.w })
	}
	m.r++
}

func (m *RWMutex) RUnlock() {
	verif.Yield()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

func (m *RWMutex) RLocker() Locker { return &rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r *rlocker) Lock()   { r.m.RLock() }
func (r *rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	verif.Yield()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	verif.Yield()
	if w.n != 0 {
		verif.Block(func() bool { return w.n == 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	verif.Go(func() {
		f()
		w.Done()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	verif.Yield()
	if o.done {
		return
	}
	o.m.Lock()
	if !o.done {
		defer o.m.Unlock()
		defer func() { o.done = true }()
		f()
		return
	}
	o.m.Unlock()
}

// Pool hands back what was put last: reuse is the interesting case.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

type Map struct {
	m  Mutex
	kv map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.m.Lock()
	v, ok := m.kv[k]
	m.m.Unlock()
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	m.m.Lock()
	if m.kv == nil {
		m.kv = map[interface{}]interface{}{}
	}
	m.kv[k] = v
	m.m.Unlock()
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.kv == nil {
		m.kv = map[interface{}]interface{}{}
	}
	if o, ok := m.kv[k]; ok {
		return o, true
	}
	m.kv[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.m.Lock()
	v, ok := m.kv[k]
	delete(m.kv, k)
	m.m.Unlock()
	return v, ok
}

func (m *Map) Delete(k interface{}) {
	m.m.Lock()
	delete(m.kv, k)
	m.m.Unlock()
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.m.Lock()
	var ks []interface{}
	for k := range m.kv {
		ks = append(ks, k)
	}
	m.m.Unlock()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L   Locker
	gen int
	sig int
	wts int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.wts++
	g := c.gen
	c.L.Unlock()
	verif.Block(func() bool { return c.gen != g || c.sig > 0 })
	if c.gen == g && c.sig > 0 {
		c.sig--
	}
	c.wts--
	c.L.Lock()
}
func (c *Cond) Signal() {
	verif.Yield()
	if c.sig < c.wts {
		c.sig++
	}
}
func (c *Cond) Broadcast() {
	verif.Yield()
	c.gen++
	c.sig = 0
}
