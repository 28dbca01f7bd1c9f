// Package vsync is a cooperative replacement of package sync for controlled executions.
package vsync

import "github.com/Wieku/gosu-pp/vsched"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	vsched.Block("a mutex", func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w       bool
	readers int
}

func (m *RWMutex) Lock() {
	vsched.Block("a write lock", func() bool { return !m.w && m.readers == 0 })
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	vsched.Block("a read lock", func() bool { return !m.w })
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool hands out the most recently returned item first, so that reuse always happens.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { vsched.Block("a wait group", func() bool { return w.n == 0 }) }

type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	v, ok := m.m[k]
	m.Delete(k)
	return v, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	o, ok := m.m[k]
	m.Store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.m[k] = n
	return true
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.Delete(k)
	return true
}
func (m *Map) Delete(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]interface{}{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Clear() { m.m, m.keys = nil, nil }
func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, k := range append([]interface{}{}, m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
