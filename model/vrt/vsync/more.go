package vsync

import "vrt/verif"

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.kv == nil {
		m.kv = map[interface{}]interface{}{}
	}
	o, ok := m.kv[k]
	m.kv[k] = v
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if c, ok := m.kv[k]; !ok || c != o {
		return false
	}
	m.kv[k] = n
	return true
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if c, ok := m.kv[k]; !ok || c != o {
		return false
	}
	delete(m.kv, k)
	return true
}

func (m *Map) Clear() {
	m.m.Lock()
	m.kv = nil
	m.m.Unlock()
}

func (m *RWMutex) TryLock() bool {
	verif.Yield()
	if m.w || m.r > 0 {
		return false
	}
	m.Lock()
	return true
}

func (m *RWMutex) TryRLock() bool {
	verif.Yield()
	if m.w {
		return false
	}
	m.RLock()
	return true
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
