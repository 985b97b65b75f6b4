// Package sync models sync.Map with a table on the side; every operation is atomic.
package sync

import "github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"

type Map struct{ _ int }

func get(m *Map) map[any]any { return sym.SideTable(m) }

func (m *Map) CompareAndSwap(k, old, v any) bool {
	sym.AtomicPoint(m)
	t := get(m)
	if o, ok := t[k]; ok && o == old {
		t[k] = v
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	sym.AtomicPoint(m)
	t := get(m)
	if o, ok := t[k]; ok && o == old {
		delete(t, k)
		return true
	}
	return false
}

func (m *Map) Load(k any) (any, bool) {
	sym.AtomicPoint(m)
	v, ok := get(m)[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	sym.AtomicPoint(m)
	get(m)[k] = v
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sym.AtomicPoint(m)
	t := get(m)
	if o, ok := t[k]; ok {
		return o, true
	}
	t[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	sym.AtomicPoint(m)
	t := get(m)
	v, ok := t[k]
	delete(t, k)
	return v, ok
}

func (m *Map) Swap(k, v any) (any, bool) {
	sym.AtomicPoint(m)
	t := get(m)
	o, ok := t[k]
	t[k] = v
	return o, ok
}

func (m *Map) Delete(k any) {
	sym.AtomicPoint(m)
	delete(get(m), k)
}

func (m *Map) Clear() {
	sym.AtomicPoint(m)
	t := get(m)
	for k := range t {
		delete(t, k)
	}
}

func (m *Map) Range(f func(k, v any) bool) {
	sym.AtomicPoint(m)
	t := get(m)
	var keys []any
	for k := range t {
		keys = append(keys, k)
	}
	for _, k := range keys {
		if v, ok := t[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
