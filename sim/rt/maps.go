package rt

import "unsafe"

// Map operations of the program under test. Go's runtime ends the process
// when it catches two goroutines in one map and one of them writing. Each
// operation is therefore a small window in which the scheduler may preempt;
// two windows on one map that overlap, one of them a write, are that crash.
// Operations under a common lock, or ordered in any other way, never overlap.

type mapwin struct {
	m     unsafe.Pointer
	write bool
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func mapOp(m unsafe.Pointer, write bool) {
	if m == nil {
		return
	}
	g := Cur()
	if g == nil || g.dying || g.Proc == nil {
		return
	}
	p := g.Proc
	if p.nwin > 0 {
		what := ""
		for o := range p.gs {
			if o != g && o.win.m == m && (o.win.write || write) {
				if o.win.write && write {
					what = "concurrent map writes"
				} else if what == "" {
					what = "concurrent map read and map write"
				}
			}
		}
		if what != "" {
			g.fatal("fatal error: " + what)
		}
	}
	s := g.sim
	if s.Sched.Preempt == 0 || (s.Sched.NoPre > 0 && s.Pre >= s.Sched.NoPre) || (s.Sched.Limit > 0 && s.Steps >= s.Sched.Limit) {
		return
	}
	n := uint64(24)
	if s.Sched.Starve > 0 {
		n = 8
	}
	if g.rng.U64()%n != 0 {
		return
	}
	g.win = mapwin{m, write}
	p.nwin++
	s.Pre++
	g.preempt()
	p.nwin--
	g.win = mapwin{}
}

// MapTouch is a read of a map known by its address only.
func MapTouch(m unsafe.Pointer) { mapOp(m, false) }

// MapR is a map about to be read.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	mapOp(mapPtr(m), false)
	return m
}

// MapW is a map about to be written to.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	mapOp(mapPtr(m), true)
	return m
}

// MapKey gives k the map's key type.
func MapKey[M ~map[K]V, K comparable, V any](m M) func(K) K {
	return func(k K) K { return k }
}

// MapSet is m[k] = v, as MapSet(m)(k, v).
func MapSet[M ~map[K]V, K comparable, V any](m M) func(K, V) {
	return func(k K, v V) {
		mapOp(mapPtr(m), true)
		m[k] = v
	}
}

// MapDel is delete(m, k), as MapDel(m)(k).
func MapDel[M ~map[K]V, K comparable, V any](m M) func(K) {
	return func(k K) {
		mapOp(mapPtr(m), true)
		delete(m, k)
	}
}
