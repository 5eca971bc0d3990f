package rt

import (
	"fmt"
	"runtime"
	"sort"
	"time"
)

// Channel operations of the program under test. They stay real channel
// operations, made killable; a scheduling point follows each, so whoever was
// woken waits for the scheduler.

func killC(g *G) chan struct{} {
	if g == nil {
		return nil
	}
	return g.killc
}

// KillC is the extra case the rewriter adds to selects without default.
func KillC() <-chan struct{} { return killC(Cur()) }

// Die ends a goroutine of a crashed process.
func Die() interface{} {
	if g := Cur(); g != nil && g.dying {
		runtime.Goexit()
	}
	return killed{}
}

func after(g *G, label string) {
	if g != nil {
		g.gate(label, nil, time.Time{})
	}
}

func pre(g *G) {
	if g != nil && g.dying {
		runtime.Goexit()
	}
}

// Recv is <-ch.
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	g := Cur()
	pre(g)
	select {
	case v := <-ch:
		after(g, "recv")
		return v
	case <-killC(g):
		runtime.Goexit()
		panic("unreachable")
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	g := Cur()
	pre(g)
	select {
	case v, ok := <-ch:
		after(g, "recv")
		return v, ok
	case <-killC(g):
		runtime.Goexit()
		panic("unreachable")
	}
}

// Send is ch <- v, written Send(ch)(v) so that v converts as usual.
func Send[C ~chan T | ~chan<- T, T any](ch C) func(T) {
	return func(v T) {
		g := Cur()
		pre(g)
		select {
		case ch <- v:
			after(g, "send")
		case <-killC(g):
			runtime.Goexit()
		}
	}
}

// MapKeys lists a map's keys in an order derived from the schedule seed.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	strs := make(map[K]string, len(keys))
	for _, k := range keys {
		strs[k] = fmt.Sprint(k)
	}
	sort.Slice(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
	g := Cur()
	if g == nil {
		return keys
	}
	r := NewRng(g.rng.U64())
	for i := len(keys) - 1; i > 0; i-- {
		j := r.N(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	return keys
}

// Zero resets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
