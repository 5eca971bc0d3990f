// Package expvar replaces the process-wide registry, so that a simulated
// process restart can register its variables again, and makes the single
// operations on numbers visible to the scheduler.
package expvar

import (
	rex "expvar"
	"sort"
	"strconv"
	"strings"

	"vsim/rt"
	"vsim/shim/sync"
)

var reg = map[string]rex.Var{}

// Int is an expvar.Int whose operations are scheduling points.
type Int struct{ v rex.Int }

func (i *Int) Value() int64   { rt.Hot(); x := i.v.Value(); rt.Hot(); return x }
func (i *Int) String() string { return i.v.String() }
func (i *Int) Add(d int64)    { rt.Hot(); i.v.Add(d); rt.Y() }
func (i *Int) Set(d int64)    { rt.Hot(); i.v.Set(d); rt.Y() }

// Float likewise.
type Float struct{ v rex.Float }

func (i *Float) Value() float64 { rt.Hot(); x := i.v.Value(); rt.Hot(); return x }
func (i *Float) String() string { return i.v.String() }
func (i *Float) Add(d float64)  { rt.Hot(); i.v.Add(d); rt.Y() }
func (i *Float) Set(d float64)  { rt.Hot(); i.v.Set(d); rt.Y() }

// Map is an expvar.Map whose blocking is simulated: like the real one it
// keeps the list of its keys locked while it is walked, so adding a key waits
// for that, and changing the value of a key does not.
type Map struct {
	m      map[string]rex.Var
	keysMu sync.RWMutex
	keys   []string
}

// Init removes all keys.
func (v *Map) Init() *Map {
	v.keysMu.Lock()
	defer v.keysMu.Unlock()
	v.keys, v.m = nil, nil
	return v
}

func (v *Map) Get(key string) rex.Var {
	rt.Hot()
	x := v.m[key]
	rt.Hot()
	return x
}

func (v *Map) addKey(key string) {
	v.keysMu.Lock()
	defer v.keysMu.Unlock()
	i := sort.SearchStrings(v.keys, key)
	if i < len(v.keys) && v.keys[i] == key {
		return
	}
	v.keys = append(v.keys[:i:i], append([]string{key}, v.keys[i:]...)...)
}

func (v *Map) store(key string, x rex.Var) {
	if v.m == nil {
		v.m = map[string]rex.Var{}
	}
	_, had := v.m[key]
	v.m[key] = x
	if !had {
		v.addKey(key)
	}
}

func (v *Map) Set(key string, av rex.Var) {
	rt.Hot()
	v.store(key, av)
	rt.Y()
}

func (v *Map) Add(key string, delta int64) {
	rt.Hot()
	if v.m[key] == nil {
		v.store(key, new(Int))
	}
	if x, ok := v.m[key].(*Int); ok {
		x.Add(delta)
	}
}

func (v *Map) AddFloat(key string, delta float64) {
	rt.Hot()
	if v.m[key] == nil {
		v.store(key, new(Float))
	}
	if x, ok := v.m[key].(*Float); ok {
		x.Add(delta)
	}
}

func (v *Map) Delete(key string) {
	v.keysMu.Lock()
	defer v.keysMu.Unlock()
	i := sort.SearchStrings(v.keys, key)
	if i < len(v.keys) && v.keys[i] == key {
		v.keys = append(v.keys[:i:i], v.keys[i+1:]...)
		delete(v.m, key)
	}
}

func (v *Map) Do(f func(rex.KeyValue)) {
	v.keysMu.RLock()
	defer v.keysMu.RUnlock()
	for _, k := range v.keys {
		f(rex.KeyValue{Key: k, Value: v.m[k]})
	}
}

func (v *Map) String() string {
	var b strings.Builder
	b.WriteByte('{')
	first := true
	v.Do(func(kv rex.KeyValue) {
		if !first {
			b.WriteString(", ")
		}
		first = false
		b.WriteString(strconv.Quote(kv.Key) + ": ")
		if kv.Value == nil {
			b.WriteString("null")
		} else {
			b.WriteString(kv.Value.String())
		}
	})
	b.WriteByte('}')
	return b.String()
}

func NewMap(name string) *Map {
	m := new(Map)
	reg[name] = m
	return m
}
func NewInt(name string) *Int           { v := new(Int); reg[name] = v; return v }
func NewFloat(name string) *Float       { v := new(Float); reg[name] = v; return v }
func NewString(name string) *rex.String { v := new(rex.String); reg[name] = v; return v }
func Publish(name string, v rex.Var)    { reg[name] = v }
func Get(name string) rex.Var           { return reg[name] }
func Do(f func(rex.KeyValue)) {
	for k, v := range reg {
		f(rex.KeyValue{Key: k, Value: v})
	}
}

// Reset empties the registry when a new process starts.
func Reset() { reg = map[string]rex.Var{} }

// All returns what is registered.
func All() map[string]rex.Var { return reg }
