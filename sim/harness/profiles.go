package harness

import (
	"fmt"
	"sort"
)

// Stat is what a judged run covered.
type Stat map[string]int

func (s Stat) add(k string, n int) { s[k] += n }

// Profile is how one property is explored and judged.
type Profile struct {
	ID    string
	Gen   func(g *gen)
	Crash func(r *Result, power bool)
	Judge func(r *Result, st Stat) []Violation
}

// Profiles by property.
var Profiles = map[string]*Profile{}

func register(p *Profile) { Profiles[p.ID] = p }

// MakePlan generates the plan of a seed.
func MakePlan(id string, seed uint64) *Plan {
	pr := Profiles[id]
	if pr == nil {
		panic("no such property " + id)
	}
	g := newGen(id, seed)
	pr.Gen(g)
	return g.p
}

func v(class, format string, args ...interface{}) Violation {
	return Violation{Class: class, Msg: fmt.Sprintf(format, args...)}
}

func keys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// crashed reports daemon lives that ended by a panic or an unexpected exit.
func crashed(r *Result) []Violation {
	var vs []Violation
	for _, b := range r.Boots {
		switch {
		case b.Proc.Panic != "":
			vs = append(vs, v("crash", "the daemon panicked: %s\n%s", b.Proc.Panic, where(b.Proc.Stack)))
		case b.Proc.Exit != nil && b.ReadySeq != 0:
			vs = append(vs, v("exit", "the running daemon exited with status %d", *b.Proc.Exit))
		}
	}
	if len(r.Boots) > 0 && len(vs) == 0 && r.P.Prop != "C15" {
		// a sound configuration is not turned down
		if b := r.Boots[0]; b.Proc.Exit != nil && b.ReadySeq == 0 && len(r.P.refusals()) == 0 {
			flt := false
			for _, e := range r.W.Hist {
				flt = flt || e.Kind == "fault" || e.Kind == "fdlimit" || e.Kind == "op" || e.Kind == "crash"
			}
			if !flt {
				vs = append(vs, v("no-start", "the daemon ended (status %d) instead of serving although its configuration is sound: %q", *b.Proc.Exit, short(string(r.W.Stderr))))
			}
		}
	}
	if r.S.Spin != "" {
		vs = append(vs, v("livelock", "a goroutine of the daemon never yields: %s", where(r.S.Spin)))
	}
	return vs
}

// fdhog reports a daemon that holds far more files open than its sessions
// can need.
func fdhog(r *Result) []Violation {
	n := 0
	for _, b := range r.Boots {
		if len(b.BaseFD) > n {
			n = len(b.BaseFD)
		}
	}
	if max := n + 40 + 30*len(r.W.Sess); r.W.FS.Peak > max {
		return []Violation{v("fd-hog", "the daemon had %d files open at once for %d sessions", r.W.FS.Peak, len(r.W.Sess))}
	}
	return nil
}
