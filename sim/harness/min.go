package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"
)

// Minimisation: drop parts of the plan and simplify the schedule as long as
// the run still shows a violation of the same class.

func clone(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

type minimiser struct {
	t     *testing.T
	class string
	best  *Plan
	end   time.Time
	runs  int
}

func (m *minimiser) over() bool { return time.Now().After(m.end) }

func (m *minimiser) fails(p *Plan) (ok bool) {
	if m.over() {
		return false
	}
	m.runs++
	o := doRun(m.t, p, false)
	for _, x := range o.Vio {
		if x.Class == m.class {
			return true
		}
	}
	return false
}

// try edits a copy of the best plan and keeps it if it still fails.
func (m *minimiser) try(f func(p *Plan) bool) bool {
	q := clone(m.best)
	if !f(q) || m.over() {
		return false
	}
	if m.fails(q) {
		m.best = q
		return true
	}
	return false
}

func cut[T any](l []T, i, n int) []T {
	return append(append([]T(nil), l[:i]...), l[i+n:]...)
}

// shrink drops elements of a list; at reads its length, cutf removes a range.
func (m *minimiser) shrink(length func(p *Plan) int, cutf func(p *Plan, i, n int)) bool {
	any := false
	for n := length(m.best); n >= 1; n /= 2 {
		for i := length(m.best) - n; i >= 0; i -= n {
			if m.over() {
				return any
			}
			i := i
			k := n
			if i+k > length(m.best) {
				continue
			}
			if m.try(func(p *Plan) bool { cutf(p, i, k); return true }) {
				any = true
			}
		}
	}
	return any
}

func (m *minimiser) pass() bool {
	any := false
	or := func(b bool) { any = any || b }
	// the schedule first: it decides how readable everything is
	or(m.best.Sched.Preempt > 0 && m.try(func(p *Plan) bool { p.Sched.Preempt, p.Sched.NoPre = 0, 0; return true }))
	or(m.best.Sched.Starve > 0 && m.try(func(p *Plan) bool { p.Sched.Starve = 0; return true }))
	or(m.best.Sched.Strategy != "first" && m.try(func(p *Plan) bool { p.Sched.Strategy, p.Sched.Limit = "first", 0; return true }))
	or(m.shrink(func(p *Plan) int { return len(p.Clients) }, func(p *Plan, i, n int) { p.Clients = cut(p.Clients, i, n) }))
	or(m.shrink(func(p *Plan) int { return len(p.Late) }, func(p *Plan, i, n int) { p.Late = cut(p.Late, i, n) }))
	or(m.shrink(func(p *Plan) int { return len(p.Faults) }, func(p *Plan, i, n int) { p.Faults = cut(p.Faults, i, n) }))
	or(m.shrink(func(p *Plan) int { return len(p.Ops) }, func(p *Plan, i, n int) { p.Ops = cut(p.Ops, i, n) }))
	for c := range m.best.Clients {
		c := c
		or(m.shrink(func(p *Plan) int { return len(p.Clients[c].Conns) }, func(p *Plan, i, n int) { p.Clients[c].Conns = cut(p.Clients[c].Conns, i, n) }))
	}
	for c := range m.best.Clients {
		for k := range m.best.Clients[c].Conns {
			c, k := c, k
			or(m.shrink(func(p *Plan) int { return len(p.Clients[c].Conns[k].Acts) }, func(p *Plan, i, n int) {
				p.Clients[c].Conns[k].Acts = cut(p.Clients[c].Conns[k].Acts, i, n)
			}))
			or(m.best.Clients[c].Conns[k].Wait != 0 && m.try(func(p *Plan) bool { p.Clients[c].Conns[k].Wait = 0; return true }))
			for a := range m.best.Clients[c].Conns[k].Acts {
				a := a
				if x := m.best.Clients[c].Conns[k].Acts[a]; x.K == "msg" && len(x.T) > 2 {
					or(m.try(func(p *Plan) bool { p.Clients[c].Conns[k].Acts[a].T = "x\n"; return true }))
				}
			}
		}
	}
	rules := func(get func(p *Plan) *RFile) {
		if get(m.best) == nil {
			return
		}
		or(m.shrink(func(p *Plan) int { return len(get(p).Items) }, func(p *Plan, i, n int) { get(p).Items = cut(get(p).Items, i, n) }))
		or(get(m.best).Style != 0 && m.try(func(p *Plan) bool { get(p).Style = 0; return true }))
		for i := range get(m.best).Items {
			i := i
			if get(m.best).Items[i].R == nil {
				continue
			}
			cl := func(p *Plan) *Rule { return get(p).Items[i].R }
			or(m.shrink(func(p *Plan) int { return len(cl(p).Cl) - 1 }, func(p *Plan, k, n int) { cl(p).Cl = cut(cl(p).Cl, k, n) }))
			for k := range cl(m.best).Cl {
				k := k
				if e := cl(m.best).Cl[k].E; e != nil && (e.Op == "and" || e.Op == "or") && len(e.Kids) > 1 {
					for q := range e.Kids {
						q := q
						if m.try(func(p *Plan) bool { x := cl(p).Cl[k].E; cl(p).Cl[k].E = x.Kids[q]; return true }) {
							any = true
							break
						}
					}
				}
				if len(cl(m.best).Cl[k].W) > 0 && cl(m.best).Act != "set-with" {
					or(m.try(func(p *Plan) bool { cl(p).Cl[k].W = nil; return true }))
				}
			}
		}
	}
	for i := range m.best.Files {
		i := i
		rules(func(p *Plan) *RFile { return p.Files[i].Rule })
	}
	for i := range m.best.Ops {
		i := i
		rules(func(p *Plan) *RFile { return p.Ops[i].Rule })
	}
	or(m.shrink(func(p *Plan) int { return len(p.Flags.Rules) }, func(p *Plan, i, n int) { p.Flags.Rules = cut(p.Flags.Rules, i, n) }))
	or(m.shrink(func(p *Plan) int { return len(p.Files) }, func(p *Plan, i, n int) {
		p.Files = cut(p.Files, i, n)
	}))
	// flags that rarely matter
	for _, f := range []func(p *Plan) bool{
		func(p *Plan) bool { b := p.Flags.M; p.Flags.M = false; return b },
		func(p *Plan) bool { b := p.Flags.PerIP; p.Flags.PerIP = false; return b },
		func(p *Plan) bool { b := p.Flags.FromReject; p.Flags.FromReject = ""; return b != "" },
		func(p *Plan) bool { b := p.Flags.ToAccept; p.Flags.ToAccept = ""; return b != "" },
		func(p *Plan) bool { b := p.Flags.HeloReject; p.Flags.HeloReject = ""; return b != "" },
		func(p *Plan) bool { b := p.EndPow; p.EndPow = false; return b },
		func(p *Plan) bool { b := p.DirMode; p.DirMode = ""; return b != "" },
		func(p *Plan) bool { b := p.SamePid; p.SamePid = false; return b },
		func(p *Plan) bool { b := p.Zone2 != nil; p.Zone2 = nil; return b },
		func(p *Plan) bool { b := len(p.Zone.Slow) > 0; p.Zone.Slow = nil; return b },
		func(p *Plan) bool { b := len(p.Zone.Fail) > 0; p.Zone.Fail = nil; return b },
		func(p *Plan) bool { b := len(p.Zone.TXT) > 0; p.Zone.TXT = nil; return b },
		func(p *Plan) bool { b := len(p.Zone.PTR) > 0; p.Zone.PTR = nil; return b },
		func(p *Plan) bool { b := len(p.Zone.MX) > 0; p.Zone.MX = nil; return b },
		func(p *Plan) bool { b := len(p.Zone.A) > 0; p.Zone.A = nil; return b },
	} {
		or(m.try(f))
	}
	return any
}

// schedule bounds how many scheduling choices and preemptions matter.
func (m *minimiser) schedule() {
	s := &m.best.Sched
	if s.Strategy != "first" {
		hi := doRun(m.t, clone(m.best), false).R.S.Steps
		lo := 0
		for lo+1 < hi && !m.over() {
			mid := (lo + hi) / 2
			if m.try(func(p *Plan) bool { p.Sched.Limit = mid; return true }) {
				hi = mid
			} else {
				lo = mid
			}
		}
	}
	if s = &m.best.Sched; s.Preempt > 0 {
		for n := 1; n < 64 && !m.over(); n *= 2 {
			n := n
			if m.try(func(p *Plan) bool { p.Sched.NoPre = n; return true }) {
				break
			}
		}
	}
}

func minimiseFile(t *testing.T) {
	b, err := os.ReadFile(env("VSIM_FILE", ""))
	if err != nil {
		t.Fatal(err)
	}
	var f Found
	if err := json.Unmarshal(b, &f); err != nil {
		t.Fatal(err)
	}
	p := f.Plan
	if p == nil {
		p = MakePlan(env("VSIM_PROP", ""), f.Seed)
	}
	size := func(p *Plan) string {
		a, k := 0, 0
		for _, c := range p.Clients {
			for _, n := range c.Conns {
				k++
				a += len(n.Acts)
			}
		}
		return fmt.Sprintf("%d clients, %d connections, %d client actions, %d operator actions, %d faults, schedule %s", len(p.Clients), k, a, len(p.Ops), len(p.Faults), p.Sched.Strategy)
	}
	m := &minimiser{t: t, best: clone(p), end: time.Now().Add(time.Duration(envN("VSIM_TIME", 40)) * time.Second)}
	if len(f.Vio) == 0 {
		f.Vio = doRun(t, clone(p), false).Vio
	}
	if len(f.Vio) == 0 {
		t.Fatal("the run does not fail")
	}
	m.class = f.Vio[0].Class
	was := size(p)
	for i := 0; i < 4 && m.pass() && !m.over(); i++ {
	}
	m.schedule()
	o := doRun(t, clone(m.best), true)
	rp := Replay{Property: p.Prop, Seed: f.Seed, Vio: o.Vio, FP: fmt.Sprintf("%016x", o.R.S.Fingerprint()), Plan: m.best, Trace: o.R.S.Trace,
		Minimised: fmt.Sprintf("from %s to %s in %d runs", was, size(m.best), m.runs)}
	if len(rp.Trace) > 4000 {
		rp.Trace = append(rp.Trace[:4000:4000], "...")
	}
	write(env("VSIM_OUT", "/dev/stdout"), &rp)
}
