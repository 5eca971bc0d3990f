// Package world is everything around the program under test: the file
// system, the network, DNS, TLS material and the fault plan. Shims and the
// SMTP library stand-in call into it; the harness reads its history.
package world

import (
	"fmt"
	"strings"
	"time"

	"vsim/rt"
)

// Fault is one planned fault: the Nth..Nth+Count-1 operation of class Op
// whose target has prefix Match misbehaves.
type Fault struct {
	Op    string `json:"op"`              // e.g. fs.write, dns.MX, net.accept
	Match string `json:"match,omitempty"` // target prefix
	Sub   string `json:"sub,omitempty"`   // target substring
	Nth   int    `json:"nth"`             // 1-based
	Count int    `json:"count,omitempty"` // 0 means 1
	Err   string `json:"err,omitempty"`   // errno name or DNS failure kind
	Part  int    `json:"part,omitempty"`  // for writes/reads: permille done before the error
	Crash string `json:"crash,omitempty"` // "proc" or "power": crash here
	After bool   `json:"after,omitempty"` // crash after the operation instead of before
	Delay int    `json:"delay,omitempty"` // milliseconds the operation takes

	seen, Fired int
}

// World is the simulated machine and its surroundings.
type World struct {
	Sim    *rt.Sim
	Seed   uint64
	FS     *FS
	Net    *Net
	DNS    *DNS
	Faults []*Fault
	Fired  map[string]int // fault kinds that actually happened
	Hist   []*Ev
	Stdout []byte
	Stderr []byte
	Probe  map[string]int
	Power  bool // the pending crash is a power loss
	NCrash int
	NRand  int
	NTemp  int
	Env    map[string]string
	// DNSSeen lists every DNS answer handed out, in order.
	DNSSeen []DNSAnswer
	// Reads lists file opens for reading by the daemon.
	Sess []*Session
	// OnCrash is called after each crash.
	OnCrash func(power bool)
}

// W is the running world.
var W *World

// Ev is one history event.
type Ev struct {
	Seq  int
	T    time.Duration
	Kind string
	A, B string
	N    int
}

func New(sim *rt.Sim, seed uint64) *World {
	w := &World{Sim: sim, Seed: seed, Fired: map[string]int{}, Probe: map[string]int{}, Env: map[string]string{}}
	w.FS = newFS(w)
	w.Net = newNet(w)
	w.DNS = newDNS(w)
	return w
}

// Log appends to the history.
func (w *World) Log(kind, a, b string, n int) *Ev {
	e := &Ev{Seq: w.Sim.Next(), T: w.Sim.Now(), Kind: kind, A: a, B: b, N: n}
	w.Hist = append(w.Hist, e)
	w.Sim.Note("%s %s %s %d", kind, a, b, n)
	return e
}

// Daemon says whether the caller is a live goroutine of the program under
// test; inert says its effects must be dropped.
func caller() (daemon, inert bool) {
	g := rt.Cur()
	if g == nil {
		return false, false
	}
	if g.Dying() {
		return true, true
	}
	return g.Proc != nil, false
}

// fault consults the plan for an operation of the daemon.
func (w *World) fault(op, target string) *Fault {
	d, inert := caller()
	if !d || inert {
		return nil
	}
	var hit *Fault
	for _, f := range w.Faults {
		if f.Op != op && !(strings.HasSuffix(f.Op, "*") && strings.HasPrefix(op, strings.TrimSuffix(f.Op, "*"))) {
			continue
		}
		if !strings.HasPrefix(target, f.Match) || !strings.Contains(target, f.Sub) {
			continue
		}
		if f.Err == "" && f.Crash == "" {
			if g := rt.Cur(); g.Proc == nil || !g.Proc.Up {
				continue // nothing is slow before the daemon is up
			}
		}
		f.seen++
		n := f.Count
		if n == 0 {
			n = 1
		}
		if hit == nil && f.seen >= f.Nth && f.seen < f.Nth+n {
			hit = f
		}
	}
	if hit != nil {
		hit.Fired++
		k, kind := op+":"+hit.Err, "fault"
		if hit.Crash != "" {
			k = "crash:" + hit.Crash + "@" + op
		} else if hit.Err == "" && hit.Delay > 0 {
			k, kind = op+":delay", "slow"
		}
		w.Fired[k]++
		w.Log(kind, k, target, hit.Part)
		if hit.Delay > 0 {
			rt.Sleep(time.Duration(hit.Delay) * time.Millisecond)
		}
	}
	return hit
}

// crashHere ends the calling process at this very point.
func (w *World) crashHere(power bool) {
	g := rt.Cur()
	p := g.Proc
	w.Sim.Defer(func() { w.Crash(p, power) })
	rt.Park("crash")
}

// Crash kills a process; with power, unsynced state is lost too. It runs in
// the scheduler.
func (w *World) Crash(p *rt.Proc, power bool) {
	if p == nil || p.Dead() {
		return
	}
	w.NCrash++
	k := "proc"
	if power {
		k = "power"
	}
	w.Fired["crash:"+k]++
	w.Log("crash", k, "", p.Pid)
	w.Sim.Kill(p)
	if power {
		w.FS.PowerLoss()
	}
	if w.OnCrash != nil {
		w.OnCrash(power)
	}
}

// Rand derives a deterministic random stream for a purpose.
func (w *World) Rand(parts ...interface{}) *rt.Rng {
	return rt.NewRng(rt.Hash(w.Seed, parts...))
}

func (w *World) String() string { return fmt.Sprintf("world(%d events)", len(w.Hist)) }

// BootOS is set by the os shim; it resets os.Args and the standard streams.
var BootOS func(args []string)
