// Package rt is the simulator's kernel: it decides, from one seed, which
// goroutine of the program under test runs at every scheduling point, it owns
// the clock (a testing/synctest bubble whose time only this scheduler moves),
// and it starts, crashes and restarts simulated processes.
package rt

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

// Sched says how scheduling choices are made. It is part of the replay file.
type Sched struct {
	Seed     uint64 `json:"seed"`
	Strategy string `json:"strategy"`          // uniform, sticky, pct, first
	Sticky   int    `json:"sticky,omitempty"`  // percent, for sticky
	Depth    int    `json:"depth,omitempty"`   // priority change points, for pct
	Preempt  int    `json:"preempt,omitempty"` // mean statements between preemptions; 0 = off
	Limit    int    `json:"limit,omitempty"`   // after this many choices use "first"; 0 = no limit
	Starve   int    `json:"starve,omitempty"`  // percent of preemptions after which the others run on for long
	NoPre    int    `json:"nopre,omitempty"`   // preemptions allowed in total; 0 = no limit
}

// Kill is the panic value that unwinds goroutines of a crashed process when
// Goexit cannot be used.
type killed struct{}

// Proc is one incarnation of a simulated process.
type Proc struct {
	Pid   int
	Name  string
	Args  []string
	Up    bool // it has come up: preemptions may take time
	dead  bool
	gs    map[*G]bool
	nwin  int    // goroutines inside a map operation
	Exit  *int   // os.Exit status, if it exited
	Panic string // panic text, if it crashed by itself
	Stack string
	Data  interface{}
}

// Dead says whether the process is gone.
func (p *Proc) Dead() bool { return p.dead }

// NumG counts the live goroutines of the process.
func (p *Proc) NumG() int { return len(p.gs) }

// GIDs lists the process's goroutines and what they wait for.
func (p *Proc) GIDs() []string {
	var l []string
	for g := range p.gs {
		l = append(l, g.ID+"@"+g.label)
	}
	sort.Strings(l)
	return l
}

// G is one simulated goroutine.
type G struct {
	ID      string
	Proc    *Proc
	sim     *Sim
	wake    chan struct{}
	killc   chan struct{}
	ready   func() bool
	dl      time.Time
	dlf     func() time.Time // overrides dl
	label   string
	parked  bool
	dying   bool
	kids    int
	count   int64 // statements left until a preemption
	spin    int64 // statements since the last scheduling point
	rng     Rng
	prio    int
	ordinal int
	noPre   int
	atT     time.Duration
	atN     int
	hold    int // not to run again before this step, if others can
	win     mapwin
	Tag     interface{}
}

// Dying is true while a goroutine of a crashed process unwinds: nothing it
// does may have an effect any more.
func (g *G) Dying() bool { return g.dying }

// Sim is one simulated execution.
type Sim struct {
	mu      sync.Mutex
	Sched   Sched
	rng     *Rng
	waiting []*G
	last    *G
	start   time.Time
	Steps   int
	MaxStep int
	Switch  int
	Pre     int
	Seq     int
	nroot   map[string]int
	ordinal int
	done    bool
	live    int
	Trouble string // simulator-level trouble: step cap, livelock
	Spin    string // livelock description
	fnv     uint64
	shape   uint64 // hash of the schedule's shape only
	Trace   []string
	DoTrace bool
	pend    []func() // to run in the scheduler, between steps
	changes map[int]bool
	Skew    time.Duration // added to the wall clock only
	procs   []*Proc
	OnExit  func(p *Proc)
	lowprio int
}

// S is the running simulation.
var S *Sim

// SpinLimit is how many statements a goroutine may run between two
// scheduling points before the run counts as a livelock.
const SpinLimit = 30_000_000

// Now is the simulated (monotonic) time since the start of the run.
func (s *Sim) Now() time.Duration { return time.Since(s.start) }

// Next returns a fresh global sequence number.
func (s *Sim) Next() int {
	s.Seq++
	return s.Seq
}

// Note folds text into the run's fingerprint and, when tracing, keeps it.
func (s *Sim) Note(format string, args ...interface{}) {
	t := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(t))
	s.fnv = mix(s.fnv ^ h.Sum64())
	if s.DoTrace {
		s.Trace = append(s.Trace, fmt.Sprintf("%10.3fs #%d %s", s.Now().Seconds(), s.Seq, t))
	}
}

// Fingerprint identifies the execution: every scheduling choice and note.
func (s *Sim) Fingerprint() uint64 { return s.fnv }

// Shape identifies the interleaving only.
func (s *Sim) Shape() uint64 { return s.shape }

// New makes a simulation; Run executes it inside a synctest bubble.
func New(sc Sched) *Sim {
	s := &Sim{Sched: sc, rng: NewRng(sc.Seed ^ 0x51ced), nroot: map[string]int{}, MaxStep: 1200000}
	if sc.Strategy == "pct" {
		s.changes = map[int]bool{}
		r := NewRng(sc.Seed ^ 0x9c7)
		for i := 0; i < sc.Depth; i++ {
			s.changes[r.N(3000)] = true
		}
	}
	return s
}

// Spawn starts a root goroutine (a client, an operator, a process's main).
func (s *Sim) Spawn(name string, p *Proc, f func()) *G {
	s.nroot[name]++
	id := name
	if n := s.nroot[name]; n > 1 {
		id = fmt.Sprintf("%s~%d", name, n)
	}
	return s.spawn(id, p, f)
}

func (s *Sim) spawn(id string, p *Proc, f func()) *G {
	s.mu.Lock()
	s.ordinal++
	g := &G{ID: id, Proc: p, sim: s, wake: make(chan struct{}), killc: make(chan struct{}), ordinal: s.ordinal}
	g.rng.s = Hash(s.Sched.Seed, "g", id)
	g.prio = int(g.rng.U64() % 1000003)
	g.arm()
	if p != nil {
		p.gs[g] = true
	}
	s.live++
	s.mu.Unlock()
	go func() {
		setCur(g)
		normal := false
		defer func() {
			if !normal && p != nil && !g.dying {
				if e := recover(); e != nil {
					if _, ok := e.(killed); !ok {
						s.crashed(p, e, debug.Stack())
					}
				}
			} else if !normal && g.dying {
				recover()
			}
			s.mu.Lock()
			if p != nil {
				delete(p.gs, g)
			}
			s.live--
			s.mu.Unlock()
			setCur(nil)
		}()
		g.gate("start", nil, time.Time{})
		f()
		normal = true
	}()
	return g
}

func (s *Sim) crashed(p *Proc, e interface{}, st []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if p.dead || p.Panic != "" {
		return
	}
	p.Panic = fmt.Sprint(e)
	p.Stack = string(st)
	s.pend = append(s.pend, func() { s.Kill(p) })
}

// fatal is a runtime error that nothing can recover from.
func (g *G) fatal(what string) {
	g.sim.crashed(g.Proc, what, debug.Stack())
	g.park("fatal")
}

// Defer runs f in the scheduler before its next step.
func (s *Sim) Defer(f func()) {
	s.mu.Lock()
	s.pend = append(s.pend, f)
	s.mu.Unlock()
}

// NewProc makes a process; Boot starts its main goroutine.
func (s *Sim) NewProc(name string, pid int, args []string) *Proc {
	p := &Proc{Name: name, Pid: pid, Args: args, gs: map[*G]bool{}}
	s.procs = append(s.procs, p)
	return p
}

// Kill ends a process at once: every goroutine of it unwinds without any
// further effect. It must be called from the scheduler (see Defer).
func (s *Sim) Kill(p *Proc) {
	if p.dead {
		return
	}
	p.dead = true
	for {
		var l []*G
		for g := range p.gs {
			if !g.dying {
				l = append(l, g)
			}
		}
		if len(l) == 0 {
			break
		}
		sort.Slice(l, func(i, j int) bool { return l[i].ordinal > l[j].ordinal })
		for _, g := range l {
			s.mu.Lock()
			g.dying = true
			if g.parked {
				s.unpark(g)
			}
			s.mu.Unlock()
			close(g.killc)
			synctest.Wait()
		}
	}
	s.Note("kill %s pid %d", p.Name, p.Pid)
	if s.OnExit != nil {
		s.OnExit(p)
	}
}

// ExitProc is os.Exit.
func ExitProc(code int) {
	g := Cur()
	if g == nil || g.Proc == nil {
		panic("os.Exit outside a simulated process")
	}
	if g.dying {
		runtime.Goexit()
	}
	p := g.Proc
	if p.Exit == nil {
		p.Exit = &code
	}
	g.sim.Defer(func() { g.sim.Kill(p) })
	g.park("exit")
}

// Park blocks the caller for ever (until its process dies).
func (g *G) park(label string) { g.gate(label, func() bool { return false }, time.Time{}) }

// Park blocks the calling goroutine for ever.
func Park(label string) { Cur().park(label) }

func (s *Sim) unpark(g *G) {
	for i, w := range s.waiting {
		if w == g {
			s.waiting = append(s.waiting[:i], s.waiting[i+1:]...)
			break
		}
	}
	g.parked = false
}

// Gate is the scheduling point: the caller waits until the scheduler picks
// it, which can only happen when ready (nil: always) is true or the deadline
// (zero: none) has come. It reports whether ready held.
func (g *G) gate(label string, ready func() bool, dl time.Time) bool {
	return g.gateDyn(label, ready, dl, nil)
}

func (g *G) gateDyn(label string, ready func() bool, dl time.Time, dlf func() time.Time) bool {
	if g.dying {
		runtime.Goexit()
	}
	s := g.sim
	s.mu.Lock()
	g.ready, g.dl, g.dlf, g.label, g.parked = ready, dl, dlf, label, true
	s.waiting = append(s.waiting, g)
	s.mu.Unlock()
	select {
	case <-g.wake:
	case <-g.killc:
	}
	if g.dying {
		runtime.Goexit()
	}
	g.spin = 0
	if label != "preempt" && g.Proc != nil {
		// a goroutine that does something again and again at one
		// instant is busy waiting
		if t := s.Now(); t != g.atT {
			g.atT, g.atN = t, 0
		} else if g.atN++; g.atN > BusyLimit {
			g.livelock("busy at " + label)
		}
	}
	return ready == nil || ready()
}

// BusyLimit is how many operations a goroutine may do at one instant.
const BusyLimit = 30_000

func (g *G) livelock(why string) {
	s := g.sim
	if s.Spin == "" {
		s.Spin = g.ID + " " + why + "\n" + string(debug.Stack())
	}
	p := g.Proc
	if p != nil {
		s.Defer(func() { s.Kill(p) })
	}
	g.atN = 0
	g.park("livelock")
}

// Gate is the scheduling point for the calling goroutine; outside the
// simulation and in dying goroutines it returns at once.
func Gate(label string) {
	g := Cur()
	if g == nil {
		return
	}
	g.gate(label, nil, time.Time{})
}

// GateWhen waits for a condition over simulator-owned state.
func GateWhen(label string, ready func() bool) {
	g := Cur()
	if g == nil {
		if !ready() {
			panic("rt: blocked outside the simulation at " + label)
		}
		return
	}
	g.gate(label, ready, time.Time{})
}

// GateUntil waits for a condition or a deadline; it reports whether the
// condition held.
func GateUntil(label string, ready func() bool, dl time.Time) bool {
	g := Cur()
	if g == nil {
		return ready()
	}
	return g.gate(label, ready, dl)
}

// GateDyn is GateUntil with a deadline that may move while waiting.
func GateDyn(label string, ready func() bool, dlf func() time.Time) bool {
	g := Cur()
	if g == nil {
		return ready()
	}
	return g.gateDyn(label, ready, time.Time{}, dlf)
}

// Sleep is a simulated sleep.
func Sleep(d time.Duration) {
	g := Cur()
	if g == nil {
		return
	}
	if d <= 0 {
		g.gate("sleep0", nil, time.Time{})
		return
	}
	g.gate("sleep", func() bool { return false }, time.Now().Add(d))
}

func (g *G) arm() {
	if g.sim.Sched.Preempt <= 0 {
		g.count = 1 << 62
		return
	}
	// geometric-ish: mixture of short and long gaps
	m := uint64(g.sim.Sched.Preempt)
	n := g.rng.U64() % (2 * m)
	if g.rng.U64()%4 == 0 {
		n %= 8
	}
	g.count = int64(n) + 1
}

// Y is the possible preemption point before each statement.
func Y() {
	g := (*G)(getLabel())
	if g == nil {
		return
	}
	g.count--
	g.spin++
	if g.count > 0 && g.spin < SpinLimit {
		return
	}
	g.slowY()
}

func (g *G) slowY() {
	if g.dying {
		if g.spin >= SpinLimit {
			runtime.Goexit()
		}
		g.arm()
		return
	}
	if g.spin >= SpinLimit {
		g.livelock("")
	}
	g.arm()
	s := g.sim
	if s.Sched.NoPre > 0 && s.Pre >= s.Sched.NoPre {
		return
	}
	if s.Sched.Limit > 0 && s.Steps >= s.Sched.Limit {
		return
	}
	s.Pre++
	g.preempt()
}

// preempt gives way to the others: to whoever is picked next, or to all of
// them for a long while, or even for some time.
func (g *G) preempt() {
	s := g.sim
	if s.Sched.Starve > 0 && int(g.rng.U64()%100) < s.Sched.Starve {
		g.hold = s.Steps + 1 + int(g.rng.U64()%400)
		if g.rng.U64()%5 == 0 && g.Proc != nil && g.Proc.Up {
			g.gate("preempt", func() bool { return false }, time.Now().Add(time.Duration(1+g.rng.U64()%30)*time.Millisecond))
			return
		}
	}
	g.gate("preempt", nil, time.Time{})
}

// Hot is called between the steps of operations on shared data: a likelier
// place for a preemption than others.
func Hot() {
	g := Cur()
	if g == nil || g.dying {
		return
	}
	s := g.sim
	if s.Sched.Starve == 0 || s.Sched.Preempt == 0 || g.rng.U64()%8 != 0 {
		Y()
		return
	}
	if (s.Sched.NoPre > 0 && s.Pre >= s.Sched.NoPre) || (s.Sched.Limit > 0 && s.Steps >= s.Sched.Limit) {
		return
	}
	s.Pre++
	g.preempt()
}

// Go starts a goroutine of the program under test.
func Go(f func()) {
	g := Cur()
	if g == nil {
		panic("rt: go statement outside the simulation")
	}
	if g.dying {
		return
	}
	g.kids++
	g.sim.spawn(fmt.Sprintf("%s.%d", g.ID, g.kids), g.Proc, f)
	g.gate("go", nil, time.Time{})
}

// Run drives the simulation until stop() says so or nothing can happen any
// more. It must be called inside a synctest bubble.
func (s *Sim) Run(stop func() bool, horizon time.Duration) {
	s.start0()
	for {
		synctest.Wait()
		s.mu.Lock()
		pend := s.pend
		s.pend = nil
		s.mu.Unlock()
		if len(pend) > 0 {
			for _, f := range pend {
				f()
			}
			continue
		}
		n := s.ordinal
		if stop() {
			return
		}
		if s.ordinal != n {
			continue // let what was spawned reach its first scheduling point
		}
		if s.Steps >= s.MaxStep {
			s.Trouble = "step cap"
			return
		}
		now := time.Now()
		var el []*G
		var next time.Time
		for _, g := range s.waiting {
			dl := g.dl
			if g.dlf != nil {
				dl = g.dlf()
			}
			if g.ready == nil || g.ready() || (!dl.IsZero() && !now.Before(dl)) {
				el = append(el, g)
			} else if !dl.IsZero() && (next.IsZero() || dl.Before(next)) {
				next = dl
			}
		}
		if len(el) == 0 {
			if next.IsZero() {
				// Perhaps a native timer of the program under
				// test is pending: give simulated time a push.
				next = now.Add(time.Second)
				if s.live == 0 || s.Now() > horizon {
					return
				}
			}
			if next.Sub(s.start) > horizon {
				return
			}
			time.Sleep(next.Sub(now))
			continue
		}
		g := s.pick(el)
		s.Steps++
		if g != s.last {
			s.Switch++
		}
		s.last = g
		s.fnv = mix(s.fnv ^ uint64(g.ordinal)<<20 ^ uint64(len(el)))
		s.shape = mix(s.shape ^ uint64(g.ordinal))
		if s.DoTrace && len(el) > 1 && !strings.HasPrefix(g.label, "start") {
			s.Trace = append(s.Trace, fmt.Sprintf("%10.3fs      run %s at %s (of %d)", s.Now().Seconds(), g.ID, g.label, len(el)))
		}
		s.mu.Lock()
		s.unpark(g)
		s.mu.Unlock()
		g.wake <- struct{}{}
	}
}

func (s *Sim) start0() {
	if s.start.IsZero() {
		s.start = time.Now()
	}
}

// Start marks time zero.
func (s *Sim) Start() { s.start0() }

// Shutdown ends all processes and abandons all other goroutines.
func (s *Sim) Shutdown() {
	for _, p := range s.procs {
		s.OnExit = nil
		s.Kill(p)
	}
	for {
		synctest.Wait()
		s.mu.Lock()
		if len(s.waiting) == 0 {
			s.mu.Unlock()
			return
		}
		g := s.waiting[0]
		g.dying = true
		s.unpark(g)
		s.mu.Unlock()
		close(g.killc)
	}
}

func (s *Sim) pick(el []*G) *G {
	sort.Slice(el, func(i, j int) bool { return el[i].ordinal < el[j].ordinal })
	if len(el) == 1 {
		return el[0]
	}
	if s.Sched.Starve > 0 {
		var free []*G
		for _, g := range el {
			if g.hold <= s.Steps {
				free = append(free, g)
			}
		}
		if len(free) > 0 {
			el = free
		}
	}
	strat := s.Sched.Strategy
	if s.Sched.Limit > 0 && s.Steps >= s.Sched.Limit {
		strat = "first"
	}
	switch strat {
	case "uniform":
		return el[s.rng.N(len(el))]
	case "sticky":
		stay := s.rng.P(s.Sched.Sticky)
		n := s.rng.N(len(el))
		if stay {
			for _, g := range el {
				if g == s.last {
					return g
				}
			}
		}
		return el[n]
	case "pct":
		if s.changes[s.Steps] && s.last != nil {
			s.lowprio--
			s.last.prio = s.lowprio
		}
		best := el[0]
		for _, g := range el[1:] {
			if g.prio > best.prio {
				best = g
			}
		}
		return best
	default:
		// run the current goroutine as long as it can
		for _, g := range el {
			if g == s.last {
				return g
			}
		}
		return el[0]
	}
}

// Epoch is when a bubble's clock starts.
var Epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// Real turns a time the program made from the (stepped) wall clock, with its
// monotonic reading, into the simulator's time.
func Real(t time.Time) time.Time {
	if t.IsZero() {
		return t
	}
	w := (*struct {
		wall uint64
		ext  int64
		loc  unsafe.Pointer
	})(unsafe.Pointer(&t))
	if w.wall&(1<<63) == 0 {
		return t
	}
	return Epoch.Add(time.Duration(w.ext - 1))
}
