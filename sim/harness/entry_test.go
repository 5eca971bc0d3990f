package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

func env(k, d string) string {
	if s := os.Getenv(k); s != "" {
		return s
	}
	return d
}

func envN(k string, d int) int {
	n, err := strconv.Atoi(env(k, ""))
	if err != nil {
		return d
	}
	return n
}

// Outcome is one judged run.
type Outcome struct {
	R   *Result
	St  Stat
	Vio []Violation
}

func doRun(t *testing.T, p *Plan, trace bool) *Outcome {
	pr := Profiles[p.Prop]
	var cr []func(*Result, bool)
	if pr.Crash != nil {
		cr = append(cr, pr.Crash)
	}
	r := Run(t, p, trace, cr...)
	o := &Outcome{R: r, St: Stat{}}
	o.Vio = append(o.Vio, r.Early...)
	if r.S.Trouble == "" {
		o.Vio = append(o.Vio, pr.Judge(r, o.St)...)
	}
	return o
}

// Found is a failing run.
type Found struct {
	Seed uint64      `json:"seed"`
	Plan *Plan       `json:"plan"`
	Vio  []Violation `json:"violations"`
	FP   string      `json:"fingerprint"`
}

// Report is a worker's output.
type Report struct {
	Prop     string            `json:"prop"`
	Runs     int               `json:"runs"`
	SimSec   float64           `json:"sim_seconds"`
	Steps    int               `json:"steps"`
	Switches int               `json:"switches"`
	Preempt  int               `json:"preemptions"`
	Fired    map[string]int    `json:"fired"`
	Stat     map[string]int    `json:"stat"`
	Shapes   []string          `json:"shapes"`
	Trouble  map[string]int    `json:"trouble"`
	Found    []*Found          `json:"found"`
	Samples  []string          `json:"samples"`
	WallS    float64           `json:"wall_s"`
	Extra    map[string]string `json:"extra,omitempty"`
}

func TestSim(t *testing.T) {
	switch env("VSIM_MODE", "") {
	case "":
		t.Skip("no mode")
	case "search":
		search(t)
	case "replay":
		replay(t)
	case "det":
		det(t)
	case "detlist":
		detlist(t)
	case "plan":
		n, _ := strconv.ParseUint(env("VSIM_SEED", ""), 10, 64)
		p := MakePlan(env("VSIM_PROP", ""), n)
		write(env("VSIM_OUT", "/dev/stdout"), &Replay{Property: p.Prop, Seed: n, Plan: p})
	case "min":
		minimiseFile(t)
	}
}

func search(t *testing.T) {
	prop := env("VSIM_PROP", "")
	from, to := envN("VSIM_FROM", 1), envN("VSIM_TO", 1<<40)
	step := envN("VSIM_STEP", 1)
	dl := time.Now().Add(time.Duration(envN("VSIM_TIME", 10)) * time.Second)
	maxf := envN("VSIM_MAXFOUND", 1)
	rep := &Report{Prop: prop, Fired: map[string]int{}, Stat: map[string]int{}, Trouble: map[string]int{}}
	shapes := map[uint64]bool{}
	t0 := time.Now()
	minRuns := envN("VSIM_MINRUNS", 0)
	cap := time.Now().Add(time.Duration(envN("VSIM_CAP", 240)) * time.Second)
	var prog *os.File
	if f := env("VSIM_PROGRESS", ""); f != "" {
		prog, _ = os.Create(f)
	}
	for s := from; s < to && (time.Now().Before(dl) || rep.Runs < minRuns && time.Now().Before(cap)); s += step {
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%020d\n", s)), 0)
		}
		p := MakePlan(prop, uint64(s))
		o := doRun(t, p, false)
		rep.Runs++
		rep.SimSec += o.R.EndT.Seconds()
		rep.Steps += o.R.S.Steps
		rep.Switches += o.R.S.Switch
		rep.Preempt += o.R.S.Pre
		for k, n := range o.R.W.Fired {
			rep.Fired[k] += n
		}
		for k, n := range o.St {
			rep.Stat[k] += n
		}
		if o.R.S.Trouble != "" {
			rep.Trouble[o.R.S.Trouble]++
		}
		if o.St["nontrivial"] > 0 {
			shapes[o.R.S.Shape()] = true
			if len(rep.Samples) < 2 {
				rep.Samples = append(rep.Samples, describe(p, o))
			}
		}
		if len(o.Vio) > 0 {
			rep.Found = append(rep.Found, &Found{uint64(s), p, o.Vio, fmt.Sprintf("%016x", o.R.S.Fingerprint())})
			if len(rep.Found) >= maxf {
				break
			}
		}
	}
	for k := range shapes {
		rep.Shapes = append(rep.Shapes, fmt.Sprintf("%016x", k))
	}
	rep.WallS = time.Since(t0).Seconds()
	write(env("VSIM_OUT", "/dev/stdout"), rep)
}

// describe tells a run in a few lines.
func describe(p *Plan, o *Outcome) string {
	var b strings.Builder
	fmt.Fprintf(&b, "seed %d: %s", p.Seed, strings.Join(p.Flags.Args(p.Listen), " "))
	fmt.Fprintf(&b, "; schedule %s preempt %d, %d scheduling choices, %d switches; simulated %v", p.Sched.Strategy, p.Sched.Preempt, o.R.S.Steps, o.R.S.Switch, o.R.EndT)
	for _, f := range p.Faults {
		fmt.Fprintf(&b, "; fault %s %s#%d+%d %s%s", f.Op, f.Match, f.Nth, f.Count, f.Err, f.Crash)
	}
	for _, x := range p.Ops {
		fmt.Fprintf(&b, "; at %dms %s %s", x.At, x.K, x.Path)
	}
	n := 0
	for _, s := range o.R.W.Sess {
		if n++; n > 4 {
			break
		}
		fmt.Fprintf(&b, "; %s:", s.Raddr)
		for i, st := range s.Steps {
			if i > 8 {
				break
			}
			fmt.Fprintf(&b, " %s%s=%d", st.Cmd, map[bool]string{true: "!"}[st.What == "GOTDATA"], st.Code)
		}
	}
	return b.String()
}

func write(path string, x interface{}) {
	b, err := json.MarshalIndent(x, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		panic(err)
	}
}

// Replay is a replay file.
type Replay struct {
	Property  string      `json:"property"`
	Seed      uint64      `json:"seed"`
	Vio       []Violation `json:"violations"`
	FP        string      `json:"fingerprint"`
	Plan      *Plan       `json:"plan"`
	Trace     []string    `json:"trace,omitempty"`
	Minimised string      `json:"minimised,omitempty"`
}

func replay(t *testing.T) {
	b, err := os.ReadFile(env("VSIM_FILE", ""))
	if err != nil {
		t.Fatal(err)
	}
	var rp Replay
	if s := env("VSIM_SEED", ""); s != "" {
		n, _ := strconv.ParseUint(s, 10, 64)
		rp.Plan = MakePlan(env("VSIM_PROP", ""), n)
	} else if err := json.Unmarshal(b, &rp); err != nil {
		t.Fatal(err)
	}
	o := doRun(t, rp.Plan, env("VSIM_TRACE", "") != "")
	rp.Vio = o.Vio
	rp.FP = fmt.Sprintf("%016x", o.R.S.Fingerprint())
	rp.Property = rp.Plan.Prop
	rp.Trace = o.R.S.Trace
	write(env("VSIM_OUT", "/dev/stdout"), &rp)
}

// det runs seeds twice and compares fingerprints.
func det(t *testing.T) {
	prop := env("VSIM_PROP", "")
	from, to := envN("VSIM_FROM", 1), envN("VSIM_TO", 50)
	bad, n := 0, 0
	for s := from; s < to; s++ {
		a := doRun(t, MakePlan(prop, uint64(s)), false)
		b := doRun(t, MakePlan(prop, uint64(s)), false)
		n++
		if a.R.S.Fingerprint() != b.R.S.Fingerprint() {
			bad++
			fmt.Printf("seed %d differs\n", s)
		}
	}
	fmt.Printf("det %s: %d seeds, %d differ\n", prop, n, bad)
	if bad > 0 {
		t.Fail()
	}
}

// detlist writes the fingerprints of some seeds.
func detlist(t *testing.T) {
	prop := env("VSIM_PROP", "")
	var l []string
	for i := 0; i < envN("VSIM_N", 10); i++ {
		tr := env("VSIM_TRACE", "") != ""
		o := doRun(t, MakePlan(prop, uint64(envN("VSIM_FROM", 1)+i)), tr)
		l = append(l, fmt.Sprintf("%016x", o.R.S.Fingerprint())+strings.Join(o.R.S.Trace, "\x00"))
	}
	write(env("VSIM_OUT", "/dev/stdout"), l)
}
