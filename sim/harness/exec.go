package harness

import (
	"bufio"
	"flag"
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"vsim/rt"
	expvar "vsim/shim/expvar"
	simlog "vsim/shim/log"
	"vsim/world"
	"vsut"
)

// Reply is what a client received for one of its actions.
type Reply struct {
	Act   int
	Code  int
	Lines []string
	Seq   int
	T     time.Duration
}

// View is a client's view of one connection.
type View struct {
	Client  string
	Conn    *Connection
	Sess    *world.Session
	Greet   *Reply
	Replies []Reply
	Err     string
	Done    bool
	EndSeq  int
	TEnd    time.Duration
	Late    bool
}

// Boot is one life of the daemon.
type Boot struct {
	Proc     *rt.Proc
	Seq      int
	ReadySeq int
	EndSeq   int
	BaseG    []string
	BaseFD   []string
	EndG     []string // at the end of the run, if it is still up
	EndFD    []string
	ErrFrom  int // where its stderr output starts
}

// Result is the history of a run.
type Result struct {
	P      *Plan
	W      *world.World
	S      *rt.Sim
	Boots  []*Boot
	Views  []*View
	Base   time.Time
	EndSeq int
	EndT   time.Duration
	// Settled is true when every connection was closed at the end.
	Settled bool
	ZoneSeq int                   // when Zone2 came into force
	Open    []string              // connections open at the end
	Checks  []func(*Result, bool) // run after each crash
	Early   []Violation           // found while running
	Stalled string
	Reads   []*StatRead // looks at the monitoring counters
}

// Violation is one property violation.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func (r *Result) bad(class, format string, args ...interface{}) {
	r.Early = append(r.Early, Violation{class, fmt.Sprintf(format, args...)})
}

type exec struct {
	r       *Result
	p       *Plan
	s       *rt.Sim
	w       *world.World
	cur     *Boot
	nboot   int
	active  int
	ops     int
	ending  bool
	noMore  bool
	endedAt time.Duration
	phase   int
	final   *StatRead
}

// MaxBoots caps restarts.
const MaxBoots = 30

func (x *exec) boot() {
	if x.nboot >= MaxBoots || x.noMore {
		return
	}
	x.nboot++
	p := x.p
	args := p.Flags.Args(p.Listen)
	pid := 1000 + 7*x.nboot
	if p.SamePid {
		pid = 1007
	}
	proc := x.s.NewProc("sinksmtp", pid, args)
	b := &Boot{Proc: proc, Seq: x.s.Next(), ErrFrom: len(x.w.Stderr)}
	x.cur = b
	x.r.Boots = append(x.r.Boots, b)
	x.w.Log("boot", "", "", proc.Pid)
	x.s.Spawn("daemon", proc, func() {
		world.BootOS(args)
		os.Args = args
		flag.CommandLine = flag.NewFlagSet(args[0], flag.PanicOnError)
		flag.CommandLine.SetOutput(io.Discard)
		expvar.Reset()
		simlog.Reset()
		vsut.ResetGlobals()
		vsut.SimMain()
		rt.ExitProc(0)
	})
	x.s.Spawn("watch", nil, func() {
		for !proc.Dead() {
			all := true
			for _, l := range p.Listen {
				if strings.HasPrefix(l, "bad") || !x.w.Net.Listening(probeAddr(l)) {
					all = false
				}
			}
			if all {
				break
			}
			rt.Sleep(10 * time.Millisecond)
		}
		rt.Sleep(time.Millisecond)
		if proc.Dead() {
			return
		}
		b.BaseG = strip(proc.GIDs())
		b.BaseFD = x.w.FS.OpenFDs()
		b.ReadySeq = x.s.Next()
		proc.Up = true
	})
}

func strip(l []string) []string {
	var o []string
	for _, s := range l {
		if i := strings.IndexByte(s, '@'); i >= 0 {
			s = s[i+1:]
		}
		o = append(o, s)
	}
	sort.Strings(o)
	return o
}

func probeAddr(l string) string {
	if strings.HasPrefix(l, ":") {
		return "127.0.0.1" + l
	}
	return l
}

// Run executes a plan.
func Run(t *testing.T, p *Plan, trace bool, checks ...func(*Result, bool)) *Result {
	var r *Result
	synctest.Test(t, func(t *testing.T) {
		r = run(p, trace, checks)
	})
	return r
}

func run(p *Plan, trace bool, checks []func(*Result, bool)) *Result {
	s := rt.New(p.Sched)
	s.DoTrace = trace
	for _, c := range p.Clients {
		s.MaxStep += 300 * len(c.Conns)
	}
	rt.S = s
	w := world.New(s, p.Seed)
	world.W = w
	s.Start()
	r := &Result{P: p, W: w, S: s, Base: time.Now(), Checks: checks}
	x := &exec{r: r, p: p, s: s, w: w}
	w.DNS.Zone = p.Zone
	w.FS.DirMode = p.DirMode
	w.FS.MaxFD = p.MaxFD
	if p.MaxFD == 0 {
		w.FS.MaxFD = 1024
	}
	for _, f := range p.Faults {
		c := *f
		w.Faults = append(w.Faults, &c)
	}
	for i := range p.Files {
		f := &p.Files[i]
		if f.Dir {
			w.FS.Mkdir(f.Path)
		} else {
			w.FS.Put(f.Path, f.text())
		}
	}
	w.OnCrash = func(power bool) {
		for _, c := range checks {
			c(r, power)
		}
	}
	s.OnExit = func(pr *rt.Proc) {
		w.FS.DropProc(pr)
		w.Net.DropProc(pr)
		for _, b := range r.Boots {
			if b.Proc == pr {
				b.EndSeq = s.Next()
			}
		}
		w.Log("exit", pr.Panic, "", pr.Pid)
		d := p.Reboot
		if d == 0 {
			d = 500
		}
		if p.NoBoot {
			return
		}
		s.Spawn("reboot", nil, func() {
			rt.Sleep(ms(d))
			x.boot()
		})
	}
	x.boot()
	if len(p.Ops) > 0 {
		x.ops++
		s.Spawn("operator", nil, x.operator)
	}
	for i := range p.Clients {
		x.client(&p.Clients[i], false)
	}
	settle := time.Duration(0)
	stop := func() bool {
		if x.active > 0 || x.ops > 0 {
			return false
		}
		if x.phase == 0 {
			if p.Zone2 != nil {
				// only once nothing of before is still under way
				if settle == 0 {
					settle = s.Now()
				}
				if b := x.cur; s.Now() < settle+2*time.Hour && (len(w.Net.OpenConns()) > 0 || b != nil && !b.Proc.Dead() && b.Proc.NumG() > len(b.BaseG)) {
					return false
				}
				settle = 0
				w.DNS.Zone = *p.Zone2
				r.ZoneSeq = s.Next()
			}
			x.phase = 1
			if p.Calm {
				w.Faults = nil
				w.FS.MaxFD = 1024
				w.DNS.Zone.Slow = nil
			}
			for i := range p.Late {
				x.client(&p.Late[i], true)
			}
			if x.active > 0 {
				return false
			}
		}
		if settle == 0 {
			settle = s.Now()
			if p.NoBoot {
				settle -= 30 * time.Minute
			}
		}
		if p.NoBoot && s.Now() < 5*time.Second && x.cur != nil && !x.cur.Proc.Dead() {
			return false
		}
		idle := len(w.Net.OpenConns()) == 0
		if idle && x.endedAt == 0 {
			x.endedAt = s.Now()
		}
		if !idle {
			x.endedAt = 0
		}
		if x.endedAt != 0 && s.Now() >= x.endedAt+2*time.Second {
			r.Settled = true
			if p.Calm && x.cur != nil && !x.cur.Proc.Dead() && x.cur.Proc.NumG() > len(x.cur.BaseG) && s.Now() < x.endedAt+time.Hour {
				return false // give stragglers time
			}
			if p.Stats && x.final == nil && x.cur != nil && !x.cur.Proc.Dead() {
				x.final = x.readStats()
				return false
			}
			if x.final != nil && !x.final.Done && s.Now() < x.endedAt+time.Minute {
				return false
			}
			return true
		}
		if p.Calm {
			return s.Now() > settle+3*time.Hour
		}
		return s.Now() > settle+40*time.Minute
	}
	s.Run(stop, 400*24*time.Hour)
	r.EndSeq, r.EndT = s.Next(), s.Now()
	for _, c := range w.Net.OpenConns() {
		r.Open = append(r.Open, c.RemoteAddr().String())
	}
	x.noMore = true
	if b := x.cur; b != nil && !b.Proc.Dead() {
		b.EndG = strip(b.Proc.GIDs())
		b.EndFD = w.FS.OpenFDs()
	}
	if p.EndPow && x.cur != nil {
		w.Crash(x.cur.Proc, true)
	}
	s.Note("stderr %s", w.Stderr)
	s.Note("stdout %s", w.Stdout)
	s.Shutdown()
	return r
}

func (x *exec) operator() {
	for x.cur.ReadySeq == 0 && !x.cur.Proc.Dead() && x.s.Now() < 20*time.Second {
		rt.Sleep(time.Millisecond)
	}
	t0 := x.s.Now()
	for i := range x.p.Ops {
		o := &x.p.Ops[i]
		if d := ms(o.At) - (x.s.Now() - t0); d > 0 {
			rt.Sleep(d)
		}
		rt.Gate("op")
		x.w.Log("op", o.K, o.Path, i)
		switch o.K {
		case "put":
			x.w.FS.Put2(o.Path, o.text(), o.Keep)
		case "del":
			x.w.FS.Del(o.Path)
		case "skew":
			x.s.Skew += time.Duration(o.N) * time.Second
			x.w.Fired["clock:step"]++
		case "stats":
			x.readStats()
		case "crash", "power":
			pow := o.K == "power"
			x.s.Defer(func() { x.w.Crash(x.cur.Proc, pow) })
			rt.Gate("crashed")
		}
	}
	x.ops--
}

func (x *exec) client(c *Client, late bool) {
	x.active++
	x.s.Spawn("client-"+c.Name, nil, func() {
		for i := range c.Conns {
			x.conn(c, &c.Conns[i], late)
		}
		x.active--
	})
}

func (x *exec) conn(c *Client, cn *Connection, late bool) {
	v := &View{Client: c.Name, Conn: cn, Late: late}
	x.r.Views = append(x.r.Views, v)
	defer func() {
		v.EndSeq, v.TEnd = x.s.Next(), x.s.Now()
	}()
	if cn.Wait > 0 {
		rt.Sleep(ms(cn.Wait))
	}
	dl := x.s.Now() + 60*time.Second
	var nc *world.Conn
	for {
		if (x.cur.ReadySeq != 0 || x.p.Eager) && !x.cur.Proc.Dead() {
			var err error
			nc, err = x.w.Net.Dial(cn.From, cn.To)
			if err == nil {
				break
			}
		}
		if x.s.Now() > dl || x.noMore || (x.p.NoBoot && x.cur.Proc.Dead()) {
			v.Err = "cannot connect"
			return
		}
		rt.Sleep(37 * time.Millisecond)
	}
	v.Sess = nc.Sess
	rd := bufio.NewReader(nc)
	read := func(act int) *Reply {
		nc.SetReadDeadline(time.Now().Add(15 * time.Minute))
		rp := &Reply{Act: act}
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				v.Err = err.Error()
				return nil
			}
			l = strings.TrimRight(l, "\r\n")
			if len(l) < 4 {
				v.Err = "short reply " + l
				return nil
			}
			rp.Code, _ = strconv.Atoi(l[:3])
			rp.Lines = append(rp.Lines, l[4:])
			if l[3] == ' ' {
				break
			}
		}
		rp.Seq, rp.T = x.s.Next(), x.s.Now()
		x.s.Note("client %s got %d %v", c.Name, rp.Code, rp.Lines)
		return rp
	}
	send := func(s string) bool {
		nc.SetWriteDeadline(time.Now().Add(15 * time.Minute))
		if _, err := nc.Write(raw(s)); err != nil {
			v.Err = err.Error()
			return false
		}
		return true
	}
	vanish := false
	defer func() {
		if !vanish {
			nc.Close()
		}
	}()
	first := true
	last := 0
	greet := func() bool {
		if !first {
			return true
		}
		first = false
		v.Greet = read(-1)
		return v.Greet != nil
	}
	for i := range cn.Acts {
		a := &cn.Acts[i]
		switch a.K {
		case "sleep":
			rt.Sleep(ms(a.N))
			continue
		case "close":
			v.Done = true
			return
		case "reset":
			v.Done = true
			nc.Reset()
			return
		case "vanish": // the machine goes away: no FIN, no RST
			v.Done = true
			vanish = true
			return
		case "blind": // send without reading anything
			if !send(a.T) {
				return
			}
			continue
		}
		if !greet() {
			return
		}
		switch a.K {
		case "cmd":
			if !send(a.T + "\r\n") {
				return
			}
			rp := read(i)
			if rp == nil {
				return
			}
			last = rp.Code
			v.Replies = append(v.Replies, *rp)
		case "msg":
			if last != 354 {
				continue
			}
			if !send(dot(a.T)) {
				return
			}
			rp := read(i)
			if rp == nil {
				return
			}
			last = rp.Code
			v.Replies = append(v.Replies, *rp)
		case "pipe": // several commands in one write, N replies
			if !send(a.T) {
				return
			}
			for k := 0; k < a.N; k++ {
				rp := read(i)
				if rp == nil {
					return
				}
				last = rp.Code
				v.Replies = append(v.Replies, *rp)
			}
		case "tls":
			if !send("STARTTLS\r\n") {
				return
			}
			rp := read(i)
			if rp == nil {
				return
			}
			v.Replies = append(v.Replies, *rp)
			if rp.Code != 220 {
				continue
			}
			if a.N > 0 {
				rt.Sleep(ms(a.N))
			}
			if !send(a.T + "\r\n") {
				return
			}
		}
	}
	greet()
	v.Done = true
}

// raw turns text into bytes: plans hold bytes as the characters U+0000 to
// U+00FF, so that replay files are faithful.
func raw(s string) []byte {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return b
}

// dot renders a message for the wire.
func dot(m string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(m, "\n") {
		if l == "" {
			continue
		}
		if l[0] == '.' {
			b.WriteByte('.')
		}
		b.WriteString(strings.TrimSuffix(l, "\n"))
		b.WriteString("\r\n")
	}
	b.WriteString(".\r\n")
	return b.String()
}
