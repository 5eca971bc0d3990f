package harness

import (
	"crypto/tls"
	"fmt"
	"net"
	"regexp"
	"sort"
	"strings"
	"time"

	"vsim/world"
)

// C10 and C11: what the daemon remembers about client addresses. The
// memory itself is not visible; what each connection met is. The oracle
// looks for an order of the remembered facts, each within the window in
// which it must have been recorded, that explains everything every
// connection from the address met.

type memOp struct {
	lo, hi int // sequence window
	t0, t1 time.Duration
	what   string   // lookup, rset, end
	kinds  []string // what may have happened: add, del, set, none
	opt    bool     // may not have happened at all (the daemon died)
	label  string
	// observations
	hit   bool // lookup: stalled
	drop  bool // rset: the client was thrown out
	said  string
	level int // tls lookup: 0, 1, 2 failures; -1 unknown (offered, no way to tell)
}

type memState struct {
	have   bool
	n      int
	w0, w1 time.Duration
}

type memSearch struct {
	ops   []*memOp
	ttl   time.Duration
	limit int
	tls   bool
	seen  map[string]bool
	steps int
	best  int
	stuck string
	noObs bool // do not use log lines as observations
}

// live returns which of (live, expired) are possible.
func (m *memSearch) live(s memState, o *memOp) (live, exp bool) {
	if !s.have {
		return false, false
	}
	lo, hi := o.t0-s.w1, o.t1-s.w0
	return lo < m.ttl, hi >= m.ttl
}

// apply returns the possible states after an operation.
func (m *memSearch) apply(s memState, o *memOp) []memState {
	var out []memState
	live, exp := m.live(s, o)
	now := func(n int) memState { return memState{true, n, o.t0, o.t1} }
	switch o.what {
	case "lookup":
		check := func(n int) bool {
			if m.tls {
				switch o.level {
				case 0:
					return n == 0
				case 1:
					return n == 1
				case 2:
					return n >= 2
				case 9: // offered, client certificates not judged
					return n < 2
				}
				return true
			}
			return o.hit == (m.limit > 0 && n >= m.limit && n > 0)
		}
		if !s.have && check(0) {
			out = append(out, s)
		}
		if live && check(s.n) {
			out = append(out, s)
		}
		if exp && check(0) {
			out = append(out, memState{})
		}
		return out
	}
	for _, k := range o.kinds {
		add := func(n int) {
			switch {
			case o.what == "rset" && o.drop != (n > m.limit):
			case o.what == "end" && !m.noObs && (o.said == "added") != (n == m.limit):
			default:
				out = append(out, now(n))
			}
		}
		set := func(old int) {
			if !m.noObs && (o.said == "force-set") != (old != m.limit) {
				return
			}
			out = append(out, now(m.limit))
		}
		switch k {
		case "none":
			if o.said == "" || m.noObs {
				out = append(out, s)
			}
		case "del":
			if o.said == "" || m.noObs {
				out = append(out, memState{})
			}
		case "add":
			if !s.have || exp {
				add(1)
			}
			if live {
				add(s.n + 1)
			}
		case "set":
			if !s.have || exp {
				set(0)
			}
			if live {
				set(s.n)
			}
		}
	}
	return out
}

func (m *memSearch) run(done uint64, nd int, s memState) bool {
	if nd == len(m.ops) {
		return true
	}
	k := fmt.Sprint(done, s)
	if m.seen[k] {
		return false
	}
	m.seen[k] = true
	m.steps++
	if m.steps > 40000 {
		return true // give up: no verdict
	}
	if nd >= m.best {
		m.best = nd
	}
	// an operation may come next if no pending one must precede it
	min := 1 << 60
	for i, o := range m.ops {
		if done&(1<<i) == 0 && o.hi < min {
			min = o.hi
		}
	}
	for i, o := range m.ops {
		if done&(1<<i) != 0 || o.lo > min {
			continue
		}
		ss := m.apply(s, o)
		if o.opt {
			ss = append(ss, s)
		}
		if len(ss) == 0 && nd >= m.best {
			m.best = nd
			m.stuck = fmt.Sprintf("%s at %v cannot be explained (remembered then: %v, count %d)", o.label, o.t0, s.have, s.n)
		}
		for _, n := range ss {
			if m.run(done|1<<i, nd+1, n) {
				return true
			}
		}
	}
	return false
}

func explain(ops []*memOp, ttl time.Duration, limit int, tls, noObs bool) (ok, gaveUp bool, why string) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].lo < ops[j].lo })
	if len(ops) > 60 {
		return true, true, ""
	}
	m := &memSearch{ops: ops, ttl: ttl, limit: limit, tls: tls, seen: map[string]bool{}, noObs: noObs}
	ok = m.run(0, 0, memState{})
	return ok, m.steps > 40000, m.stuck
}

var dnRe = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \[(\d+/\d+)\] (\S+) (\S+) -> (\S+)$`)
var prefRe = regexp.MustCompile(`^(\d+/\d+)# remote (\S+) at `)
var slogRe = regexp.MustCompile(`^(\d+/\d+)([#!rw-] .*|[#!rw-])$`)

// prefixes maps the daemon's session IDs to client addresses, from the log.
func prefixes(r *Result) map[string]string {
	m := map[string]string{}
	txt, _ := r.W.FS.Get(r.P.Flags.Smtplog)
	for _, l := range strings.Split(txt, "\n") {
		if f := prefRe.FindStringSubmatch(l); f != nil {
			m[f[1]] = f[2]
		}
	}
	return m
}

func judgeC10(r *Result, st Stat) []Violation {
	vs := crashed(r)
	f := &r.P.Flags
	m := NewModel(r)
	dn := f.DnCount
	ttl := time.Duration(f.DnDur) * time.Second
	if f.DnDur == 0 {
		ttl = 8 * time.Hour
	}
	minph := f.MinPhase
	if minph == "" || minph == "ehlo" {
		minph = "helo"
	}
	stalled := func(s *world.Session) bool { return !s.HasLog }
	rsetDrop := func(s *world.Session, i int) bool { return dn > 0 && s.HasLog && i == len(s.Steps)-1 }
	opt := JudgeOpt{Stalled: stalled, RsetDrop: rsetDrop, NoMsg: true, All: true,
		SaveFault: func(x *world.Step) bool { return storageFault(r, x.Seq0, x.Seq1) }}

	said := map[string]string{}
	conns := map[string]int{}
	if f.Dnlog != "" {
		pre := prefixes(r)
		txt, _ := r.W.FS.Get(f.Dnlog)
		for _, l := range strings.Split(strings.TrimSuffix(txt, "\n"), "\n") {
			if l == "" {
				continue
			}
			x := dnRe.FindStringSubmatch(l)
			if x == nil {
				vs = append(vs, v("dnlog", "do-nothing log line %q is malformed", l))
				continue
			}
			pid := strings.SplitN(x[1], "/", 2)[0]
			switch x[2] {
			case "connection":
				conns[pid+" "+x[3]]++
			default:
				if ra := pre[x[1]]; ra != "" {
					said[ra] = x[2]
				}
			}
		}
	}

	type key struct {
		pid int
		ip  string
	}
	ops := map[key][]*memOp{}
	skip := map[key]bool{}
	stalls := map[string]int{}
	var order []key
	for _, s := range r.W.Sess {
		if s.AcceptSeq == 0 || s.NewSeq == 0 {
			if s.AcceptSeq != 0 && s.Died {
				continue
			}
			continue
		}
		ip := sessIP(s)
		k := key{s.Pid, ip}
		if ops[k] == nil {
			order = append(order, k)
		}
		st.add("sessions", 1)
		lab := func(w string) string { return fmt.Sprintf("%s of %s", w, s.Raddr) }
		lk := &memOp{lo: s.AcceptSeq, hi: s.NewSeq, t0: s.TAccept, t1: s.TNew, what: "lookup", hit: !s.HasLog, label: lab("stalled connection")}
		if s.HasLog {
			lk.label = lab("normally served connection")
		} else {
			st.add("stalled", 1)
			stalls[fmt.Sprintf("%d %s", s.Pid, ip)]++
			if f.S == false && s.Delay != 100*time.Millisecond {
				vs = append(vs, v("stall-speed", "the stalled connection %s is not slow (delay %v)", s.Raddr, s.Delay))
			}
		}
		if s.HasLog && !f.S && s.Delay != 0 {
			vs = append(vs, v("stall-speed", "the ordinary connection %s is slow (delay %v)", s.Raddr, s.Delay))
		}
		if f.S && s.Delay != 100*time.Millisecond {
			vs = append(vs, v("stall-speed", "-S is set but connection %s has delay %v", s.Raddr, s.Delay))
		}
		ops[k] = append(ops[k], lk)

		// what the session did, for every explanation of it
		endKinds := map[string]bool{}
		var firstRsets []*memOp
		nexp := 0
		o2 := opt
		o2.Each = func(j *Judged) {
			nexp++
			kinds, rsets, open := yakOps(r, s, j, dn, minph)
			if nexp == 1 {
				firstRsets = rsets
			} else if len(rsets) != len(firstRsets) {
				skip[k] = true
			}
			if open {
				skip[k] = true
			}
			for _, x := range kinds {
				endKinds[x] = true
			}
		}
		j := m.Judge(s, o2)
		if j.Unsure || j.Part {
			skip[k] = true
			st.add("unsure", 1)
			continue
		}
		if !j.OK {
			vs = append(vs, v("verdict", "session %d from %s: %s", s.ID, s.Raddr, j.Why))
			skip[k] = true
			continue
		}
		if dn == 0 {
			continue
		}
		ops[k] = append(ops[k], firstRsets...)
		st.add("rset-adds", len(firstRsets))
		e := endWindow(r, s)
		if e == nil {
			continue
		}
		for x := range endKinds {
			e.kinds = append(e.kinds, x)
		}
		sort.Strings(e.kinds)
		if len(e.kinds) == 1 && e.kinds[0] == "none" && f.Dnlog == "" {
			continue
		}
		e.label = lab("end (" + strings.Join(e.kinds, " or ") + ")")
		e.said = said[s.Raddr]
		st.add("end:"+strings.Join(e.kinds, "|"), 1)
		ops[k] = append(ops[k], e)
	}
	for _, k := range order {
		if skip[k] {
			st.add("skipped", 1)
			continue
		}
		st.add("addresses", 1)
		ok, gave, why := explain(ops[k], ttl, dn, false, f.Dnlog == "")
		if gave {
			st.add("gave-up", 1)
		}
		if !ok {
			vs = append(vs, v("memory", "client %s (process %d, -dncount %d -dndur %v -minphase %s): no order of events explains who was stalled: %s", k.ip, k.pid, dn, ttl, minph, why))
		}
	}
	if f.Dnlog != "" {
		for _, k := range order {
			n := fmt.Sprintf("%d %s", k.pid, k.ip)
			if conns[n] != stalls[n] && !anyDied(r, k.pid) {
				vs = append(vs, v("dnlog", "client %s was stalled %d times, the do-nothing log has %d connection lines", k.ip, stalls[n], conns[n]))
			}
		}
	}
	if st["stalled"] > 0 || st["rset-adds"] > 0 {
		st.add("nontrivial", 1)
	}
	return limit(vs)
}

func anyDied(r *Result, pid int) bool {
	for _, s := range r.W.Sess {
		if s.Pid == pid && s.Died {
			return true
		}
	}
	return false
}

func sessIP(s *world.Session) string {
	i := strings.LastIndexByte(s.Raddr, ':')
	return strings.Trim(s.Raddr[:i], "[]")
}

// endWindow is when the session's outcome must have been recorded.
func endWindow(r *Result, s *world.Session) *memOp {
	if len(s.Steps) == 0 {
		return nil
	}
	l := s.Steps[len(s.Steps)-1]
	e := &memOp{lo: l.Seq0, hi: s.CloseSeq, t0: l.T0, t1: s.TClose, what: "end"}
	if s.CloseSeq == 0 {
		e.opt = true
		e.hi, e.t1 = r.EndSeq, r.EndT
		for _, b := range r.Boots {
			if b.Proc.Pid == s.Pid && b.EndSeq != 0 {
				e.hi = b.EndSeq
			}
		}
	}
	return e
}

// yakOps derives what a session does to its client's record.
func yakOps(r *Result, s *world.Session, j *Judged, dn int, minph string) (kinds []string, rsets []*memOp, open bool) {
	got, maybe := false, false
	counts := j.Good && dn > 0 && s.HasLog
	yak, mayYak := false, false
	if _, ok := j.Conn["make-yakker"]; ok {
		yak = true
	}
	if j.Dropped {
		if yak {
			return []string{"none", "set"}, nil, false
		}
		return []string{"none"}, nil, false
	}
	from := ""
	for i, x := range s.Steps {
		act := ""
		if i < len(j.Exps) {
			act = j.Exps[i].Act
			if _, ok := j.Exps[i].Props["make-yakker"]; ok {
				if x.What == "GOTDATA" && x.Code/100 == 4 && storageFault(r, x.Seq0, x.Seq1) {
					mayYak = true // the rules may not have been asked
				} else {
					yak = true
				}
			}
		}
		good := x.Code/100 == 2 || x.Code/100 == 3
		switch {
		case x.What == "TLSERROR":
			counts = false
		case x.What == "GOTDATA":
			if minph == "message" {
				got = true
			}
			if good && minph == "accepted" {
				got = true
			}
			if x.Code/100 == 4 && storageFault(r, x.Seq0, x.Seq1) {
				if act != "stall" && act != "" {
					got = true
				} else {
					maybe = true
				}
			}
		case x.What == "COMMAND":
			switch x.Cmd {
			case "EHLO", "HELO":
				if good {
					from = ""
					if minph == "helo" {
						got = true
					}
				}
			case "MAIL FROM":
				drop := act == "rsetdrop"
				if (good || drop) && from != "" && !got && counts {
					if maybe {
						// whether this one counted is open
						open = true
					}
					t1, h1 := x.T1, x.Seq1
					if h1 == 0 {
						h1, t1 = r.EndSeq, r.EndT
					}
					rsets = append(rsets, &memOp{lo: x.Seq0, hi: h1, t0: x.T0, t1: t1, what: "rset", kinds: []string{"add"}, drop: drop,
						label: fmt.Sprintf("MAIL FROM after RSET of %s (thrown out: %v)", s.Raddr, drop)})
				}
				if drop {
					if yak || mayYak {
						return []string{"none", "set"}, rsets, open
					}
					return []string{"none"}, rsets, open
				}
				if good {
					from = x.Arg
					if minph == "from" {
						got = true
					}
				}
			case "RCPT TO":
				if good && minph == "to" {
					got = true
				}
			case "DATA":
				if good && minph == "data" {
					got = true
				}
			}
		}
	}
	switch {
	case yak && s.HasLog:
		kinds = []string{"set"}
	case maybe && !got:
		kinds = []string{"del"}
		if counts {
			kinds = append(kinds, "add")
		} else {
			kinds = append(kinds, "none")
		}
	case !got && counts:
		kinds = []string{"add"}
	case got:
		kinds = []string{"del"}
	default:
		kinds = []string{"none"}
	}
	if mayYak && !yak && s.HasLog {
		kinds = append(kinds, "set")
	}
	return kinds, rsets, open
}

// C11: failed TLS setups.
const tlsMemory = 72 * time.Hour

func judgeC11(r *Result, st Stat) []Violation {
	vs := crashed(r)
	m := NewModel(r)
	type key struct {
		pid int
		ip  string
	}
	ops := map[key][]*memOp{}
	var order []key
	for _, s := range r.W.Sess {
		if s.AcceptSeq == 0 || s.NewSeq == 0 {
			continue
		}
		k := key{s.Pid, sessIP(s)}
		if ops[k] == nil {
			order = append(order, k)
		}
		st.add("sessions", 1)
		lk := &memOp{lo: s.AcceptSeq, hi: s.NewSeq, t0: s.TAccept, t1: s.TNew, what: "lookup"}
		switch {
		case len(s.Cert0) == 0:
			lk.level = 2
			lk.label = fmt.Sprintf("connection %s not being offered TLS", s.Raddr)
			st.add("not-offered", 1)
			st.add("nontrivial", 1)
		case s.Auth0 == tls.NoClientCert:
			lk.level = 1
			lk.label = fmt.Sprintf("connection %s not being asked for a certificate", s.Raddr)
			st.add("not-asked", 1)
		default:
			lk.label = fmt.Sprintf("connection %s being offered TLS with client certificates", s.Raddr)
			st.add("asked", 1)
		}
		ops[k] = append(ops[k], lk)
		off, nocl := false, false
		j := m.Judge(s, JudgeOpt{NoMsg: true})
		judged := j.OK && !j.Unsure && !j.Part
		if !j.OK {
			vs = append(vs, v("verdict", "session %d from %s: %s", s.ID, s.Raddr, j.Why))
		}
		note := func(p map[string]string) {
			switch p["tls-opt"] {
			case "off":
				off = true
			case "no-client":
				nocl = true
			}
		}
		note(j.Conn)
		for i, x := range s.Steps {
			if judged && i < len(j.Exps) {
				note(j.Exps[i].Props)
			}
			if x.What == "TLSERROR" {
				st.add("tls-failures", 1)
				e := &memOp{lo: x.Seq0, hi: s.CloseSeq, t0: x.T0, t1: s.TClose, what: "end", kinds: []string{"add"}, label: fmt.Sprintf("failed TLS setup of %s", s.Raddr)}
				if i+1 < len(s.Steps) {
					e.hi, e.t1 = s.Steps[i+1].Seq0, s.Steps[i+1].T0
				}
				if e.hi == 0 {
					e.opt = true
					e.hi, e.t1 = r.EndSeq, r.EndT
				}
				ops[k] = append(ops[k], e)
			}
			if judged && x.Cmd == "EHLO" && x.Code == 250 {
				want := len(s.Cert0) > 0 && !off
				if x.Offer != want {
					vs = append(vs, v("offer", "EHLO of %s: TLS on offer %v, want %v (tls-opt off: %v)", s.Raddr, x.Offer, want, off))
				}
				if want && x.Offer && nocl && x.Auth != int(tls.NoClientCert) {
					vs = append(vs, v("offer", "EHLO of %s: client certificates are asked for despite tls-opt no-client", s.Raddr))
				}
			}
		}
	}
	for _, k := range order {
		st.add("addresses", 1)
		ok, gave, why := explain(ops[k], tlsMemory, 2, true, true)
		if gave {
			st.add("gave-up", 1)
		}
		if !ok {
			vs = append(vs, v("memory", "client %s: no order of events explains who was offered TLS: %s", k.ip, why))
		}
	}
	return limit(vs)
}

func init() {
	register(&Profile{ID: "C10", Gen: genC10, Judge: judgeC10})
	register(&Profile{ID: "C11", Gen: genC11, Judge: judgeC11})
}

func genC10(g *gen) {
	p := g.p
	g.k = knobs{stall: 20, reject: 50, oddAddr: 3, oddHelo: 10, setWith: 20, phase: 40, compact: 10, yak: g.pc(50), tlsOp: g.pc(20), connRule: g.pc(15), lists: 0}
	g.rbase(g.rng(1, 3), 2)
	f := &p.Flags
	f.Smtplog = "/log/smtp"
	f.DnCount = g.rng(1, 4)
	if g.pc(5) {
		f.DnCount = 0
	}
	many := g.pc(3)
	if many {
		f.DnCount = g.rng(5, 30)
	}
	f.DnDur = []int{3, 10, 60, 600}[g.n(4)]
	if f.DnCount > 0 && g.pc(50) {
		f.Dnlog = "/log/dn"
	}
	f.MinPhase = g.of("", "helo", "ehlo", "from", "to", "data", "message", "accepted", "to", "accepted")
	f.S = g.pc(4)
	if g.pc(25) {
		f.Certs = []string{"s1"}
		g.certs("s1")
	}
	if g.pc(20) {
		f.Dir = "/save"
		g.dir("/save")
		if g.pc(60) {
			g.saveFault(0)
		}
	}
	rf := g.rfile(g.rng(0, 3))
	g.put("/cfg/rules", rf)
	f.Rules = []string{"/cfg/rules"}
	span := f.DnDur * 1000
	for i := g.rng(1, 4); i > 0; i-- {
		c := Client{Name: fmt.Sprintf("c%d", i)}
		ip := g.from1(g.ips)
		k := g.rng(2, 7)
		if many {
			k = f.DnCount + g.rng(1, 5)
		}
		for ; k > 0; k-- {
			if g.pc(10) && !many {
				ip = g.from1(g.ips)
			}
			cn := Connection{From: g.addrOf(ip), To: g.target(), Acts: g.doNothing(ip)}
			if many && g.pc(80) {
				cn.Acts = []Act{cmd("QUIT")}
			}
			switch g.n(8) {
			case 0:
				cn.Wait = g.rng(0, span/2)
			case 1:
				cn.Wait = g.rng(span/2, span+span/4)
			case 2:
				cn.Wait = 0
			default:
				cn.Wait = g.rng(0, 200)
			}
			c.Conns = append(c.Conns, cn)
		}
		p.Clients = append(p.Clients, c)
	}
	if g.pc(25) {
		p.Ops = append(p.Ops, Op{At: g.rng(0, span), K: "skew", N: []int{-3600, 7200, 86400 * 30, -86400 * 365}[g.n(4)]})
	}
	if g.pc(15) {
		at := g.rng(0, 2000)
		p.Ops = append(p.Ops, Op{At: at, K: "put", Path: "/cfg/rules", Rule: g.brokenFile()}, Op{At: at + g.rng(50, 3000), K: "put", Path: "/cfg/rules", Rule: rf})
	}
	if g.pc(8) {
		p.Ops = append(p.Ops, Op{At: g.rng(0, span), K: "crash"})
	}
	sortOps(p.Ops)
	g.slow(15, "/", "fs.open", "fs.read", "fs.write")
	if g.crowd() {
		f.DnCount, f.DnDur, f.MinPhase, p.Ops = 1, 86400, "data", nil
	}
	if f.DnCount > 0 {
		g.mass(4, f.DnCount, func(ip string) []Act { return []Act{g.hello(ip), cmd("QUIT")} })
	}
}

// crowd says that this is one of the few very long runs.
func (g *gen) crowd() bool { return g.p.Seed%1021 == 200 }

// throng makes clients come very often in such a run, mostly for nothing.
func (g *gen) throng(n int) {
	if !g.crowd() {
		return
	}
	for i := range g.p.Clients {
		c := &g.p.Clients[i]
		own := len(c.Conns)
		for k := n; k > 0; k-- {
			cn := c.Conns[g.n(own)]
			ip, _, _ := net.SplitHostPort(cn.From)
			cn.From, cn.Wait = g.addrOf(ip), 0
			if g.pc(80) {
				cn.Acts = []Act{g.pickAct(cmd("QUIT"), Act{K: "close"})}
			}
			c.Conns = append(c.Conns, cn)
		}
	}
}

// mass makes many addresses come n times and then once more.
func (g *gen) mass(pct, n int, acts func(ip string) []Act) {
	if !g.pc(pct) && !g.crowd() {
		return
	}
	k := g.rng(5, 30)
	if g.pc(5) {
		k = g.rng(100, 140)
	}
	if g.crowd() {
		k = 1100
	}
	c := Client{Name: "mass"}
	for r := 0; r <= n; r++ {
		for i := 0; i < k; i++ {
			ip := fmt.Sprintf("10.77.%d.%d", i/250*3+i%3, i%250)
			c.Conns = append(c.Conns, Connection{From: g.addrOf(ip), To: g.target(), Acts: acts(ip)})
		}
	}
	g.p.Clients = append(g.p.Clients, c)
}

func sortOps(l []Op) {
	sort.SliceStable(l, func(i, j int) bool { return l[i].At < l[j].At })
}

// doNothing is a session that mostly gets nowhere.
func (g *gen) doNothing(ip string) []Act {
	var a []Act
	end := func() { a = append(a, g.pickAct(cmd("QUIT"), cmd("QUIT"), Act{K: "close"}, Act{K: "reset"})) }
	switch g.n(12) {
	case 0: // just looks
		if g.pc(50) {
			a = append(a, Act{K: "sleep", N: g.rng(1, 300)})
		}
		end()
		return a
	case 1:
		a = append(a, cmd("NOOP"))
		end()
		return a
	}
	a = append(a, g.hello(ip))
	if g.pc(10) {
		a = append(a, g.tlsFail()...)
		return append(a, cmd("QUIT"))
	}
	switch g.n(9) {
	case 0, 1:
	case 2:
		a = append(a, cmd("MAIL FROM:<%s>", g.fromAddr()))
	case 3:
		a = append(a, cmd("MAIL FROM:<%s>", g.fromAddr()), cmd("RCPT TO:<%s>", g.toAddr()))
	case 4, 5: // tries again and again
		for i := g.rng(2, 6); i > 0; i-- {
			a = append(a, cmd("MAIL FROM:<%s>", g.fromAddr()))
			if g.pc(60) {
				a = append(a, cmd("RCPT TO:<%s>", g.toAddr()))
			}
			if g.pc(20) {
				a = append(a, cmd("DATA"), Act{K: "msg", T: "Subject: x\n\nx\n"})
			}
			a = append(a, cmd("RSET"))
			if g.pc(15) {
				a = append(a, g.hello(ip))
			}
		}
	case 6:
		a = append(a, cmd("MAIL FROM:<%s>", g.fromAddr()), cmd("RCPT TO:<%s>", g.toAddr()), cmd("DATA"))
	default:
		a = append(a, g.transaction()...)
	}
	end()
	return a
}

func genC11(g *gen) {
	p := g.p
	g.k = knobs{stall: 10, reject: 30, setWith: 30, phase: 20, connRule: true}
	g.rbase(g.rng(1, 3), 2)
	f := &p.Flags
	f.Certs = []string{"s1"}
	g.certs("s1", "s2")
	if g.pc(20) {
		f.Certs = []string{"s1", "s2"}
	}
	g.mass(2, 2, func(ip string) []Act {
		a := []Act{g.hello(ip)}
		if !g.pc(20) {
			a = append(a, g.tlsFail()...)
		}
		return append(a, Act{K: "close"})
	})
	if g.pc(30) {
		f.Smtplog = "/log/smtp"
	}
	if g.pc(40) {
		rf := &RFile{}
		for i := g.rng(1, 2); i > 0; i-- {
			rf.Items = append(rf.Items, Item{R: &Rule{Phase: "connect", Act: g.of("set-with", "set-with", "accept"), Cl: []Clause{{
				E: g.pickExpr(&Expr{Op: "all"}, &Expr{Op: "ip", Arg: g.ipPat()}, &Expr{Op: "dns", Opts: []string{"nodns"}}),
				W: []With{{"tls-opt", g.of("off", "no-client")}}}}}})
		}
		g.put("/cfg/rules", rf)
		f.Rules = []string{"/cfg/rules"}
	}
	for i := g.rng(1, 4); i > 0; i-- {
		c := Client{Name: fmt.Sprintf("c%d", i)}
		ip := g.from1(g.ips)
		for k := g.rng(2, 6); k > 0; k-- {
			if g.pc(10) {
				ip = g.from1(g.ips)
			}
			var a []Act
			a = append(a, g.hello(ip))
			switch g.n(5) {
			case 0:
				a = append(a, g.tlsAct()...)
				if g.pc(20) {
					a = append(a, Act{K: g.of("close", "reset")})
					break
				}
				a = append(a, g.hello(ip))
				a = append(a, g.transaction()...)
				a = append(a, cmd("QUIT"))
			case 1:
				a = append(a, cmd("QUIT"))
			default:
				x := g.tlsFail()
				if g.pc(30) {
					x[0].N = g.rng(1, 500)
				}
				a = append(a, x...)
				a = append(a, g.pickAct(cmd("QUIT"), Act{K: "close"}, Act{K: "reset"}))
			}
			cn := Connection{From: g.addrOf(ip), To: g.target(), Acts: a}
			switch g.n(6) {
			case 0:
				cn.Wait = g.rng(0, 72*3600*1000)
			case 1:
				cn.Wait = g.rng(70*3600*1000, 80*3600*1000)
			case 2:
				cn.Wait = g.rng(20, 71) * 3600 * 1000
			default:
				cn.Wait = g.rng(0, 300)
			}
			c.Conns = append(c.Conns, cn)
		}
		p.Clients = append(p.Clients, c)
	}
	if g.pc(30) {
		for i := g.rng(1, 2); i > 0; i-- {
			p.Ops = append(p.Ops, Op{At: g.rng(0, 100*3600*1000), K: "skew", N: []int{-3600, 7200, 86400 * 30, -86400 * 365, 86400 * 4}[g.n(5)]})
		}
	}
	if g.pc(5) {
		p.Ops = append(p.Ops, Op{At: g.rng(0, 50*3600*1000), K: "crash"})
	}
	sortOps(p.Ops)
}

func (g *gen) pickExpr(l ...*Expr) *Expr { return l[g.n(len(l))] }
