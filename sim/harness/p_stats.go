package harness

import (
	"encoding/json"
	rex "expvar"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"vsim/rt"
	expvar "vsim/shim/expvar"
	"vsim/world"
)

// C17: the monitoring counters. They are read the way the expvar handler
// does, by a goroutine of the daemon, now and then while sessions run and
// once when all is over; they must add up to what happened.

// StatRead is one look at the counters.
type StatRead struct {
	Pid        int
	Seq0, Seq1 int
	Done       bool
	Final      bool
	Val        map[string]int64
	Str        map[string]string
	raw        []rawVal
}

type rawVal struct {
	path string
	v    interface{}
	text string
}

func (x *exec) readStats() *StatRead {
	b := x.cur
	r := &StatRead{Pid: b.Proc.Pid, Seq0: x.s.Next(), Val: map[string]int64{}, Str: map[string]string{}}
	x.r.Reads = append(x.r.Reads, r)
	if b.Proc.Dead() || b.ReadySeq == 0 {
		return r
	}
	x.s.Spawn("stats", b.Proc, func() {
		v := expvar.Get("sinksmtp")
		if v == nil {
			return
		}
		r.walk("", v)
		r.Seq1 = x.s.Next()
		r.Done = true
	})
	return r
}

func (r *StatRead) walk(path string, v rex.Var) {
	switch x := v.(type) {
	case *expvar.Map:
		// like the real one, with the map's keys locked
		x.Do(func(kv rex.KeyValue) {
			if kv.Value != nil {
				r.walk(path+"/"+kv.Key, kv.Value)
			}
		})
	case *rex.String:
		r.Str[path] = x.Value()
	case rex.Func:
		val := x.Value()
		// formatting what it returned walks it
		if rv := reflect.ValueOf(val); rv.Kind() == reflect.Map {
			for i := 0; i <= rv.Len(); i++ {
				rt.MapTouch(rv.UnsafePointer())
			}
		}
		b, _ := json.Marshal(val)
		r.raw = append(r.raw, rawVal{path, val, string(b)})
		r.put(path, b)
	default:
		r.put(path, []byte(v.String()))
	}
}

func (r *StatRead) put(path string, b []byte) {
	var v interface{}
	if json.Unmarshal(b, &v) != nil {
		return
	}
	var f func(p string, v interface{})
	f = func(p string, v interface{}) {
		switch x := v.(type) {
		case float64:
			r.Val[p] = int64(x)
		case map[string]interface{}:
			for k, y := range x {
				f(p+"/"+k, y)
			}
		}
	}
	f(path, v)
}

type span struct{ lo, hi int }

func (s *span) add(n int)     { s.lo += n; s.hi += n }
func (s *span) add2(a, b int) { s.lo += a; s.hi += b }
func (s span) has(n int) bool { return s.lo <= n && n <= s.hi }
func (s span) String() string {
	if s.lo == s.hi {
		return fmt.Sprint(s.lo)
	}
	return fmt.Sprintf("%d to %d", s.lo, s.hi)
}

var yakAddRe = regexp.MustCompile(`^(\d+)/\d+! \S+ added as a yakker at hit \d+( due to RSET)?$`)
var yakSetRe = regexp.MustCompile(`^(\d+)/\d+! \S+ forced to be a yakker$`)
var dnsblRe = regexp.MustCompile(`^(\d+)/\d+! dnsbl hit: (.+)$`)
var sblRe = regexp.MustCompile(`^(\d+)/\d+! SBL records: (.+)$`)

func judgeC17(r *Result, st Stat) []Violation {
	vs := crashed(r)
	// a value that was handed out must not change afterwards
	for _, rd := range r.Reads {
		if !rd.Done {
			continue
		}
		st.add("reads", 1)
		for _, x := range rd.raw {
			if b, _ := json.Marshal(x.v); string(b) != x.text {
				vs = append(vs, v("live-value", "the value of %s handed out to a reader changed afterwards, from %s to %s: readers race with sessions", x.path, short(x.text), short(string(b))))
			}
		}
	}
	if len(vs) > 0 || len(r.Boots) == 0 {
		return limit(vs)
	}
	b := r.Boots[len(r.Boots)-1]
	pid := b.Proc.Pid
	for _, rd := range r.Reads {
		if rd.Pid == pid && !rd.Done && rd.Seq0 > b.ReadySeq && b.ReadySeq != 0 && b.EndSeq == 0 {
			vs = append(vs, v("blocked", "reading the counters never finished"))
			return vs
		}
	}
	// counters never go back
	var prev *StatRead
	var fin *StatRead
	for _, rd := range r.Reads {
		if rd.Pid != pid || !rd.Done {
			continue
		}
		if prev != nil && prev.Seq1 < rd.Seq0 {
			for _, k := range statKeys(prev.Val) {
				if strings.HasSuffix(k, "/Size") {
					continue
				}
				if rd.Val[k] < prev.Val[k] {
					vs = append(vs, v("backwards", "counter %s went back from %d to %d", k, prev.Val[k], rd.Val[k]))
				}
			}
		}
		prev, fin = rd, rd
	}
	if fin == nil || !r.Settled || b.EndSeq != 0 || len(r.Open) > 0 || fin != r.Reads[len(r.Reads)-1] {
		st.add("unfinished", 1)
		return limit(vs)
	}
	f := &r.P.Flags
	m := NewModel(r)
	dn := f.DnCount
	minph := f.MinPhase
	if minph == "" || minph == "ehlo" {
		minph = "helo"
	}
	opt := JudgeOpt{NoMsg: true, All: true,
		Stalled:   func(s *world.Session) bool { return dn > 0 && !s.HasLog },
		RsetDrop:  func(s *world.Session, i int) bool { return dn > 0 && s.HasLog && i == len(s.Steps)-1 },
		SaveFault: func(x *world.Step) bool { return storageFault(r, x.Seq0, x.Seq1) }}
	ex := map[string]*span{}
	for _, k := range []string{"/events/connections", "/events/tls_errors", "/events/yakkers", "/events/notls_conns", "/events/rules_errors",
		"/events/yakker_adds", "/events/yakker_forces", "/events/rsetdrops", "/events/abandons", "/events/refuseds",
		"/smtpcounts/commands/ehlo", "/smtpcounts/commands/mailfrom", "/smtpcounts/commands/rcptto", "/smtpcounts/commands/data", "/smtpcounts/commands/starttls",
		"/smtpcounts/accepted/ehlo", "/smtpcounts/accepted/mailfrom", "/smtpcounts/accepted/rcptto", "/smtpcounts/accepted/data", "/smtpcounts/accepted/messages",
		"/smtpcounts/ehlo_tlson", "/smtpcounts/quits", "/smtpcounts/aborts", "/smtpcounts/rsets",
		"/sizes/notls/Adds", "/sizes/notls/Lookup", "/sizes/yakkers/Adds", "/sizes/yakkers/Lookup", "/sizes/yakkers/Sets"} {
		ex[k] = &span{}
	}
	at := func(k string) *span {
		if ex[k] == nil {
			ex[k] = &span{}
		}
		return ex[k]
	}
	lt := lasts{}
	mem := map[string]map[string]*memHist{"notls": {}, "yakkers": {}}
	memOf := func(which string, s *world.Session) *memHist {
		h := mem[which][sessIP(s)]
		if h == nil {
			h = &memHist{}
			mem[which][sessIP(s)] = h
		}
		return h
	}
	unsure := false
	perAddr := f.PerIP || len(r.P.Listen) > 1
	ns, conc := 0, false
	var open []*world.Session
	for _, s := range r.W.Sess {
		if s.Pid != pid || s.AcceptSeq == 0 {
			continue
		}
		ns++
		for _, o := range open {
			if o.CloseSeq == 0 || o.CloseSeq > s.AcceptSeq {
				conc = true
			}
		}
		open = append(open, s)
		at("/events/connections").add(1)
		lt.at(s, "connection", s.TAccept, s.TNew)
		if s.NewSeq == 0 {
			// it cannot have come to an end without being served
			unsure = true
			continue
		}
		if perAddr {
			at("/connects_to/" + s.Laddr).add(1)
		}
		at("/sizes/notls/Lookup").add(1)
		at("/sizes/yakkers/Lookup").add(1)
		for which := range mem {
			h := memOf(which, s)
			h.ops = append(h.ops, &memOp{lo: s.AcceptSeq, hi: s.NewSeq, t0: s.TAccept, t1: s.TNew, what: "lookup"})
		}
		if dn > 0 && !s.HasLog {
			at("/events/yakkers").add(1)
			lt.at(s, "yakker", s.TAccept, s.TNew)
		} else {
			lt.at(s, "regular", s.TAccept, s.TNew)
		}
		if len(f.Certs) > 0 && s.Cert0 == nil {
			at("/events/notls_conns").add(1)
		}
		tls, tlserr := false, false
		reached, ended := false, false
		for i, x := range s.Steps {
			good := x.Code/100 == 2 || x.Code/100 == 3
			cnt := func(n string) {
				at("/smtpcounts/commands/" + n).add(1)
				if good {
					at("/smtpcounts/accepted/" + n).add(1)
				}
			}
			switch x.What {
			case "COMMAND":
				switch x.Cmd {
				case "EHLO", "HELO":
					cnt("ehlo")
					if good && x.TLSOn && !tls {
						tls = true
						at("/smtpcounts/ehlo_tlson").add(1)
						at("/smtpcounts/commands/starttls").add(1)
					}
				case "MAIL FROM":
					cnt("mailfrom")
				case "RCPT TO":
					cnt("rcptto")
				case "DATA":
					cnt("data")
				}
				if x.Code == 0 {
					unsure = true
				}
				if good && phaseOf[x.Cmd] == minph {
					reached = true
				}
			case "GOTDATA":
				at("/smtpcounts/accepted/messages").add(1)
				end := s.TClose
				if i+1 < len(s.Steps) {
					end = s.Steps[i+1].T0
				}
				lt.at(s, "message", x.T0, end)
				if good && minph == "accepted" || x.Code/100 == 4 && opt.SaveFault(x) {
					reached = true
				}
			case "DONE":
				ended = true
				at("/smtpcounts/quits").add(1)
			case "ABORT":
				ended = true
				at("/smtpcounts/aborts").add(1)
			case "TLSERROR":
				tlserr = true
				at("/events/tls_errors").add(1)
				at("/smtpcounts/commands/starttls").add(1)
				at("/sizes/notls/Adds").add(1)
				h := memOf("notls", s)
				h.ops = append(h.ops, &memOp{lo: x.Seq0, hi: s.CloseSeq, t0: x.T0, t1: s.TClose, what: "end", kinds: []string{"add"}})
			}
		}
		if reached && ended && minph != "message" {
			lt.at(s, "reached_minphase", s.Steps[len(s.Steps)-1].T0, s.TClose)
		}
		// what depends on the rules, over all explanations
		type res struct{ bad, aband, refus, rsets, adds, sets int }
		var all []res
		open := false
		var yops []*memOp
		yfirst := ""
		yh := memOf("yakkers", s)
		o2 := opt
		o2.Each = func(j *Judged) {
			var x res
			kinds, rsets, op := yakOps(r, s, j, dn, minph)
			if op || len(kinds) > 1 {
				open = true
			}
			yops = append([]*memOp(nil), rsets...)
			if e := endWindow(r, s); e != nil {
				e.kinds = kinds
				yops = append(yops, e)
			}
			if k := fmt.Sprint(kinds, len(rsets)); yfirst == "" {
				yfirst = k
			} else if k != yfirst {
				yh.open = true
			}
			x.rsets = len(rsets)
			x.adds = len(rsets)
			if dn > 0 && len(kinds) == 1 {
				switch kinds[0] {
				case "add":
					x.adds++
				}
			}
			if len(kinds) == 1 && kinds[0] == "set" {
				x.sets = 1
			}
			if !j.Good {
				x.bad = 1
			}
			last := j.ConnAct != "stall"
			drop := j.Dropped
			for i, e := range j.Exps {
				if e.Act == "" || i >= len(s.Steps) {
					continue
				}
				last = e.Act == "accept"
				if e.Act == "rsetdrop" {
					drop = true
				}
				if s.Steps[i].What == "GOTDATA" && opt.SaveFault(s.Steps[i]) {
					open = true
				}
			}
			if j.Good && !drop && (dn == 0 || (s.HasLog && !tlserr)) {
				if last {
					x.aband = 1
				} else {
					x.refus = 1
				}
			}
			all = append(all, x)
		}
		j := m.Judge(s, o2)
		if j.Unsure || j.Part || open {
			unsure = true
			continue
		}
		if !j.OK {
			vs = append(vs, v("verdict", "session %d from %s: %s", s.ID, s.Raddr, j.Why))
			return limit(vs)
		}
		yh.ops = append(yh.ops, yops...)
		mm := func(k string, get func(res) int) {
			lo, hi := get(all[0]), get(all[0])
			for _, x := range all {
				if n := get(x); n < lo {
					lo = n
				} else if n > hi {
					hi = n
				}
			}
			at(k).add2(lo, hi)
		}
		mm("/events/rules_errors", func(x res) int { return x.bad })
		mm("/events/abandons", func(x res) int { return x.aband })
		mm("/events/refuseds", func(x res) int { return x.refus })
		mm("/smtpcounts/rsets", func(x res) int { return x.rsets })
		mm("/sizes/yakkers/Adds", func(x res) int { return x.adds })
		mm("/sizes/yakkers/Sets", func(x res) int { return x.sets })
	}
	if unsure {
		st.add("unsure", 1)
		return limit(vs)
	}
	// what the SMTP log says
	if f.Smtplog != "" {
		txt, _ := r.W.FS.Get(f.Smtplog)
		mine := fmt.Sprint(pid)
		vs = append(vs, logHits(r)...)
		for _, l := range strings.Split(txt, "\n") {
			if x := yakAddRe.FindStringSubmatch(l); x != nil && x[1] == mine {
				at("/events/yakker_adds").add(1)
				if x[2] != "" {
					at("/events/rsetdrops").add(1)
				}
			}
			if x := yakSetRe.FindStringSubmatch(l); x != nil && x[1] == mine {
				at("/events/yakker_adds").add(1)
				at("/events/yakker_forces").add(1)
			}
			if x := dnsblRe.FindStringSubmatch(l); x != nil && x[1] == mine {
				for _, n := range strings.Fields(x[2]) {
					at("/dnsbl_hits/" + n).add(1)
				}
			}
			if x := sblRe.FindStringSubmatch(l); x != nil && x[1] == mine {
				for _, n := range strings.Fields(x[2]) {
					at("/sbl_hits/" + n).add(1)
				}
			}
		}
	} else {
		// forced do-nothing clients cannot be told from the log
		delete(ex, "/events/yakker_adds")
		delete(ex, "/events/yakker_forces")
		delete(ex, "/sizes/yakkers/Sets")
	}
	var names []string
	for k := range ex {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		got, have := fin.Val[k]
		if !have && ex[k].lo == 0 {
			continue
		}
		st.add("counters", 1)
		st.add("counted", int(got))
		if !ex[k].has(int(got)) {
			vs = append(vs, v("count", "counter %s is %d at the end, it happened %s times", k, got, ex[k]))
		}
	}
	for _, k := range statKeys(fin.Val) {
		if (strings.HasPrefix(k, "/dnsbl_hits/") || strings.HasPrefix(k, "/sbl_hits/") || strings.HasPrefix(k, "/connects_to/")) && ex[k] == nil && fin.Val[k] != 0 {
			vs = append(vs, v("count", "counter %s is %d at the end, it never happened", k, fin.Val[k]))
		}
	}
	for _, n := range []string{"notls", "yakkers"} {
		g := func(k string) int64 { return fin.Val["/sizes/"+n+"/"+k] }
		if g("Size") != g("AddsNew")-g("Dels")-g("LookupExpired") {
			vs = append(vs, v("count", "%s addresses are remembered by %s, but %d were added, %d deleted and %d expired", fmt.Sprint(g("Size")), n, g("AddsNew"), g("Dels"), g("LookupExpired")))
		}
	}
	if !skewed(r) && ex["/sizes/yakkers/Sets"] != nil {
		ttl := time.Duration(f.DnDur) * time.Second
		if f.DnDur == 0 {
			ttl = 8 * time.Hour
		}
		vs = append(vs, memCounts(mem["notls"], "notls", 72*time.Hour, fin, st)...)
		if dn > 0 {
			vs = append(vs, memCounts(mem["yakkers"], "yakkers", ttl, fin, st)...)
		}
	}
	for _, w := range lt.check(r, fin, perAddr, st) {
		vs = append(vs, v("last", "%s", w))
	}
	if conc {
		st.add("nontrivial", 1)
	}
	return limit(vs)
}

var phaseOf = map[string]string{"EHLO": "helo", "HELO": "helo", "MAIL FROM": "from", "RCPT TO": "to", "DATA": "data"}

// memHist is what happened to the daemon's record of an address.
type memHist struct {
	ops   []*memOp
	vague bool // which came first is not known
	open  bool // nor what happened
}

// memCounts works out what became of the lookups, additions and removals of
// each address: exactly if they came one after the other, between bounds if
// not.
func memCounts(h map[string]*memHist, which string, ttl time.Duration, fin *StatRead, st Stat) (vs []Violation) {
	keys := []string{"AddsNew", "AddsExpired", "Dels", "LookupHit", "LookupExpired"}
	want := map[string]*span{}
	for _, k := range keys {
		want[k] = &span{}
	}
	for _, a := range sortedHists(h) {
		ops := a.ops
		sort.SliceStable(ops, func(i, j int) bool { return ops[i].lo < ops[j].lo })
		m := &memSearch{ttl: ttl}
		var s memState
		n := map[string]int{}
		adds, dels, looks, hi := 0, 0, 0, 0
		for _, o := range ops {
			if o.lo < hi {
				a.vague = true
			}
			hi = max(hi, o.hi)
			live, exp := m.live(s, o)
			if live && exp {
				a.vague = true
			}
			k := "lookup"
			if o.what != k {
				k = "none"
				if len(o.kinds) == 1 {
					k = o.kinds[0]
				} else if len(o.kinds) > 1 {
					a.open = true
				}
			}
			switch k {
			case "lookup":
				looks++
				if live {
					n["LookupHit"]++
				} else if exp {
					n["LookupExpired"]++
					s = memState{}
				}
			case "add", "set":
				adds++
				if !s.have {
					n["AddsNew"]++
				} else if exp {
					n["AddsExpired"]++
				}
				s = memState{true, 1, o.t0, o.t1}
			case "del":
				dels++
				if s.have {
					n["Dels"]++
				}
				s = memState{}
			}
		}
		if a.open {
			return nil
		}
		for _, k := range keys {
			if !a.vague {
				want[k].add(n[k])
				continue
			}
			switch k {
			case "AddsNew":
				want[k].add2(min(adds, 1), adds)
			case "AddsExpired":
				want[k].add2(0, max(adds-1, 0))
			case "Dels":
				want[k].add2(0, dels)
			case "LookupHit":
				want[k].add2(0, looks)
			case "LookupExpired":
				want[k].add2(0, min(looks, adds))
			}
		}
		if a.vague {
			st.add("vague-addresses", 1)
		} else {
			st.add("exact-addresses", 1)
		}
	}
	for _, k := range keys {
		got := fin.Val["/sizes/"+which+"/"+k]
		if got > 0 {
			st.add(which+"-"+k, int(got))
		}
		if !want[k].has(int(got)) {
			vs = append(vs, v("memory", "counter /sizes/%s/%s is %d at the end, it happened %s times", which, k, got, want[k]))
		}
	}
	return vs
}

func sortedHists(h map[string]*memHist) (l []*memHist) {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l = append(l, h[k])
	}
	return l
}

func skewed(r *Result) bool {
	for _, o := range r.P.Ops {
		if o.K == "skew" {
			return true
		}
	}
	return false
}

// lasts holds when something happened last: at lo or later, and not later
// than hi.
type lasts map[string]*lastAt
type lastAt struct{ lo, hi time.Duration }

func (l lasts) at(s *world.Session, what string, lo, hi time.Duration) {
	for _, k := range []string{"/last/" + what, "/lasts_to/" + s.Laddr + "/" + what} {
		if hi < lo {
			hi = lo
		}
		e := l[k]
		if e == nil {
			l[k] = &lastAt{lo, hi}
			continue
		}
		e.lo, e.hi = max(e.lo, lo), max(e.hi, hi)
	}
}

// check compares the published times. They are set without a lock, so that
// of two events at about the same time either may be the one published.
func (l lasts) check(r *Result, fin *StatRead, perAddr bool, st Stat) (bad []string) {
	if skewed(r) {
		return nil
	}
	base := r.Base.UTC().Truncate(time.Second)
	var ks []string
	for k := range l {
		ks = append(ks, k)
	}
	for k := range fin.Str {
		if l[k] == nil && fin.Str[k] != "" && (strings.HasPrefix(k, "/last/") || strings.HasPrefix(k, "/lasts_to/")) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !perAddr && strings.HasPrefix(k, "/lasts_to/") {
			continue
		}
		e, got := l[k], fin.Str[k]
		if e == nil {
			bad = append(bad, fmt.Sprintf("%s is %s, but there was no such thing", k, got))
			continue
		}
		st.add("last-times", 1)
		t, err := time.Parse("2006-01-02 15:04:05", got)
		if err != nil {
			bad = append(bad, fmt.Sprintf("%s is %q, but it did happen", k, got))
			continue
		}
		if t.Before(base.Add(e.lo).Add(-4*time.Second)) || t.After(base.Add(e.hi).Add(3*time.Second)) {
			bad = append(bad, fmt.Sprintf("%s is %s, but the last time was %s", k, got, base.Add(e.lo).Format("2006-01-02 15:04:05")))
		}
	}
	return bad
}

func statKeys(m map[string]int64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	register(&Profile{ID: "C17", Gen: genC17, Judge: judgeC17})
}

func genC17(g *gen) {
	p := g.p
	p.Stats = true
	g.k = knobs{stall: 25, reject: 50, oddAddr: 5, oddHelo: 10, setWith: 20, phase: 40, compact: 10, dnsOps: g.pc(50), yak: g.pc(40), connRule: g.pc(15), lists: 0}
	g.rbase(g.rng(1, 3), 2)
	f := &p.Flags
	f.Pprof = true
	f.PerIP = g.pc(40)
	if g.pc(30) {
		p.Listen = []string{"127.0.0.1:25", "127.0.0.2:25"}
	}
	if g.pc(85) {
		f.Smtplog = "/log/smtp"
		if g.pc(65) {
			f.DnCount = g.rng(1, 4)
			f.DnDur = []int{3, 10, 60, 600}[g.n(4)]
			if g.pc(40) {
				f.Dnlog = "/log/dn"
			}
		}
	}
	f.MinPhase = g.of("", "helo", "from", "to", "data", "message", "accepted", "to", "accepted")
	if g.pc(50) {
		f.Certs = []string{"s1"}
		g.certs("s1")
	}
	if g.pc(20) {
		f.Dir = "/save"
		g.dir("/save")
	}
	rf := g.rfile(g.rng(0, 4))
	if g.k.dnsOps {
		g.listed(rf)
	}
	g.put("/cfg/rules", rf)
	f.Rules = []string{"/cfg/rules"}
	rf2 := g.rfile(g.rng(0, 2))
	if g.pc(30) {
		g.put("/cfg/rules2", rf2)
		f.Rules = append(f.Rules, "/cfg/rules2")
	}
	long := g.pc(25)
	for i := g.rng(2, 6); i > 0; i-- {
		c := Client{Name: fmt.Sprintf("c%d", i)}
		ip := g.from1(g.ips)
		for k := g.rng(1, 4); k > 0; k-- {
			if g.pc(20) {
				ip = g.from1(g.ips)
			}
			cn := Connection{From: g.addrOf(ip), To: g.target()}
			switch {
			case len(f.Certs) > 0 && g.pc(25):
				cn.Acts = append([]Act{g.hello(ip)}, g.tlsFail()...)
			case g.pc(40):
				cn.Acts = g.doNothing(ip)
			default:
				tls := 0
				if len(f.Certs) > 0 {
					tls = 50
				}
				cn.Acts = g.dialog(ip, tls)
			}
			if len(f.Certs) > 0 && g.pc(3) {
				cn.Wait = 72*3600*1000 + g.rng(-3600*1000, 3600*1000)
			} else if long && g.pc(40) {
				cn.Wait = g.rng(5000, 60000)
			} else if g.pc(30) {
				cn.Wait = g.rng(0, 3000)
			} else if g.pc(50) {
				cn.Wait = g.rng(0, 60)
			}
			c.Conns = append(c.Conns, cn)
		}
		p.Clients = append(p.Clients, c)
	}
	g.throng(150)
	for i := g.rng(0, 5); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: g.rng(0, 800), K: "stats"})
	}
	if g.pc(15) {
		at := g.rng(0, 1000)
		path, was := "/cfg/rules", rf
		if len(f.Rules) > 1 && g.pc(60) {
			path, was = "/cfg/rules2", rf2
		}
		p.Ops = append(p.Ops, Op{At: at, K: "put", Path: path, Rule: g.brokenFile()}, Op{At: at + g.rng(50, 1500), K: "put", Path: path, Rule: was})
	}
	if g.pc(8) {
		p.Ops = append(p.Ops, Op{At: g.rng(0, 500), K: "crash"})
	}
	sortOps(p.Ops)
	if g.pc(15) {
		g.dnsFaults(g.rng(1, 2))
	}
	g.slow(10, "/", "fs.open", "fs.read", "fs.write")
}
