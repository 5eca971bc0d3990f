package harness

import (
	"fmt"
	"strings"

	"vsim/world"
)

// C06 to C09: the rules engine in time. The verdicts are the reference
// model's; what differs is what happens to the files underneath.

func init() {
	register(&Profile{ID: "C06", Gen: genC06, Judge: func(r *Result, st Stat) []Violation {
		vs := append(crashed(r), judgeSessions(r, st, JudgeOpt{}, "verdict")...)
		vs = append(vs, notesAsTold(r, st)...)
		for _, s := range r.W.Sess {
			null, deferred := false, false
			for _, x := range s.Steps {
				if x.What == "COMMAND" && (x.Cmd == "EHLO" || x.Cmd == "HELO") {
					null, deferred = false, false
				}
				if x.What == "COMMAND" && x.Cmd == "MAIL FROM" {
					null, deferred = x.Arg == "", false
					if null {
						st.add("null-senders", 1)
						if x.Code != 0 && x.Code/100 != 2 {
							vs = append(vs, v("null-refused", "MAIL FROM:<> of %s was answered %d %q", s.Raddr, x.Code, x.Lines))
						}
					}
				}
				if null && x.Cmd == "RCPT TO" && x.Code/100 > 3 && !deferred {
					deferred = true
					st.add("deferred", 1)
					st.add("nontrivial", 1)
				}
			}
		}
		return limit(vs)
	}})
	register(&Profile{ID: "C07", Gen: genC07, Judge: judgeC07})
	register(&Profile{ID: "C08", Gen: genC08, Judge: func(r *Result, st Stat) []Violation {
		vs := append(crashed(r), judgeSessions(r, st, JudgeOpt{}, "verdict")...)
		n := 0
		for _, s := range r.W.Sess {
			hi := s.CloseSeq
			if hi == 0 {
				hi = r.EndSeq
			}
			for _, e := range r.W.Hist {
				if e.Kind == "op" && s.ConnSeq < e.Seq && e.Seq < hi {
					n++
				}
			}
		}
		st.add("swaps-during-sessions", n)
		if n > 0 {
			st.add("nontrivial", 1)
		}
		return limit(vs)
	}})
	register(&Profile{ID: "C09", Gen: genC09, Judge: func(r *Result, st Stat) []Violation {
		vs := append(crashed(r), judgeSessions(r, st, JudgeOpt{NoMsg: true}, "verdict")...)
		n := 0
		for _, e := range r.W.Hist {
			if e.Kind == "op" || e.Kind == "fault" && strings.HasPrefix(e.B, "/cfg/") {
				n++
			}
		}
		if n > 0 && st["verdict:reject"]+st["verdict:stall"] > 0 {
			st.add("nontrivial", 1)
		}
		return limit(vs)
	}})
}

// rbase is the setup the rules profiles share.
func (g *gen) rbase(nip, ndom int) {
	g.net(nip)
	g.domains(ndom)
	g.people()
	f := &g.p.Flags
	f.Force = true
	f.Helo = "mx.sink.example"
	f.NoStd = g.pc(40)
}

func genC06(g *gen) {
	p := g.p
	g.k = knobs{stall: 40, reject: 55, oddAddr: 10, oddHelo: 5, dnsOps: g.pc(30), setWith: 15, phase: 45, compact: 15, lists: 5, tlsOp: g.pc(20)}
	g.rbase(g.rng(1, 3), 2)
	f := &p.Flags
	tls := 0
	if g.k.tlsOp || g.pc(15) {
		f.Certs = []string{"s1"}
		g.certs("s1")
		tls = 50
	}
	f.M = g.pc(10)
	if g.pc(40) {
		f.Smtplog = "/log/smtp"
		g.k.note = true
	}
	rf := g.rfile(g.rng(1, 4))
	// make sure bounces meet refusals
	for i := g.rng(0, 2); i > 0; i-- {
		rl := &Rule{Act: g.of("reject", "stall", "reject"), Cl: []Clause{{E: &Expr{Op: "from", Arg: "<>"}}}}
		switch g.n(5) {
		case 0:
			rl.Cl[0].E = &Expr{Op: "all"}
			rl.Phase = "from"
		case 1:
			rl.Phase = "from"
			rl.Cl[0].E = &Expr{Op: g.of("helo", "source"), Arg: g.hostPat()}
		case 2:
			rl.Cl[0].E = &Expr{Op: "not", Kids: []*Expr{{Op: "from", Arg: "@"}}}
		case 3:
			rl.Cl[0].E = flat(&Expr{Op: "and", Kids: []*Expr{{Op: "from", Arg: "<>"}, g.term()}})
		}
		if g.pc(30) {
			rl.Cl[0].W = []With{{"message", "no bounces"}}
		}
		at := g.n(len(rf.Items) + 1)
		rf.Items = append(rf.Items[:at:at], append([]Item{{R: rl}}, rf.Items[at:]...)...)
	}
	g.put("/cfg/rules", rf)
	f.Rules = []string{"/cfg/rules"}
	if g.pc(20) {
		f.FromReject = g.addList("from")
	}
	g.clients(g.rng(1, 3), 2, tls)
	for c := range p.Clients {
		for k := range p.Clients[c].Conns {
			for i, a := range p.Clients[c].Conns[k].Acts {
				if strings.HasPrefix(a.T, "MAIL FROM:") && g.pc(60) {
					p.Clients[c].Conns[k].Acts[i].T = "MAIL FROM:<>"
				}
			}
		}
	}
	if g.pc(20) {
		g.dnsFaults(1)
	}
}

// swaps makes the operator replace files. edit returns what to do to a path.
func (g *gen) swaps(n int, span int, edit func() Op) {
	at := 0
	for i := 0; i < n; i++ {
		at += g.rng(0, span/n+1)
		o := edit()
		o.At = at
		g.p.Ops = append(g.p.Ops, o)
	}
}

func (g *gen) brokenFile() *RFile {
	f := g.rfile(g.rng(0, 2))
	f.Broken = g.brokenText()
	if f.Style != 0 && g.pc(30) {
		f.Style = g.r.U64()
	}
	return f
}

// C07: broken rules.
func judgeC07(r *Result, st Stat) []Violation {
	vs := crashed(r)
	m := NewModel(r)
	opt := JudgeOpt{NoMsg: true}
	if r.P.Flags.DnCount > 0 {
		// nobody gets known as a do-nothing client for this
		vs = judgeC10(r, Stat{})
		if len(vs) > 0 {
			return vs
		}
		opt.Stalled = func(s *world.Session) bool { return !s.HasLog }
		opt.RsetDrop = func(s *world.Session, i int) bool { return s.HasLog && i == len(s.Steps)-1 }
	}
	for _, s := range r.W.Sess {
		j := m.Judge(s, opt)
		st.add("sessions", 1)
		if j.Unsure {
			st.add("unsure", 1)
			continue
		}
		if !j.OK {
			vs = append(vs, v("verdict", "session %d from %s: %s", s.ID, s.Raddr, j.Why))
			continue
		}
		if !j.Good && s.NewSeq != 0 {
			st.add("sessions-under-broken-rules", 1)
			st.add("nontrivial", 1)
		}
	}
	vs = append(vs, warnings(r, st, m)...)
	vs = append(vs, fdhog(r)...)
	return limit(vs)
}

// warnings judges standard error: every spell of broken rules is reported,
// and the same report is not repeated back to back.
func warnings(r *Result, st Stat, m *Model) []Violation {
	var vs []Violation
	lines := stderrLines(r)
	for i, l := range lines {
		if i > 0 && l == lines[i-1] && bootOf(r, i, lines) == bootOf(r, i-1, lines) {
			vs = append(vs, v("repeated-warning", "standard error repeats %q", l))
			break
		}
	}
	// a process that served a session under broken rules has said so
	for _, b := range r.Boots {
		bad := false
		for _, s := range r.W.Sess {
			if s.Pid != b.Proc.Pid || s.NewSeq == 0 || s.NextSeq == 0 || s.Died {
				continue
			}
			// certain only if no choice of versions loads
			must, file := m.mustBreak(s)
			if !must {
				continue
			}
			bad = true
			if file != "" && len(b.EndG) > 0 && r.Settled && !reported(r, b, s, file) {
				vs = append(vs, v("silent", "session %d from %s met broken rules in %s, which standard error does not say then: %q", s.ID, s.Raddr, file, short(string(r.W.Stderr))))
			}
		}
		if bad && !r.P.SamePid {
			txt := string(r.W.Stderr[b.ErrFrom:])
			for _, o := range r.Boots {
				if o.ErrFrom > b.ErrFrom {
					txt = string(r.W.Stderr[b.ErrFrom:o.ErrFrom])
					break
				}
			}
			if strings.TrimSpace(txt) == "" {
				vs = append(vs, v("silent", "connections met broken rules but standard error says nothing"))
			}
			st.add("boots-with-broken-rules", 1)
		}
	}
	return vs
}

func stderrLines(r *Result) []string {
	t := strings.TrimSuffix(string(r.W.Stderr), "\n")
	if t == "" {
		return nil
	}
	return strings.Split(t, "\n")
}

// bootOf says which life of the daemon wrote a line of standard error.
func bootOf(r *Result, i int, lines []string) int {
	off := 0
	for k := 0; k < i; k++ {
		off += len(lines[k]) + 1
	}
	n := 0
	for k, b := range r.Boots {
		if b.ErrFrom <= off {
			n = k
		}
	}
	return n
}

// reported says whether the report of a broken file was the last one when
// the session began, or came after that.
func reported(r *Result, b *Boot, s *worldSession, file string) bool {
	before, after := "", ""
	for _, e := range r.W.Hist {
		if e.Kind != "stdio" || e.A != "<stderr>" || e.Seq < b.Seq {
			continue
		}
		if e.Seq < s.ConnSeq {
			before += e.B
		} else {
			after += e.B
		}
	}
	l := strings.Split(strings.TrimRight(before, "\n"), "\n")
	if len(l) > 2 {
		l = l[len(l)-2:]
	}
	return strings.Contains(strings.Join(l, " ")+after, file)
}

// mustBreak says whether a session's rules cannot have loaded whichever
// versions it saw, and which -r file is to blame, if that is sure.
func (m *Model) mustBreak(s *worldSession) (bool, string) {
	c := &chooser{}
	file, sure := "", true
	for {
		c.pos, c.memo = 0, map[string]int{}
		c.runs++
		sm := &sessModel{m: m, s: s, c: c, domc: map[string]string{}}
		if sm.loadRules() {
			return false, ""
		}
		if file != "" && file != sm.culprit {
			sure = false
		}
		file = sm.culprit
		if c.runs > 500 {
			return false, ""
		}
		if !c.next() {
			if !sure || file == "?" {
				file = ""
			}
			return true, file
		}
	}
}

func genC07(g *gen) {
	p := g.p
	g.k = knobs{stall: 10, reject: 40, oddAddr: 5, oddHelo: 5, setWith: 15, phase: 30, compact: 10, lists: 0, lateOnly: g.pc(70)}
	g.rbase(g.rng(1, 3), 2)
	f := &p.Flags
	if g.pc(30) {
		f.Smtplog = "/log/smtp"
		f.DnCount = g.rng(1, 2)
		f.MinPhase = g.of("", "from", "to", "accepted")
	}
	var paths []string
	for i := g.rng(1, 3); i > 0; i-- {
		nm := fmt.Sprintf("/cfg/rules%d", i)
		rf := g.rfile(g.rng(0, 2))
		if g.pc(30) {
			paths = append(paths, g.nest(rf, nm, 2, 2)...)
		}
		g.put(nm, rf)
		f.Rules = append(f.Rules, nm)
		paths = append(paths, nm)
	}
	orig := map[string]*RFile{}
	for _, x := range p.Files {
		if x.Rule != nil {
			orig[x.Path] = x.Rule
		}
	}
	g.clients(g.rng(1, 4), 3, 0)
	spread(g, 3000)
	if g.pc(85) {
		g.swaps(g.rng(1, 5), 2500, func() Op {
			pa := g.from1(paths)
			if g.pc(8) { // the file comes to include itself
				rf := g.rfile(g.rng(0, 2))
				rf.Items = append(rf.Items, Item{Inc: g.pickStr(pa, pa, g.from1(paths))})
				return Op{K: "put", Path: pa, Rule: rf}
			}
			switch g.n(8) {
			case 0, 1, 2:
				return Op{K: "put", Path: pa, Rule: g.brokenFile()}
			case 3:
				return Op{K: "del", Path: pa}
			case 4:
				return Op{K: "put", Path: pa, Rule: g.rfile(g.rng(0, 2))}
			}
			return Op{K: "put", Path: pa, Rule: orig[pa]}
		})
	}
	for i := g.n(3); i > 0; i-- {
		g.ruleFault(paths)
	}
	// and in the end all is well again
	if g.pc(50) {
		last := 3200
		for _, pa := range paths {
			p.Ops = append(p.Ops, Op{At: last, K: "put", Path: pa, Rule: orig[pa]})
		}
		g.probe()
	}
	g.slow(25, "/cfg", "fs.open", "fs.read", "fs.close", "fs.*")
	g.stealth()
}

// stealth makes some edits hard to notice from the outside: the file keeps its
// modification time, its size, or both.
func (g *gen) stealth() {
	g.prev = map[string]string{}
	for i := range g.p.Files {
		g.prev[g.p.Files[i].Path] = g.p.Files[i].text()
	}
	for i := range g.p.Ops {
		o := &g.p.Ops[i]
		if o.K != "put" {
			continue
		}
		o.Keep = g.pc(25)
		if d := len(g.prev[o.Path]) - len(o.text()); d > 0 && g.pc(40) {
			if o.Rule == nil && o.Text != "" {
				o.Text += strings.Repeat("\n", d)
			} else if o.Rule != nil && o.Rule.Broken == "" {
				r := *o.Rule
				r.Pad += d
				o.Rule = &r
			}
		}
		g.prev[o.Path] = o.text()
	}
}

// spread lets clients' connections happen over a span of time.
func spread(g *gen, span int) {
	for c := range g.p.Clients {
		for k := range g.p.Clients[c].Conns {
			if g.pc(70) {
				g.p.Clients[c].Conns[k].Wait = g.rng(0, span/2)
			}
		}
	}
}

func (g *gen) ruleFault(paths []string) {
	ft := wfault{Op: g.of("fs.open", "fs.read", "fs.read"), Match: g.from1(paths), Nth: g.rng(3, 8), Count: g.rng(1, 2), Err: g.of("EIO", "EMFILE", "EACCES", "ENOMEM", "ESTALE")}
	if ft.Op == "fs.read" && g.pc(50) {
		ft.Part = g.rng(1, 999)
	}
	g.fault(ft)
}

// C08: rules change under way.
func genC08(g *gen) {
	p := g.p
	g.k = knobs{stall: 25, reject: 55, oddAddr: 5, oddHelo: 5, setWith: 20, phase: 35, compact: 15, lists: 0, dnsOps: g.pc(15), connRule: g.pc(10)}
	g.rbase(g.rng(1, 3), 2)
	f := &p.Flags
	var paths []string
	for i := g.rng(1, 4); i > 0; i-- {
		nm := fmt.Sprintf("/cfg/rules%d", i)
		rf := g.rfile(g.rng(0, 3))
		if g.pc(25) {
			paths = append(paths, g.nest(rf, nm, 2, 2)...)
		}
		g.put(nm, rf)
		f.Rules = append(f.Rules, nm)
		paths = append(paths, nm)
	}
	if g.pc(30) {
		p.Sched.Preempt = []int{3, 8, 20}[g.n(3)]
	}
	g.clients(g.rng(2, 5), 2, 0)
	spread(g, 800)
	g.leisure(6)
	g.swaps(g.rng(0, 6), 1500, func() Op {
		if g.pc(8) {
			return Op{K: "put", Path: g.from1(paths), Rule: g.brokenFile()}
		}
		return Op{K: "put", Path: g.from1(paths), Rule: g.rfile(g.rng(0, 3))}
	})
	g.slow(25, "/cfg", "fs.open", "fs.read", "fs.close", "fs.*")
	g.stealth()
}

// leisure makes a client take its time over everything.
func (g *gen) leisure(pct int) {
	if !g.pc(pct) {
		return
	}
	c := &g.p.Clients[g.n(len(g.p.Clients))]
	for i := range c.Conns {
		var b []Act
		for _, x := range c.Conns[i].Acts {
			b = append(b, Act{K: "sleep", N: g.rng(20, 110) * 1000}, x)
		}
		c.Conns[i].Acts = b
	}
}

// C09: list files come, go, and fail.
func genC09(g *gen) {
	p := g.p
	g.k = knobs{stall: 20, reject: 60, oddAddr: 5, oddHelo: 5, setWith: 10, phase: 30, compact: 25, lists: 80, connRule: g.pc(20), relList: g.pc(20)}
	g.rbase(g.rng(1, 3), 2)
	f := &p.Flags
	if g.pc(40) {
		f.FromReject = g.addList("from")
	}
	if g.pc(40) {
		f.ToAccept = g.addList("to")
	}
	if g.pc(40) {
		f.HeloReject = g.addList("host")
	}
	for i := g.rng(0, 2); i > 0; i-- {
		nm := fmt.Sprintf("/cfg/rules%d", i)
		g.put(nm, g.rfile(g.rng(1, 3)))
		f.Rules = append(f.Rules, nm)
	}
	g.clients(g.rng(1, 4), 3, 0)
	spread(g, 1500)
	g.leisure(6)
	var paths []string
	for pa := range g.list {
		paths = append(paths, pa)
	}
	sortStrings(paths)
	if len(paths) == 0 {
		return
	}
	if g.pc(70) {
		g.swaps(g.rng(1, 6), 2000, func() Op {
			pa := g.from1(paths)
			switch g.n(7) {
			case 0:
				return Op{K: "del", Path: pa}
			case 1:
				return Op{K: "put", Path: pa, Text: g.of("", "# none\n", " \n\n")}
			}
			return Op{K: "put", Path: pa, Text: g.listText(g.list[pa], g.rng(1, 4))}
		})
	}
	for i := g.n(4); i > 0; i-- {
		ft := wfault{Op: g.of("fs.open", "fs.read", "fs.read"), Match: g.from1(paths), Nth: g.rng(1, 6), Count: g.rng(1, 2), Err: g.of("EIO", "EMFILE", "EACCES", "ENOMEM", "ESTALE")}
		if ft.Op == "fs.read" && g.pc(60) {
			ft.Part = g.rng(1, 999)
		}
		g.fault(ft)
	}
	g.slow(25, "/cfg", "fs.open", "fs.read", "fs.close", "fs.*")
	g.stealth()
}
