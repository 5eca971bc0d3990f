package harness

import (
	"strings"
)

// where shortens a stack trace to the daemon's own frames.
func where(st string) string {
	var l []string
	lines := strings.Split(st, "\n")
	for i, x := range lines {
		if strings.HasPrefix(x, "vsut.") && i+1 < len(lines) {
			f := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndexByte(f, '/'); j >= 0 {
				f = f[j+1:]
			}
			if j := strings.IndexByte(f, ' '); j >= 0 {
				f = f[:j]
			}
			fn := x
			if j := strings.LastIndexByte(fn, '('); j >= 0 {
				fn = fn[:j]
			}
			l = append(l, fn+" "+f)
		}
		if len(l) >= 8 {
			break
		}
	}
	return strings.Join(l, " < ")
}

func judgeSessions(r *Result, st Stat, opt JudgeOpt, class string) []Violation {
	var vs []Violation
	m := NewModel(r)
	for _, s := range r.W.Sess {
		j := m.Judge(s, opt)
		st.add("sessions", 1)
		if j.Unsure {
			st.add("unsure", 1)
			continue
		}
		if !j.OK {
			vs = append(vs, v(class, "session %d from %s: %s", s.ID, s.Raddr, j.Why))
			continue
		}
		for _, e := range j.Exps {
			if e.Act != "" {
				st.add("verdict:"+e.Act, 1)
			}
		}
	}
	return vs
}

// dirsAsTold checks that messages are in the directories that the rules
// choose and in no others.
func dirsAsTold(r *Result, st Stat) []Violation {
	var vs []Violation
	want := map[string]bool{}
	sure := true
	for _, m := range messages(r) {
		if !m.dirKnown || m.st.Code == 0 {
			sure = false
			continue
		}
		if m.dir == "" && len(m.alt) == 0 {
			continue
		}
		if m.st.Code/100 == 4 && m.id == "" {
			sure = false // saved, but under what name is not said
			continue
		}
		if m.id == "" {
			continue
		}
		none := false // it may be that nothing told where to save it
		for _, d := range append([]string{m.dir}, m.alt...) {
			want[d+"/"+m.id] = true
			none = none || d == ""
		}
		st.add("saved", 1)
		if _, ok := m.file(r); !ok && !none {
			vs = append(vs, v("savedir", "message %d of %s (answered %d) is not in %s, where the rules put it", m.k, m.s.Raddr, m.st.Code, m.dir))
		}
	}
	if !sure {
		return vs
	}
	for _, d := range []string{"/save", "/save2", "/save3"} {
		for _, n := range r.W.FS.List(d) {
			if isHex40.MatchString(n) && !want[d+"/"+n] {
				vs = append(vs, v("savedir", "there is a message %s in %s that the rules did not put there", n, d))
			}
		}
	}
	return vs
}

// notesAsTold checks the notes in the SMTP log against the rules.
func notesAsTold(r *Result, st Stat) []Violation {
	f := &r.P.Flags
	if f.Smtplog == "" || f.Smtplog == "-" {
		return nil
	}
	for _, e := range r.W.Hist {
		if e.Kind == "fault" && e.B == f.Smtplog || e.Kind == "crash" {
			return nil
		}
	}
	var vs []Violation
	m := NewModel(r)
	txt, _ := r.W.FS.Get(f.Smtplog)
	got := map[string][]string{}
	for _, l := range strings.Split(txt, "\n") {
		if x := slogRe.FindStringSubmatch(l); x != nil && strings.HasPrefix(x[2], "! rule note: ") {
			got[x[1]] = append(got[x[1]], x[2][len("! rule note: "):])
		}
	}
	by := map[string]string{}
	for p, a := range prefixes(r) {
		by[a] = p
	}
	for _, s := range r.W.Sess {
		p := by[s.Raddr]
		if s.NewSeq == 0 || !s.HasLog || s.Died || s.CloseSeq == 0 || p == "" {
			continue
		}
		var sets [][]string
		j := m.Judge(s, JudgeOpt{NoMsg: true, All: true, Each: func(j *Judged) { sets = append(sets, notesOf(s, j)) }})
		if !j.OK || j.Unsure || j.Part {
			continue
		}
		ok := false
		for _, n := range sets {
			ok = ok || same(n, got[p])
		}
		st.add("notes", len(got[p]))
		if !ok {
			vs = append(vs, v("notes", "session %s of %s: the rules note %q, the SMTP log has %q", p, s.Raddr, sets[0], got[p]))
		}
	}
	return vs
}

func init() {
	register(&Profile{ID: "C05", Gen: genC05, Judge: func(r *Result, st Stat) []Violation {
		vs := append(crashed(r), judgeSessions(r, st, JudgeOpt{}, "verdict")...)
		vs = append(vs, dirsAsTold(r, st)...)
		vs = append(vs, notesAsTold(r, st)...)
		if st["verdict:reject"]+st["verdict:stall"] > 0 {
			st.add("nontrivial", 1)
		}
		return limit(vs)
	}})
}

func genC05(g *gen) {
	p := g.p
	g.k = knobs{stall: 30, reject: 55, oddAddr: 20, oddHelo: 25, dnsOps: g.pc(70), setWith: 25, phase: 35, compact: 20, lists: 15, tlsOp: g.pc(60), note: false, connRule: g.pc(20), relList: g.pc(20)}
	if g.pc(35) {
		g.k.savedir = true
		if g.pc(50) {
			p.Flags.Dir = "/save"
		}
		p.Flags.SaveHash = g.of("all", "full", "")
		g.dir("/save")
		g.dir("/save2")
		g.dir("/save3")
	}
	g.net(g.rng(2, 4))
	g.domains(g.rng(2, 4))
	g.people()
	f := &p.Flags
	f.Force = true
	f.Helo = "mx.sink.example"
	f.NoStd = g.pc(40)
	f.M = g.pc(10)
	if g.pc(50) {
		f.Smtplog = "/log/smtp"
		g.k.note = g.pc(50)
	}
	if g.pc(20) {
		f.FromReject = g.addList("from")
	}
	if g.pc(20) {
		f.ToAccept = g.addList("to")
	}
	if g.pc(20) {
		f.HeloReject = g.addList("host")
	}
	if g.k.tlsOp && g.pc(60) {
		f.Certs = []string{"s1"}
		g.certs("s1")
	}
	n := g.rng(0, 3)
	for i := 0; i < n; i++ {
		nm := "/cfg/rules" + string(rune('a'+i))
		rf := g.rfile(g.rng(0, 5))
		if g.pc(20) {
			g.nest(rf, nm, 2, 3)
		}
		g.put(nm, rf)
		f.Rules = append(f.Rules, nm)
	}
	g.clients(g.rng(1, 4), 2, 40)
	if g.pc(30) {
		g.dnsFaults(g.rng(1, 3))
	}
}
