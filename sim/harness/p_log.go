package harness

import (
	"fmt"
	"net"
	"regexp"
	"strconv"
	"strings"

	"vsim/world"
)

// C12: the SMTP log. What the SMTP library handed to each session's logger
// is known; the log must hold exactly that, line by line and session by
// session, whatever else is being logged at the same time.

func init() {
	register(&Profile{ID: "C12", Gen: genC12, Judge: judgeC12})
}

type logRec struct {
	pos  int
	text string // after the prefix, without the newline
}

func judgeC12(r *Result, st Stat) []Violation {
	vs := crashed(r)
	f := &r.P.Flags
	m := NewModel(r)
	txt := ""
	if f.Smtplog == "-" {
		txt = string(r.W.Stdout)
	} else {
		txt, _ = r.W.FS.Get(f.Smtplog)
	}
	var faults []int
	for _, e := range r.W.Hist {
		if e.Kind == "fault" && e.B == f.Smtplog && strings.HasPrefix(e.A, "fs.write:") {
			faults = append(faults, e.Seq)
		}
	}
	crash := false
	for _, e := range r.W.Hist {
		if e.Kind == "crash" {
			crash = true
		}
	}
	// the log, by prefix
	recs := map[string][]logRec{}
	if txt != "" && !strings.HasSuffix(txt, "\n") && len(faults) == 0 {
		vs = append(vs, v("torn", "the SMTP log ends in the middle of a line: %q", short(txt[strings.LastIndexByte(txt, '\n')+1:])))
	}
	for i, l := range strings.Split(strings.TrimSuffix(txt, "\n"), "\n") {
		if l == "" && txt == "" {
			continue
		}
		x := slogRe.FindStringSubmatch(l)
		if x == nil {
			if len(faults) == 0 {
				vs = append(vs, v("mangled", "the SMTP log has the line %q", short(l)))
			}
			continue
		}
		recs[x[1]] = append(recs[x[1]], logRec{i, x[2]})
	}
	owner := map[string]*world.Session{}
	var opened []string
	for p := range recs {
		opened = append(opened, p)
	}
	sortStrings(opened)
	find := func(s *world.Session) string {
		for _, p := range opened {
			for _, x := range recs[p] {
				if strings.HasPrefix(x.text, "# remote "+s.Raddr+" at ") {
					return p
				}
			}
		}
		return ""
	}
	opt := JudgeOpt{NoMsg: true, All: true,
		Stalled:  func(s *world.Session) bool { return !s.HasLog },
		RsetDrop: func(s *world.Session, i int) bool { return f.DnCount > 0 && s.HasLog && i == len(s.Steps)-1 }}
	busy := 0
	for _, s := range r.W.Sess {
		if s.NewSeq == 0 {
			continue
		}
		st.add("sessions", 1)
		hurt := false
		hi := s.CloseSeq
		if hi == 0 {
			hi = r.EndSeq
		}
		for _, q := range faults {
			if q >= s.ConnSeq && q <= hi {
				hurt = true
			}
		}
		p := find(s)
		if len(faults) > 0 {
			p = ""
			if x := regexp.MustCompile("(" + strconv.Itoa(s.Pid) + `/\d+)# remote ` + regexp.QuoteMeta(s.Raddr) + " at ").FindStringSubmatch(txt); x != nil {
				p = x[1]
			}
		}
		if !s.HasLog {
			st.add("unlogged", 1)
			if p != "" {
				vs = append(vs, v("stalled-logged", "the stalled session of %s is in the SMTP log", s.Raddr))
			}
			if f.DnCount == 0 {
				vs = append(vs, v("not-logged", "the session of %s has no log although do-nothing clients are not looked for", s.Raddr))
			}
			continue
		}
		// verdicts do not depend on the log's health
		var noteSets [][]string
		o2 := opt
		o2.Each = func(j *Judged) { noteSets = append(noteSets, notesOf(s, j)) }
		j := m.Judge(s, o2)
		if !j.OK {
			vs = append(vs, v("verdict", "session %d from %s: %s", s.ID, s.Raddr, j.Why))
			continue
		}
		if hurt {
			st.add("sessions-during-log-trouble", 1)
			continue
		}
		var want []string
		for _, l := range s.LogLines {
			if l.Seq1 != 0 {
				want = append(want, strings.TrimSuffix(l.Text, "\n"))
			}
		}
		if len(want) == 0 {
			continue
		}
		if p == "" {
			vs = append(vs, v("lost", "the session of %s is not in the SMTP log", s.Raddr))
			continue
		}
		if o := owner[p]; o != nil {
			vs = append(vs, v("shared-id", "the sessions of %s and %s are both logged as %s", o.Raddr, s.Raddr, p))
			continue
		}
		owner[p] = s
		if !strings.HasPrefix(p, fmt.Sprintf("%d/", s.Pid)) {
			vs = append(vs, v("id", "the session of %s in process %d is logged as %s", s.Raddr, s.Pid, p))
		}
		if len(faults) > 0 {
			// what follows a torn line is glued to it, so lines of
			// this session need not start where lines start
			rest := txt
			for i, l := range want {
				at := strings.Index(rest, p+l+"\n")
				if at < 0 {
					vs = append(vs, v("incomplete", "session %s of %s, without log trouble in its time: the SMTP log lacks %q (line %d of %d)", p, s.Raddr, short(l), i+1, len(want)))
					break
				}
				rest = rest[at+len(p+l):]
			}
			st.add("sessions-after-log-trouble", 1)
			continue
		}
		got := recs[p]
		k := 0
		var extra []string
		for _, x := range got {
			if k < len(want) && x.text == want[k] {
				k++
				continue
			}
			extra = append(extra, x.text)
		}
		st.add("lines", len(want))
		if k < len(want) {
			vs = append(vs, v("incomplete", "session %s of %s: the SMTP log lacks %q (line %d of %d)", p, s.Raddr, short(want[k]), k+1, len(want)))
			continue
		}
		var notes []string
		for _, x := range extra {
			if !strings.HasPrefix(x, "! ") {
				if s.Died && x == last(s.LogLines) {
					continue
				}
				vs = append(vs, v("foreign", "session %s of %s: the SMTP log has %q, which is not of this session", p, s.Raddr, short(x)))
			}
			if strings.HasPrefix(x, "! rule note: ") {
				notes = append(notes, x[len("! rule note: "):])
			}
		}
		for _, w := range hitsTrue(r, s, extra) {
			vs = append(vs, v("notes", "session %s of %s: %s", p, s.Raddr, w))
		}
		for _, w := range domsTrue(r, s, extra, st) {
			vs = append(vs, v("domains", "session %s of %s: %s", p, s.Raddr, w))
		}
		if !j.Unsure && !j.Part && !s.Died && s.CloseSeq != 0 {
			ok := false
			for _, n := range noteSets {
				if same(n, notes) {
					ok = true
				}
			}
			if !ok {
				vs = append(vs, v("notes", "session %s of %s: the rules noted %q, the SMTP log has %q", p, s.Raddr, noteSets[0], notes))
			}
			st.add("notes", len(notes))
		}
		if overlaps(r, s) {
			busy++
		}
	}
	if len(faults) == 0 && !crash {
		for _, p := range opened {
			if owner[p] == nil && len(vs) == 0 {
				vs = append(vs, v("foreign", "the SMTP log has lines of %s, which is no session's: %q", p, short(recs[p][0].text)))
			}
		}
	}
	if busy > 0 {
		st.add("nontrivial", 1)
		st.add("overlapping-sessions", busy)
	}
	if f.DnCount > 0 && len(vs) == 0 {
		// who is stalled, and so not logged
		vs = append(vs, judgeC10(r, Stat{})...)
	}
	return limit(vs)
}

func last(l []world.LogLine) string {
	if len(l) == 0 {
		return ""
	}
	return strings.TrimSuffix(l[len(l)-1].Text, "\n")
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// notesOf lists the rule notes a session's explanation calls for.
func notesOf(s *world.Session, j *Judged) []string {
	var l []string
	if n := j.Conn["note"]; n != "" {
		l = append(l, n)
	}
	for i := range j.Exps {
		if n := j.Exps[i].Props["note"]; n != "" {
			l = append(l, n)
		}
	}
	return l
}

// listed puts a rule in front that asks a blocklist.
func (g *gen) listed(rf *RFile) {
	d := g.of("bl.example", "sbl.spamhaus.org")
	g.blProb("ip", d)
	rf.Items = append([]Item{{R: &Rule{Act: "set-with", Phase: g.of("helo", "from", "to"), Cl: []Clause{{E: &Expr{Op: "dnsbl", Arg: d}, W: []With{{"message", "listed"}}}}}}}, rf.Items...)
}

// logHits applies hitsTrue to all of the SMTP log.
func logHits(r *Result) []Violation {
	f := &r.P.Flags
	if f.Smtplog == "" || f.Smtplog == "-" {
		return nil
	}
	for _, e := range r.W.Hist {
		if e.Kind == "fault" && e.B == f.Smtplog {
			return nil
		}
	}
	var vs []Violation
	txt, _ := r.W.FS.Get(f.Smtplog)
	got := map[string][]string{}
	for _, l := range strings.Split(txt, "\n") {
		if x := slogRe.FindStringSubmatch(l); x != nil && strings.HasPrefix(x[2], "! ") {
			got[x[1]] = append(got[x[1]], x[2])
		}
	}
	by := map[string]string{}
	for p, a := range prefixes(r) {
		by[a] = p
	}
	for _, s := range r.W.Sess {
		p := by[s.Raddr]
		if s.NewSeq == 0 || !s.HasLog || p == "" {
			continue
		}
		for _, w := range hitsTrue(r, s, got[p]) {
			vs = append(vs, v("hits", "session %s of %s: %s", p, s.Raddr, w))
		}
	}
	return vs
}

var listDoms = []string{"bl.example.", "bl2.example.", "dbl.example.", "sbl.spamhaus.org."}

// hitsTrue checks what the daemon itself notes about a session: blocklist
// hits, what they are listed for, and client certificates.
func hitsTrue(r *Result, s *world.Session, extra []string) []string {
	var bad []string
	f := func(t string, a ...interface{}) { bad = append(bad, fmt.Sprintf(t, a...)) }
	hi := s.CloseSeq
	if hi == 0 {
		hi = r.EndSeq
	}
	alone, mine := true, true // of all clients, of those of its address
	for _, o := range r.W.Sess {
		oh := o.CloseSeq
		if oh == 0 {
			oh = r.EndSeq
		}
		if o == s || oh < s.ConnSeq || o.ConnSeq > hi {
			continue
		}
		alone = false
		mine = mine && hostOf(o.Raddr) != hostOf(s.Raddr)
	}
	rev := ""
	if q := strings.Split(hostOf(s.Raddr), "."); len(q) == 4 {
		rev = q[3] + "." + q[2] + "." + q[1] + "." + q[0] + "."
	}
	hit := map[string]bool{}  // may be noted
	must := map[string]bool{} // is to be noted
	txt := map[string]bool{}
	for _, a := range r.W.DNSSeen {
		if a.Seq < s.ConnSeq || a.Seq > hi {
			continue
		}
		if a.Kind == "TXT" {
			txt[a.Res+" "+a.Name] = true
		}
		if a.Kind != "A" || a.Res != "ok" {
			continue
		}
		for _, d := range listDoms {
			if !strings.HasSuffix(a.Name, "."+d) {
				continue
			}
			if own := rev != "" && a.Name == rev+d; own || !revRe.MatchString(a.Name) {
				hit[d] = true
				if alone || own && mine {
					must[d] = true
				}
			}
		}
	}
	noted := map[string]bool{}
	var want []string
	for _, t := range r.P.Zone.TXT[rev+"sbl.spamhaus.org."] {
		if i := strings.LastIndexByte(t, '/'); i >= 0 && i < len(t)-1 {
			want = append(want, t[i+1:])
		}
	}
	sortStrings(want)
	sbl := "! SBL records: " + strings.Join(want, " ")
	cert := 0
	for i, x := range extra {
		switch {
		case strings.TrimSpace(x) == "! dnsbl hit:" || strings.TrimSpace(x) == "! SBL records:":
			f("the SMTP log has %q, which names nothing", x)
		case strings.HasPrefix(x, "! dnsbl hit: "):
			due := false
			for _, d := range strings.Fields(x[len("! dnsbl hit: "):]) {
				noted[d] = true
				if !hit[d] {
					f("the SMTP log says %q, but %s listed nothing of this session", x, d)
				}
				due = due || d == "sbl.spamhaus.org." && rev != "" && len(want) > 0
			}
			if due && txt["temp "+rev+"sbl.spamhaus.org."] {
				continue
			}
			if due && (i+1 >= len(extra) || extra[i+1] != sbl) && !s.Died && s.CloseSeq != 0 {
				f("the SMTP log has %q without %q next", x, sbl)
			}
		case strings.HasPrefix(x, "! SBL records: "):
			if x != sbl || i == 0 || !strings.HasPrefix(extra[i-1], "! dnsbl hit: ") {
				f("the SMTP log has %q, the records are %q", x, want)
			}
		case strings.HasPrefix(x, "! TLS client certificate for "):
			cert++
			if s.TLS == nil || len(s.TLS.PeerCertificates) == 0 {
				f("the SMTP log has %q, but the client showed no certificate", x)
				continue
			}
			cn, ok := certTruth(s)
			if cn != "" && !strings.Contains(x, "'"+cn+"'") || ok == strings.Contains(x, "doesn't verify") {
				f("the SMTP log has %q, the certificate is for %q and that it verifies is %v", x, cn, ok)
			}
		}
	}
	if s.Died || s.CloseSeq == 0 {
		return bad
	}
	for _, d := range listDoms {
		if must[d] && !noted[d] {
			f("%s lists the client, and the SMTP log does not say so", d)
		}
	}
	n := 0
	for _, x := range s.Steps {
		if (x.Cmd == "EHLO" || x.Cmd == "HELO") && x.TLSOn && x.Code/100 == 2 && s.TLS != nil && len(s.TLS.PeerCertificates) > 0 {
			n = 1
		}
	}
	if n != cert {
		f("the SMTP log has %d lines about client certificates, want %d", cert, n)
	}
	return bad
}

// domsTrue checks the notes about domains of addresses that do not resolve.
func domsTrue(r *Result, s *world.Session, extra []string, st Stat) []string {
	var bad []string
	f := func(t string, a ...interface{}) { bad = append(bad, fmt.Sprintf(t, a...)) }
	hi := s.CloseSeq
	if hi == 0 {
		hi = r.EndSeq
	}
	// domains of a session's addresses
	domsOf := func(s *world.Session) map[string]string {
		o := map[string]string{}
		for _, x := range s.Steps {
			if strings.HasPrefix(x.Cmd, "MAIL") || strings.HasPrefix(x.Cmd, "RCPT") {
				if i := strings.IndexByte(x.Arg, '@'); i >= 0 {
					o[x.Arg[i+1:]] = world.Norm(x.Arg[i+1:])
				}
			}
		}
		return o
	}
	mine := domsOf(s)
	shared := map[string]bool{}
	for _, o := range r.W.Sess {
		oh := o.CloseSeq
		if oh == 0 {
			oh = r.EndSeq
		}
		if o != s && oh >= s.ConnSeq && o.ConnSeq <= hi {
			for _, n := range domsOf(o) {
				shared[n] = true
			}
		}
	}
	ans := map[string]map[string]bool{}
	for _, a := range r.W.DNSSeen {
		if a.Seq >= s.ConnSeq && a.Seq <= hi {
			k := a.Kind + " " + a.Name
			if ans[k] == nil {
				ans[k] = map[string]bool{}
			}
			ans[k][a.Res] = true
		}
	}
	only := func(k, res string) bool { return len(ans[k]) == 1 && ans[k][res] }
	zones := []*world.Zone{&r.P.Zone}
	if r.P.Zone2 != nil {
		zones = append(zones, r.P.Zone2)
	}
	// fine says that every answer says that mail could be sent there
	fineHost := func(n string) bool {
		if !only("A "+n, "ok") {
			return false
		}
		for _, z := range zones {
			for _, a := range z.A[n] {
				ip := net.ParseIP(a)
				if !ip.IsGlobalUnicast() {
					return false
				}
				for _, b := range badNets {
					if b.Contains(ip) {
						return false
					}
				}
			}
		}
		return true
	}
	fine := func(n string) bool {
		if only("MX "+n, "nx") {
			return fineHost(n)
		}
		if !only("MX "+n, "ok") {
			return false
		}
		one := false
		for _, z := range zones {
			for _, mx := range z.MX[n] {
				h := world.Norm(mx.Host)
				if h == "." || h == "localhost." || !world.ValidName(mx.Host) {
					return false
				}
				one = one || fineHost(h)
			}
		}
		return one
	}
	failed := func(n string) bool {
		return only("MX "+n, "temp") || only("MX "+n, "nx") && (only("A "+n, "nx") || only("A "+n, "temp"))
	}
	noted := map[string]bool{}
	for _, x := range extra {
		if !strings.HasPrefix(x, "! domain ") {
			continue
		}
		st.add("domain-notes", 1)
		d := x[len("! domain "):]
		if i := strings.Index(d, ": "); i >= 0 {
			d = d[:i]
		}
		noted[d] = true
		n, ok := mine[d]
		switch {
		case !ok:
			f("the SMTP log says %q, which is the domain of no address of this session", x)
		case len(ans["MX "+n]) == 0 && world.ValidName(n):
			f("the SMTP log says %q, but the domain was not looked up", x)
		case fine(n):
			f("the SMTP log says %q, but all answers about it were good", x)
		}
	}
	if s.Died || s.CloseSeq == 0 {
		return bad
	}
	// the domains that this session asked about
	asked, fails := 0, ""
	for d, n := range mine {
		if len(ans["MX "+n]) > 0 || !world.ValidName(n) {
			asked++ // or known to be bad without asking
		}
		if !shared[n] && failed(n) {
			fails = d
		}
	}
	if fails != "" && asked == 1 {
		st.add("domain-failures", 1)
		if !noted[fails] {
			f("the lookup of domain %s failed, and the SMTP log does not say so", fails)
		}
	}
	return bad
}

var revRe = regexp.MustCompile(`^(\d+\.){4}[a-z]`)

func hostOf(a string) string {
	h, _, _ := net.SplitHostPort(a)
	return h
}

// certTruth is the name in the client's certificate and whether it verifies.
func certTruth(s *world.Session) (cn string, ok bool) {
	l := s.TLS.PeerCertificates
	if len(l) == 0 {
		return "", false
	}
	cn = l[0].Subject.CommonName
	if cn == "" && len(l[0].DNSNames) > 0 {
		cn = l[0].DNSNames[0]
	}
	return cn, l[0] == world.Cert("good") || l[0] == world.Cert("good2")
}

func overlaps(r *Result, s *world.Session) bool {
	hi := s.CloseSeq
	if hi == 0 {
		hi = r.EndSeq
	}
	for _, o := range r.W.Sess {
		if o != s && o.NewSeq != 0 && o.HasLog && o.NewSeq < hi && (o.CloseSeq == 0 || o.CloseSeq > s.NewSeq) {
			return true
		}
	}
	return false
}

func genC12(g *gen) {
	p := g.p
	g.k = knobs{stall: 15, reject: 30, oddAddr: 8, oddHelo: 12, setWith: 40, phase: 40, compact: 10, note: true, dnsOps: g.pc(35), tlsOp: g.pc(20), connRule: g.pc(15), lists: 0, yak: g.pc(10)}
	g.rbase(g.rng(1, 3), 2)
	f := &p.Flags
	f.Smtplog = g.of("/log/smtp", "/log/smtp", "/log/smtp", "-")
	if g.pc(25) {
		f.DnCount = g.rng(1, 3)
		f.MinPhase = g.of("", "to", "accepted")
	}
	if g.pc(30) {
		f.Certs = []string{"s1"}
		g.certs("s1")
	}
	f.S = g.pc(5)
	rf := g.rfile(g.rng(0, 4))
	if g.k.dnsOps && g.pc(60) {
		g.listed(rf)
	}
	g.put("/cfg/rules", rf)
	f.Rules = []string{"/cfg/rules"}
	if g.pc(30) {
		p.Sched.Preempt = []int{3, 8, 20}[g.n(3)]
	}
	tls := 0
	if len(f.Certs) > 0 {
		tls = 40
	}
	g.clients(g.rng(2, 5), 2, tls)
	for c := range p.Clients {
		for k := range p.Clients[c].Conns {
			cn := &p.Clients[c].Conns[k]
			cn.Wait = g.rng(0, 60)
			switch g.n(14) {
			case 0: // long lines
				cn.Acts = append([]Act{cmd("EHLO %s", strings.Repeat("x", g.rng(200, 1900)))}, cn.Acts...)
			case 1:
				cn.Acts = append([]Act{cmd("%s", g.of("\u00ff\u0001\u0080 binary", "a\rb", "%s%n%d", "1007/1# remote fake", "  ", "\t"))}, cn.Acts...)
			case 2:
				cn.Acts = append([]Act{{K: "pipe", T: "EHLO pipe.d1.example\r\nNOOP\r\nNOOP\r\n", N: 3}}, cn.Acts...)
			}
		}
	}
	if g.pc(15) {
		if f.DnCount > 0 || g.pc(30) {
			f.DnCount = g.rng(1, 2)
			f.DnDur = g.rng(100, 4000)
		}
		p.Ops = append(p.Ops, Op{At: g.rng(0, 600), K: "put", Path: "/cfg/rules", Rule: g.brokenFile()})
		if g.pc(50) {
			p.Ops = append(p.Ops, Op{At: g.rng(300, 1500), K: "put", Path: "/cfg/rules", Rule: g.rfile(g.rng(0, 4))})
		}
	}
	if f.Smtplog != "-" && g.pc(25) {
		for i := g.rng(1, 3); i > 0; i-- {
			ft := wfault{Op: "fs.write", Match: f.Smtplog, Nth: g.rng(1, 60), Count: g.rng(1, 8), Err: g.of("ENOSPC", "EIO", "EDQUOT")}
			if g.pc(50) {
				ft.Part = g.rng(1, 999)
			}
			g.fault(ft)
		}
		g.probe()
	}
	if g.pc(10) {
		p.Ops = append(p.Ops, Op{At: g.rng(0, 1500), K: "crash"})
	}
	if g.pc(15) {
		p.Ops = append(p.Ops, Op{At: g.rng(0, 1500), K: "skew", N: []int{-3600, 7200, 86400}[g.n(3)]})
	}
	sortOps(p.Ops)
	if g.crowd() {
		f.DnCount, p.Ops = 0, nil
		g.throng(150)
	}
	g.slow(20, "/log", "fs.write")
}
