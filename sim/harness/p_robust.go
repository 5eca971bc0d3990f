package harness

import (
	"fmt"
	"strings"
	"time"

	"vsim/world"
)

// C14: nothing takes the daemon down or makes others wait.

func init() {
	register(&Profile{ID: "C14", Gen: genC14, Judge: judgeC14})
}

// patience is how long the daemon itself may take over one step of a client
// whose lookups are quick. The trouble other clients make lasts far longer.
const patience = 2 * time.Minute

func judgeC14(r *Result, st Stat) []Violation {
	vs := append(crashed(r), fdhog(r)...)
	for k, n := range r.W.Fired {
		st.add("fired:"+k, n)
	}
	if len(vs) > 0 {
		return limit(vs)
	}
	var b *Boot
	for _, x := range r.Boots {
		b = x
	}
	if b == nil || b.ReadySeq == 0 {
		return nil // did not come up (another property's business)
	}
	if !r.Settled {
		vs = append(vs, v("conn-leak", "three hours after the last client had gone these connections were still open: %v", r.Open))
	}
	// Messages of different sessions may wait for each other at their log.
	slowLog := false
	for _, ft := range r.P.Faults {
		slowLog = slowLog || ft.Match == "/log/msgs"
	}
	for _, w := range r.Views {
		s := w.Sess
		if s == nil {
			if w.Late {
				vs = append(vs, v("deaf", "the late client could not connect"))
			}
			continue
		}
		st.add("sessions", 1)
		st.add("kind:"+strings.TrimRight(w.Client, "0123456789"), 1)
		if s.Refused || s.Died {
			continue
		}
		if strings.HasPrefix(w.Client, "v") || w.Late {
			hi := func(what string, d time.Duration, q0, q1 int) {
				if s.Delay == 0 && d > patience && !slowDisk(r, q0, q1) {
					vs = append(vs, v("delayed", "%s %s: %s took %v although nothing it asked for was slow", w.Client, s.Raddr, what, d))
				}
			}
			end := r.EndT
			if s.CloseSeq != 0 {
				end = s.TClose
			}
			full := !w.Late && r.W.Fired["net.accept:fd-limit"] > 0
			if s.AcceptSeq == 0 && full {
				continue
			}
			if s.AcceptSeq == 0 {
				if d := r.EndT - s.TConn; d > patience {
					vs = append(vs, v("delayed", "%s %s was not accepted within %v", w.Client, s.Raddr, d))
				}
				continue
			}
			if !full {
				hi("accepting the connection", s.TAccept-s.TConn, 0, 0)
			}
			switch {
			case s.NewSeq == 0:
				hi("setting up the connection", end-s.TAccept, s.AcceptSeq, 0)
			case s.NextSeq == 0:
				hi("getting to the greeting", end-s.TAccept, s.AcceptSeq, 0)
			default:
				hi("getting to the greeting", s.TNext-s.TAccept, s.AcceptSeq, s.NextSeq)
			}
			for _, x := range s.Steps {
				t := x.T1
				if x.Seq1 == 0 || x.What == "GOTDATA" && slowLog {
					continue
				}
				hi(x.What+" "+x.Cmd, t-x.T0, x.Seq0, x.Seq1)
			}
		}
		if w.Late {
			vs = append(vs, served(r, w)...)
		}
	}
	if len(r.P.Late) > 0 && r.Settled && b.EndG != nil {
		if extra := minus(b.EndG, b.BaseG); len(extra) > 0 && len(b.EndG) > len(b.BaseG) {
			vs = append(vs, v("goroutine-leak", "%d goroutines are left over an hour after the last session: %v", len(b.EndG)-len(b.BaseG), extra))
		}
		if extra := minus(b.EndFD, b.BaseFD); len(extra) > 0 {
			vs = append(vs, v("file-leak", "files are still open after the last session: %v", extra))
		}
	}
	if len(r.P.Faults) > 0 || len(r.P.Ops) > 0 || len(r.P.Zone.Slow) > 0 {
		st.add("nontrivial", 1)
	}
	return limit(vs)
}

// slowDisk tells whether a slow file operation (of any session) began between
// two points; it may be the one that this session had to wait for.
func slowDisk(r *Result, q0, q1 int) bool {
	if q0 == 0 {
		return false
	}
	for _, e := range r.W.Hist {
		if e.Kind == "slow" && e.Seq >= q0 && (q1 == 0 || e.Seq <= q1) {
			return true
		}
	}
	return false
}

// minus is the multiset difference of sorted lists.
func minus(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var o []string
	for _, x := range a {
		if n[x] > 0 {
			n[x]--
			continue
		}
		o = append(o, x)
	}
	return o
}

// served says whether the late client got all it asked for.
func served(r *Result, w *View) []Violation {
	if w.Greet == nil {
		return []Violation{v("deaf", "the late client got no greeting: %s", w.Err)}
	}
	if w.Greet.Code != 220 {
		return []Violation{v("deaf", "the late client was greeted with %d", w.Greet.Code)}
	}
	want := []int{250, 250, 250, 354, 250, 221}
	if r.P.Flags.M {
		want[4] = 554
	}
	for i, c := range want {
		if i >= len(w.Replies) {
			return []Violation{v("deaf", "the late client got no answer to %q: %s", w.Conn.Acts[i].T, w.Err)}
		}
		if w.Replies[i].Code != c {
			return []Violation{v("deaf", "the late client got %d %q for %q, under rules that accept everything", w.Replies[i].Code, w.Replies[i].Lines, w.Conn.Acts[i].T)}
		}
	}
	return nil
}

var soupWords = strings.Fields(`include @connect @helo @from @to @data @message accept reject stall set-with or not helo all from to from-has
	to-has helo-has tls host dns ip dnsbl source dbl with message note savedir tls-opt make-yakker ehlo none bogus nodots bareip properip
	myip remip otherip nodns inconsistent noforward unqualified route quoted noat garbage domain-valid domain-invalid domain-tempfail unknown
	bad resolves baddom good exists on off no-client ( ) , ; \ # "" "." "@" "x y" "\n" file:/cfg/l0 file:/cfg/none file: /cfg/l0 ./x
	/32 0.0.0.0/0 ::/0 192.0.2. 192.0.2.0/24 1.2.3.4/99 2001:db8::/32 sbl.spamhaus.org. zen.example . .. .example @.example joe@ @ <> a@b
	helo,from ip,host "unterminated`)

func (g *gen) soupWord() string {
	switch g.n(14) {
	case 0:
		return `""`
	case 1:
		return string([]rune{rune(g.n(256)), rune(g.n(256))})
	case 2:
		return g.hostPat()
	case 3:
		return g.addrPat(g.from)
	case 4:
		return g.ipPat()
	}
	return g.from1(soupWords)
}

// soup is text that looks like rules, more or less.
func (g *gen) soup() string {
	var b strings.Builder
	for i := g.rng(1, 3); i > 0; i-- {
		switch g.n(10) {
		case 0: // noise
			for k := g.n(80); k > 0; k-- {
				b.WriteString(g.soupWord())
				if g.pc(80) {
					b.WriteByte(' ')
				}
			}
		case 1:
			n := g.rng(1, 300)
			b.WriteString("reject " + strings.Repeat("( ", n) + "all" + strings.Repeat(" )", n-g.n(2)))
		case 2:
			b.WriteString("reject " + strings.Repeat("not ", g.rng(1, 200)) + "all")
		case 3:
			t := g.rfile(g.rng(1, 3)).Text()
			for k := g.rng(1, 3); k > 0 && len(t) > 1; k-- {
				at := g.n(len(t))
				switch g.n(4) {
				case 0:
					t = t[:at] + t[at+1:]
				case 1:
					t = t[:at] + string([]byte{byte(g.n(128))}) + t[at:]
				case 2:
					t = t[:at] + " " + g.soupWord() + " " + t[at:]
				case 3:
					t = t[:at]
				}
			}
			b.WriteString(t)
		case 4:
			b.WriteString(g.of("include /cfg/rules", "include /cfg", "include /cfg/none", "include \"\"", "include /cfg/l0"))
		default: // nearly a rule
			if g.pc(30) {
				b.WriteString(g.of("@connect ", "@helo ", "@from ", "@to ", "@data ", "@message "))
			}
			b.WriteString(g.of("accept ", "reject ", "stall ", "set-with "))
			for k := g.rng(1, 3); k > 0; k-- {
				op := g.of("helo", "from", "to", "host", "ip", "from-has", "to-has", "helo-has", "dns", "tls", "dnsbl", "source", "dbl", "all")
				b.WriteString(op + " ")
				if op != "all" {
					b.WriteString(g.soupWord() + " ")
				}
				if g.pc(15) {
					b.WriteString("or ")
				}
			}
			if g.pc(40) {
				b.WriteString("with " + g.of("note", "message", "savedir", "tls-opt", "make-yakker") + " " + g.soupWord())
			}
		}
		b.WriteString(g.of("\n", "\n", "\n", "", "\r\n", "\n\n"))
	}
	return b.String()
}

// noise is what a broken or hostile client sends.
func (g *gen) noise() string {
	var b strings.Builder
	for i := g.rng(1, 6); i > 0; i-- {
		switch g.n(16) {
		case 0:
			for k := g.n(200); k > 0; k-- {
				b.WriteRune(rune(g.n(256)))
			}
		case 1:
			b.WriteString(strings.Repeat(g.of("A", ".", "\x00", "@", "<", "ÿ"), g.rng(1, 3000)))
		case 2:
			b.WriteString("EHLO " + g.of("", " ", "[", "[]", "[1.2.3.4", "[IPv6:", "[IPv6:::1]", ".", "..", "a..b", ".x", "x.", "-", "\x00", "1.2.3.4", "::1", "[192.0.2.10]", "<x>"))
		case 3:
			b.WriteString("MAIL FROM:<" + g.of("", "@", "a@", "@b", "a@b@c", "\"a@b\"@c", "@x:a@b", "a b@c", "<>", "a@.", "a@..", "a@[1.2.3.4]", "a@b.", "a@-", strings.Repeat("x", 600), "\x00@\x00", "ÿ@ÿ", "a%b@c", "a!b", ".@.", "a@\"b\"") + ">")
		case 4:
			b.WriteString("RCPT TO:<" + g.of("", "@", "a@", "@b", "a@b@c", "\"a@b\"@c", "@x:a@b", "a b@c", "<>", "a@.", "postmaster", "a@[1.2.3.4]", "a@b.") + ">")
		case 5:
			b.WriteString(g.of("DATA", "RSET", "NOOP", "HELP", "VRFY", "STARTTLS", "QUIT", "AUTH", "EXPN", "TURN", ""))
		case 6:
			b.WriteString("DATA\r\n" + g.of("", "x", "Subject: x\r\n\r\n", "\r\n\r\n", ": : :\r\n", "From \x00\r\n") + g.of(".", "..", "", ".\r", "\n."))
		case 7:
			b.WriteString("STARTTLS\r\n" + g.of("SIMTLS ok", "SIMTLS fail", "\x16\x03\x01", "EHLO x"))
		default:
			b.WriteString(g.of("EHLO x.example", "MAIL FROM:<"+g.fromAddr()+">", "RCPT TO:<"+g.toAddr()+">", "DATA\r\nSubject: x\r\n\r\nhi\r\n."))
		}
		b.WriteString(g.of("\r\n", "\r\n", "\r\n", "\n", "\r", ""))
	}
	return b.String()
}

// Slow things only troublemakers ask for.
const slowDom = "slow.trouble.example"

// idlers is how many clients sit there at once, in a few of the runs.
func (g *gen) idlers() int {
	switch {
	case g.crowd():
		return 260
	case g.pc(1):
		return g.rng(10, 70)
	}
	return 0
}

func genC14(g *gen) {
	p := g.p
	p.Calm = true
	g.k = knobs{stall: 20, reject: 25, oddAddr: 20, oddHelo: 25, dnsOps: g.pc(50), setWith: 25, phase: 40, compact: 15, lists: 20, tlsOp: true, note: true, yak: g.pc(20), savedir: g.pc(30), connRule: true}
	g.net(g.rng(2, 4))
	g.domains(2)
	g.people()
	f := &p.Flags
	f.Force = true
	if g.pc(50) {
		f.Helo = "mx.sink.example"
		if !has(g.ips, "127.0.0.1") && g.pc(20) { // of no concern
			p.Zone.Slow["127.0.0.1"] = g.rng(10, 40) * 60000
		}
	} else if g.pc(50) {
		p.Zone.PTR["127.0.0.1"] = []string{g.of("mx.local.", "mx.local", ".", "a.")}
	}
	f.NoStd = g.pc(60)
	f.M = g.pc(10)
	f.Pprof = g.pc(30)
	f.PerIP = g.pc(20)
	if g.pc(55) {
		f.Smtplog = g.of("/log/smtp", "/log/smtp", "-")
		if g.pc(40) {
			f.DnCount = g.rng(1, 4)
			f.DnDur = g.rng(60, 100000)
			if g.pc(50) {
				f.Dnlog = "/log/dn"
			}
			f.MinPhase = g.of("", "helo", "from", "to", "data", "message", "accepted")
		}
	}
	if g.pc(50) {
		f.Log = g.of("/log/msgs", "-")
	}
	if g.pc(50) {
		f.Dir = "/spool"
		g.dir("/spool")
		f.SaveHash = g.of("", "all", "full")
	}
	if g.pc(40) {
		f.Certs = []string{"server"}
		g.certs("server")
	}
	if g.pc(20) {
		f.ConnCfg = "/cfg/conn"
		p.Files = append(p.Files, File{Path: "/cfg/conn", Text: g.of("* hostname=mx.conn.example\n", "127.0.0.1 hostname=a.b\n* hostname=c\n", "")})
	}
	p.Files = append(p.Files, File{Path: "/cfg/l0", Text: g.listText(g.of("from", "host", "ip"), g.rng(0, 4)) + g.of("", "@\n", ".\n", "/\n", "\n", "\"\"\n", "::/0\n")})
	if g.pc(15) {
		f.FromReject = "/cfg/l0"
	}
	if g.pc(10) {
		f.HeloReject = "/cfg/l0"
	}
	rf := g.rfile(g.rng(0, 4))
	slow := g.pc(45)
	if slow {
		rf.Items = append(rf.Items, Item{R: &Rule{Act: "reject", Phase: "to", Cl: []Clause{{E: &Expr{Op: "from-has", Opts: []string{"unknown"}}}}}},
			Item{R: &Rule{Act: "reject", Phase: "to", Cl: []Clause{{E: &Expr{Op: "dnsbl", Arg: "sbl.spamhaus.org."}}}}})
	}
	g.put("/cfg/rules", rf)
	f.Rules = []string{"/cfg/rules"}
	if g.pc(20) {
		g.put("/cfg/rules2", g.rfile(g.rng(0, 2)))
		f.Rules = append(f.Rules, "/cfg/rules2")
	}
	for i := g.rng(0, 3); i > 0; i-- {
		path := g.from1(f.Rules)
		if g.pc(20) {
			path = "/cfg/l0"
		} else if f.ConnCfg != "" && g.pc(20) {
			path = f.ConnCfg
		}
		p.Ops = append(p.Ops, Op{At: g.rng(0, 1500), K: "put", Path: path, Text: latin(g.soup())})
	}
	if g.pc(10) {
		p.Ops = append(p.Ops, Op{At: g.rng(0, 1500), K: "skew", N: g.rng(-100000, 100000)})
	}
	if f.Pprof {
		for i := g.rng(0, 5); i > 0; i-- {
			p.Ops = append(p.Ops, Op{At: g.rng(0, 900), K: "stats"})
		}
	}
	sortOps(p.Ops)
	// victims, who are well-behaved
	g.clients(g.rng(1, 2), 2, 15)
	for i := range p.Clients {
		p.Clients[i].Name = fmt.Sprintf("v%d", i)
	}
	// troublemakers
	long := 0
	for i := g.rng(1, 3); i > 0; i-- {
		c := Client{}
		ip := g.from1(g.ips)
		for k := g.rng(1, 2); k > 0; k-- {
			cn := Connection{From: g.addrOf(ip), To: g.target(), Wait: g.n(300)}
			switch kind := g.n(9); {
			case kind == 0 && slow:
				c.Name = "slowptr"
				bad := fmt.Sprintf("198.51.100.%d", 200+i)
				long := g.rng(10, 40) * 60000
				cn.From = bad + ":" + fmt.Sprint(1000+g.n(1000))
				cn.Acts = []Act{cmd("EHLO x.example"), cmd("QUIT")}
				z := &p.Zone
				switch g.n(6) {
				default:
					z.Slow[bad] = long
				case 0:
					n := fmt.Sprintf("slow%d.trouble.example.", i)
					z.PTR[bad] = []string{n}
					z.A[n] = []string{bad}
					z.Slow[n] = long
				case 1:
					c.Name = "slowbl"
					n := fmt.Sprintf("%d.100.51.198.sbl.spamhaus.org.", 200+i)
					z.A[n] = []string{"127.0.0.2"}
					z.TXT[n] = []string{"https://example/sbl/SBL1"}
					z.Slow[g.of("A ", "TXT ")+n] = long
					cn.Acts = []Act{cmd("EHLO x.example"), cmd("MAIL FROM:<a@b.example>"), cmd("RCPT TO:<b@c.example>"), cmd("QUIT")}
				case 2:
					if f.Helo == "" {
						c.Name = "slowlocal"
						z.Slow["127.0.0.66"] = long
						cn.From = g.addrOf(ip)
						cn.To = "127.0.0.66:25"
					}
				}
			case kind == 1 && slow:
				c.Name = "slowmx"
				if g.pc(40) {
					p.Zone.MX[world.Norm(slowDom)] = []world.MX{{Host: "mx." + slowDom + ".", Pref: 10}}
					p.Zone.Slow["mx."+slowDom+"."] = g.rng(5, 14) * 60000
				} else {
					p.Zone.Slow[world.Norm(slowDom)] = g.rng(5, 14) * 60000
				}
				cn.Acts = []Act{cmd("EHLO x.example"), cmd("MAIL FROM:<a@%s>", slowDom), cmd("RCPT TO:<b@c.example>"), cmd("QUIT")}
			case kind == 2 && long < 2:
				c.Name = "idle"
				long++
				cn.Acts = g.dialog(ip, 10)
				at := g.n(len(cn.Acts))
				cn.Acts = append(cn.Acts[:at:at], Act{K: "sleep", N: g.rng(1, 30) * 60000}, Act{K: g.of("close", "reset", "vanish")})
			case kind == 3:
				c.Name = "deaf"
				for q := g.rng(1, 10); q > 0; q-- {
					cn.Acts = append(cn.Acts, Act{K: "blind", T: strings.Repeat(g.of("NOOP\r\n", "EHLO x.example\r\n", "HELP\r\n", "MAIL FROM:<a@b.example>\r\nRSET\r\n"), g.rng(1, 300))})
				}
				if g.pc(50) {
					cn.Acts = append(cn.Acts, Act{K: "sleep", N: g.rng(1, 20) * 60000})
				}
				cn.Acts = append(cn.Acts, Act{K: g.of("close", "reset", "vanish")})
			case kind == 4:
				c.Name = "drip"
				for _, x := range "EHLO drip.example\r\nMAIL FROM:<a@b.example>\r\nRCPT TO:<c@d.example>\r\nDATA\r\nx" {
					cn.Acts = append(cn.Acts, Act{K: "blind", T: string(x)})
					if g.pc(10) {
						cn.Acts = append(cn.Acts, Act{K: "sleep", N: g.n(20000)})
					}
				}
				cn.Acts = append(cn.Acts[:g.n(len(cn.Acts))], Act{K: g.of("close", "reset", "vanish")})
			case kind == 5:
				c.Name = "gone"
				cn.Acts = []Act{{K: g.of("close", "reset", "vanish")}}
			default:
				c.Name = "noise"
				for q := g.rng(1, 4); q > 0; q-- {
					cn.Acts = append(cn.Acts, Act{K: "blind", T: g.noise()})
					if g.pc(30) {
						cn.Acts = append(cn.Acts, Act{K: "sleep", N: g.n(3000)})
					}
				}
				cn.Acts = append(cn.Acts, Act{K: g.of("close", "reset", "close")})
			}
			c.Conns = append(c.Conns, cn)
		}
		c.Name += fmt.Sprint(i)
		p.Clients = append(p.Clients, c)
	}
	if k := g.idlers(); k > 0 {
		// many stuck clients at once
		for i := 0; i < k; i++ {
			ip := g.from1(g.ips)
			a := []Act{g.hello(ip)}
			switch g.n(6) {
			case 0:
				a = nil
			case 1:
				a = append(a, cmd("MAIL FROM:<%s>", g.fromAddr()), cmd("RCPT TO:<%s>", g.toAddr()), cmd("DATA"), Act{K: "blind", T: "Subject: x\r\n"})
			}
			a = append(a, Act{K: "sleep", N: g.rng(1, 20) * 60000}, Act{K: g.of("close", "reset", "vanish")})
			p.Clients = append(p.Clients, Client{Name: fmt.Sprintf("crowd%d", i), Conns: []Connection{{From: g.addrOf(ip), To: g.target(), Acts: a}}})
		}
	}
	if g.pc(10) {
		// a long history
		c := Client{Name: "many"}
		n := g.rng(8, 20)
		if g.pc(20) {
			n = g.rng(70, 150)
		}
		for i := n; i > 0; i-- {
			ip := g.from1(g.ips)
			c.Conns = append(c.Conns, Connection{From: g.addrOf(ip), To: g.target(), Acts: g.doNothing(ip)})
		}
		p.Clients = append(p.Clients, c)
	}
	// faults
	if g.pc(60) {
		for i := g.rng(1, 4); i > 0; i-- {
			ft := world.Fault{Nth: g.rng(1, 12), Count: g.rng(1, 4)}
			switch g.n(10) {
			case 9:
				ft.Count = 1
				ft.Delay = g.rng(150, 1500) * 1000
				// not the SMTP log and standard error, which all sessions share
				ft.Match = g.of("/cfg", "/cfg", "/spool", "/log")
				if ft.Match == "/log" && (p.Flags.Log == "/log/msgs" || p.Flags.Dnlog != "") {
					ft.Op, ft.Nth, ft.Match = "fs.write", g.rng(1, 3), "/log/msgs"
					if p.Flags.Dnlog != "" && (p.Flags.Log != "/log/msgs" || g.pc(60)) {
						ft.Match = "/log/dn"
						if g.pc(60) { // so that there is something to write
							ft.Nth = 1
							p.Flags.DnCount = 1
							p.Flags.MinPhase = g.of("to", "data", "message", "accepted")
						}
					}
				} else if p.Flags.Dir != "" && ft.Match == "/spool" {
					ft.Nth = g.rng(1, 4)
					ft.Op = g.of("fs.sync", "fs.create", "fs.write", "fs.link", "fs.close", "fs.opendir", "fs.syncdir")
				} else {
					ft.Match = "/cfg"
					ft.Op = g.of("fs.open", "fs.read")
				}
			case 0, 1:
				ft.Op, ft.Err = "net.accept", g.of("ECONNABORTED", "EMFILE", "ENFILE", "ENOMEM", "EINTR")
				ft.Nth = g.rng(1, 4)
				if g.pc(30) {
					ft.Count = g.rng(5, 200)
				}
			case 2:
				ft.Op, ft.Err = "net.read", g.of("ECONNRESET", "ETIMEDOUT", "EIO")
			case 3:
				ft.Op, ft.Err = "net.write", g.of("EPIPE", "ECONNRESET")
			case 4:
				ft.Op, ft.Err = g.of("dns.A", "dns.MX", "dns.PTR", "dns.*", "dns.TXT"), g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0", "EMFILE", "NX")
			case 5:
				ft.Op, ft.Err = "fs.open", g.of("EMFILE", "ENFILE", "EIO", "EACCES", "ENOENT")
				ft.Nth += 4
			case 6:
				ft.Op, ft.Err = "fs.read", "EIO"
				ft.Nth += 3
			case 7:
				ft.Op, ft.Err = g.of("fs.write", "fs.write", "fs.sync", "fs.close"), g.of("ENOSPC", "EIO", "EDQUOT")
			case 8:
				ft.Op, ft.Err = g.of("fs.create", "fs.link", "fs.remove", "fs.opendir"), g.of("ENOSPC", "EIO", "EACCES", "EMFILE")
				ft.Nth += 2
			}
			g.fault(ft)
		}
	}
	if g.pc(10) {
		p.MaxFD = g.rng(3, 20)
	}
	// afterwards the rules accept everything
	end := 0
	if n := len(p.Ops); n > 0 {
		end = p.Ops[n-1].At
	}
	for i, x := range f.Rules {
		t := ""
		if i == 0 {
			t = "accept all\n"
		}
		p.Late = nil
		p.Ops = append(p.Ops, Op{At: end + 4000, K: "put", Path: x, Text: t})
	}
	p.Ops = append(p.Ops, Op{At: end + 4000, K: "del", Path: "/cfg/l0"})
	if f.ConnCfg != "" {
		p.Ops = append(p.Ops, Op{At: end + 4000, K: "put", Path: f.ConnCfg, Text: "* hostname=mx.conn.example\n"})
	}
	g.probe()
}

// latin makes sure that text is valid UTF-8, so that replay files are exact.
func latin(s string) string { return strings.ToValidUTF8(s, "?") }
