package harness

import (
	"fmt"
	"net"
	"strings"

	"vsim/world"
)

// C13: which name and certificates a connection gets.

func init() {
	register(&Profile{ID: "C13", Gen: genC13, Judge: judgeC13})
}

// connSet is what a connection is configured with.
type connSet struct {
	name  string
	certs []string
}

func (c connSet) String() string { return fmt.Sprintf("name %s, certificates %v", c.name, c.certs) }

// fileVers are the contents a session may have read of a file; broken stands
// for a failed read.
func (m *Model) fileVers(p string, s *world.Session, lo, hi int) []string {
	vs := m.versions(p, lo, hi)
	hit, only := m.ioFaults(clean(p), s, lo, hi)
	if hit {
		if only {
			return []string{broken}
		}
		vs = append(append([]string(nil), vs...), broken)
	}
	return vs
}

// connCfg reads the documented format; ok is false if there is an error.
// load says whether (and as whom) certificate files load.
func connCfg(t string, load func(cert, key string) ([]string, bool)) (lines []connLine, ok bool) {
	for _, l := range strings.Split(t, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		f := strings.Fields(l)
		cl := connLine{local: f[0]}
		if len(f) > 4 {
			return nil, false
		}
		var cert, key string
		for _, x := range f[1:] {
			i := strings.IndexByte(x, '=')
			if i < 0 {
				return nil, false
			}
			switch x[:i] {
			case "hostname":
				cl.name = x[i+1:]
			case "cert":
				cert = x[i+1:]
			case "key":
				key = x[i+1:]
			default:
				return nil, false
			}
		}
		if (cert == "") != (key == "") {
			return nil, false
		}
		if cert != "" {
			n, ok := load(cert, key)
			if !ok {
				return nil, false
			}
			cl.certs = n
		}
		lines = append(lines, cl)
	}
	return lines, true
}

type connLine struct {
	local, name string
	certs       []string
}

func (c *connLine) matches(laddr string) bool {
	if c.local == "*" || c.local == laddr {
		return true
	}
	h, _, _ := net.SplitHostPort(laddr)
	return matchIP(h, c.local)
}

// loadPair is what loading certificates from files of these contents gives.
func loadPair(c, k string) (string, bool) {
	if c == "\x00missing" || k == "\x00missing" || c == broken || k == broken {
		return "", false
	}
	x, err := world.KeyPair([]byte(c), []byte(k))
	if err != nil || len(x.Certificate) == 0 {
		return "", false
	}
	return leafName(x.Certificate[0]), true
}

func judgeC13(r *Result, st Stat) []Violation {
	vs := crashed(r)
	f := &r.P.Flags
	m := NewModel(r)
	for _, s := range r.W.Sess {
		if s.NewSeq == 0 {
			continue
		}
		st.add("sessions", 1)
		lo, hi := s.ConnSeq, s.NewSeq
		base := connSet{name: f.Helo}
		for _, c := range f.Certs {
			n, ok := loadPair(string(world.PEM(c+".crt")), string(world.PEM(c+".key")))
			if !ok {
				panic("judge: no certificate " + c)
			}
			base.certs = append(base.certs, n)
		}
		// every combination of what the connection may have seen
		c := &chooser{}
		var cands []string
		seen := map[string]bool{}
		okAny := false
		got := connSet{s.LocalName, s.Cert0}
		for {
			c.pos, c.memo = 0, map[string]int{}
			c.runs++
			sm := &sessModel{m: m, s: s, c: c, at: hi}
			set := base
			if set.name == "" {
				set.name = s.Laddr
				lip, _, _ := net.SplitHostPort(s.Laddr)
				if sm.dns("PTR", lip, "local") == "ok" {
					l := r.P.Zone.PTR[lip]
					set.name = strings.TrimSuffix(l[c.pick("ptr", len(l))], ".")
				}
			}
			matched, errs := false, false
			if f.ConnCfg != "" {
				vv := m.fileVers(f.ConnCfg, s, lo, hi)
				t := vv[c.pick("conncfg", len(vv))]
				if t == broken || t == "\x00missing" {
					errs = true
				} else {
					lines, ok := connCfg(t, func(cert, key string) ([]string, bool) {
						cl, kl := strings.Split(cert, ","), strings.Split(key, ",")
						if len(cl) != len(kl) {
							return nil, false
						}
						var out []string
						for i := range cl {
							cv := m.fileVers(cl[i], s, lo, hi)
							kv := m.fileVers(kl[i], s, lo, hi)
							n, ok := loadPair(cv[c.pick("f:"+cl[i], len(cv))], kv[c.pick("f:"+kl[i], len(kv))])
							if !ok {
								return nil, false
							}
							out = append(out, n)
						}
						return out, true
					})
					errs = !ok
					for i := range lines {
						if ok && lines[i].matches(s.Laddr) {
							matched = true
							if lines[i].name != "" {
								set.name = lines[i].name
							}
							set.certs = lines[i].certs
							break
						}
					}
				}
			}
			if k := set.String(); !seen[k] {
				seen[k] = true
				cands = append(cands, k)
			}
			if set.name == got.name && same(set.certs, got.certs) {
				okAny = true
				if matched {
					st.add("matched", 1)
				}
				if errs {
					st.add("fell-back", 1)
				}
				break
			}
			if !c.next() {
				break
			}
			if c.runs > 3000 {
				okAny = true
				st.add("unsure", 1)
				break
			}
		}
		if !okAny {
			vs = append(vs, v("settings", "connection %s to %s was given %s; it should have been one of: %s", s.Raddr, s.Laddr, got, strings.Join(cands, " | ")))
		}
		if f.ConnCfg != "" {
			st.add("nontrivial", 1)
		}
	}
	// the settings are what the client meets
	for _, w := range r.Views {
		if w.Greet == nil || w.Sess == nil || w.Sess.NewSeq == 0 {
			continue
		}
		if len(w.Greet.Lines) == 0 || !strings.HasPrefix(w.Greet.Lines[0], w.Sess.LocalName+" ") {
			vs = append(vs, v("greeting", "connection %s was greeted with %q, its server name is %s", w.Sess.Raddr, w.Greet.Lines, w.Sess.LocalName))
		}
	}
	for _, s := range r.W.Sess {
		for _, x := range s.Steps {
			if x.Cmd == "EHLO" && x.Code == 250 && x.Offer != (len(s.Cert0) > 0) {
				vs = append(vs, v("offer", "connection %s: TLS on offer at EHLO %v, certificates %v", s.Raddr, x.Offer, s.Cert0))
			}
		}
	}
	return limit(vs)
}

var localAddrs = []string{"127.0.0.1:25", "10.0.0.5:25", "10.0.0.6:25", "10.0.1.5:25", "[2001:db8::25]:25", "[fe80::5%eth0]:25", "192.0.2.1:25"}

func (g *gen) connText() string {
	if g.pc(8) {
		return g.of("", "# nothing\n", "\n\n")
	}
	var b strings.Builder
	n := g.rng(1, 5)
	if g.pc(3) { // a long file
		for i := g.rng(30, 1500); i > 0; i-- {
			fmt.Fprintf(&b, "240.1.%d.%d hostname=other%d.example\n", i/250, i%250, i)
		}
	}
	for i := 0; i < n; i++ {
		if g.pc(15) {
			if g.pc(8) {
				b.WriteString("#" + strings.Repeat(" much", g.rng(800, 15000)) + "\n")
			}
			b.WriteString(g.of("# comment\n", "\n", "  \n", "#* hostname=no.example\n"))
		}
		a := g.from1(localAddrs)
		h, _, _ := net.SplitHostPort(a)
		var l string
		switch g.n(8) {
		case 0:
			l = "*"
		case 1, 2:
			l = a
		case 3, 4:
			l = bareIP(h)
		case 5, 6:
			l = g.of("10.0.0.0/24", "10.0.0.0/8", "127.0.0.0/8", "2001:db8::/32", "fe80::/10", "0.0.0.0/0", "::/0", "10.0.0.4/31", "10.0.1.5/32")
		default:
			l = g.of("10.0.0.5:587", "10.0.0", "nonsense", "2001:0db8::0025", "127.0.0.1:2")
		}
		var f []string
		if g.pc(60) {
			f = append(f, "hostname="+g.of("a.conn.example", "b.conn.example", "c.conn.example", "C.Conn.Example", "a=b.example", ""))
		}
		if g.pc(45) {
			cs := g.of("s1", "s2", "s1,s2", "s2")
			c, k := certArgs(strings.Split(cs, ","))
			kv := []string{"cert=" + c, "key=" + k}
			if g.pc(30) {
				kv[0], kv[1] = kv[1], kv[0]
			}
			f = append(f, kv...)
			if g.pc(30) && len(f) == 3 {
				f[0], f[2] = f[2], f[0]
			}
		}
		if g.pc(7) { // wrong
			f = append(f, g.of("foo=bar", "hostname", "cert=/cfg/s1.crt", "key=/cfg/s1.key", "cert=/cfg/nosuch.crt key=/cfg/nosuch.key", "a=b c=d e=f g=h", "cert=/cfg/s1.crt,/cfg/s2.crt key=/cfg/s1.key", "cert=/cfg/s1.crt key=/cfg/s2.key", "cert=/cfg/rules key=/cfg/rules"))
		}
		sep := g.of(" ", "\t", "  ")
		if g.pc(10) {
			b.WriteString(" ")
		}
		b.WriteString(l)
		for _, x := range f {
			b.WriteString(sep + x)
		}
		if i < n-1 || g.pc(80) {
			b.WriteString(g.of("\n", "\n", "\n", "\r\n", " \n"))
		}
	}
	return b.String()
}

// goodConn is a conncfg text that is fine when the daemon starts.
func (g *gen) goodConn() string {
	for {
		t := g.connText()
		_, ok := connCfg(t, func(c, k string) ([]string, bool) {
			cl, kl := strings.Split(c, ","), strings.Split(k, ",")
			if len(cl) != len(kl) {
				return nil, false
			}
			for i := range cl {
				if strings.TrimSuffix(cl[i], ".crt") != strings.TrimSuffix(kl[i], ".key") || strings.Contains(cl[i], "nosuch") || strings.Contains(cl[i], "rules") {
					return nil, false
				}
			}
			return nil, true
		})
		if ok {
			return t
		}
	}
}

func genC13(g *gen) {
	p := g.p
	g.k = knobs{stall: 10, reject: 20, phase: 20}
	g.net(g.rng(1, 3))
	g.domains(2)
	g.people()
	f := &p.Flags
	f.Force, f.NoStd = true, g.pc(50)
	if g.pc(50) {
		f.Helo = g.of("mx.sink.example", "MX.Sink.Example")
	}
	z := &p.Zone
	for _, a := range localAddrs {
		h, _, _ := net.SplitHostPort(a)
		switch g.n(5) {
		case 0, 1:
			z.PTR[h] = []string{fmt.Sprintf("local%d.server.example.", g.n(4))}
		case 2:
			z.PTR[h] = []string{"one.server.example.", "two.server.example"}
		case 3:
			z.Fail["PTR "+h] = g.of("SERVFAIL", "TIMEOUT", "NX")
		}
	}
	g.certs("s1", "s2")
	if g.pc(60) {
		f.Certs = strings.Split(g.of("s1", "s2", "s1,s2"), ",")
	}
	switch g.n(3) {
	case 0:
		p.Listen = []string{":25"}
	case 1:
		p.Listen = append([]string(nil), localAddrs...)
	default:
		p.Listen = []string{"10.0.0.5:25", ":25"}
	}
	if g.pc(90) {
		f.ConnCfg = "/cfg/conn"
		p.Files = append(p.Files, File{Path: f.ConnCfg, Text: g.goodConn()})
	}
	for i := g.rng(1, 4); i > 0; i-- {
		c := Client{Name: fmt.Sprintf("c%d", i)}
		for k := g.rng(1, 4); k > 0; k-- {
			ip := g.from1(g.ips)
			a := []Act{g.hello(ip)}
			if g.pc(20) {
				a = append(a, g.tlsAct()...)
				a = append(a, g.hello(ip))
			}
			a = append(a, cmd("QUIT"))
			c.Conns = append(c.Conns, Connection{From: g.addrOf(ip), To: g.from1(localAddrs), Wait: g.rng(0, 400), Acts: a})
		}
		p.Clients = append(p.Clients, c)
	}
	if f.ConnCfg != "" && g.pc(65) {
		g.swaps(g.rng(1, 5), 1500, func() Op {
			switch g.n(8) {
			case 0:
				return Op{K: "del", Path: f.ConnCfg}
			case 1:
				return Op{K: "put", Path: "/cfg/" + g.of("s1", "s2") + g.of(".crt", ".key"), Text: g.of("", "garbage\n", "-----BEGIN CERTIFICATE-----\n")}
			case 2:
				n := g.of("s1", "s2")
				e := g.of(".crt", ".key")
				return Op{K: "put", Path: "/cfg/" + n + e, Text: string(world.PEM(n + e))}
			case 3:
				return Op{K: "put", Path: f.ConnCfg, Text: g.connText()}
			}
			return Op{K: "put", Path: f.ConnCfg, Text: g.goodConn()}
		})
	}
	if f.ConnCfg != "" && g.pc(30) {
		for i := g.rng(1, 2); i > 0; i-- {
			ft := wfault{Op: g.of("fs.open", "fs.read"), Match: g.of(f.ConnCfg, f.ConnCfg, "/cfg/s1.crt", "/cfg/s2.key"), Nth: g.rng(3, 8), Count: g.rng(1, 3), Err: g.of("EIO", "EMFILE", "EACCES", "ESTALE")}
			if ft.Op == "fs.read" && g.pc(50) {
				ft.Part = g.rng(1, 999)
			}
			g.fault(ft)
		}
	}
	if g.pc(25) {
		g.fault(world.Fault{Op: "dns.PTR", Nth: g.rng(1, 8), Count: g.rng(1, 3), Err: g.of("SERVFAIL", "TIMEOUT", "EMFILE")})
	}
	g.slow(20, "/cfg", "fs.open", "fs.read", "fs.*")
	g.stealth()
}
