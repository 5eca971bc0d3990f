package harness

import (
	"fmt"
	"strings"

	"vsim/world"
)

// C16: what DNS says, or fails to say, about domains and clients.

func init() {
	register(&Profile{ID: "C16", Gen: genC16, Judge: func(r *Result, st Stat) []Violation {
		vs := append(crashed(r), judgeSessions(r, st, JudgeOpt{}, "dns")...)
		bad := false
		for _, a := range r.W.DNSSeen {
			st.add("dns:"+a.Kind+" "+a.Res, 1)
			if a.Res == "temp" {
				bad = true
			}
		}
		if bad {
			st.add("nontrivial", 1)
		}
		return limit(vs)
	}})
}

// mailHost makes a host of some kind.
func (g *gen) mailHost(name string) {
	z := &g.p.Zone
	k := world.Norm(name)
	delete(z.A, k)
	delete(z.Fail, "A "+k)
	pub := func() string {
		return g.of("203.0.113.25", "198.51.100.1", "172.15.255.255", "172.32.0.1", "11.0.0.1", "9.255.255.255", "192.167.255.255", "192.169.0.1", "2001:db8::25", "fbff::1", "8.8.8.8", "169.253.1.1")
	}
	priv := func() string {
		return g.of("10.0.0.0", "10.255.255.255", "172.16.0.0", "172.31.255.255", "192.168.0.1", "192.168.255.255", "fc00::1", "fdff::1", "fec0::9", "127.0.0.1", "127.255.0.1", "::1", "224.0.0.1", "0.0.0.0", "255.255.255.255", "fe80::5", "ff02::1", "169.254.3.4")
	}
	switch g.n(10) {
	case 0, 1, 2:
		z.A[k] = []string{pub()}
	case 3:
		z.A[k] = []string{pub(), pub()}
		if g.pc(25) {
			for q := g.rng(2, 8); q > 0; q-- {
				z.A[k] = append(z.A[k], fmt.Sprintf("203.0.113.%d", 100+q))
			}
			if g.pc(40) {
				z.A[k] = append(z.A[k], priv())
			}
		}
	case 4:
		z.A[k] = []string{priv()}
	case 5:
		z.A[k] = []string{pub(), priv(), pub()}[:g.rng(2, 3)]
	case 6, 7:
		if g.pc(50) {
			z.A[k] = []string{g.of(pub(), priv())}
		}
		z.Fail["A "+k] = g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0", "EMFILE")
	case 8:
		z.Fail["A "+k] = "NX"
	}
}

// mailDomain makes a domain of some kind.
func (g *gen) mailDomain(i int) {
	g.mailDomainNamed(fmt.Sprintf("d%d.example", i))
}

// sibling makes a domain whose name is close to another's; what DNS says of
// the one says nothing about the other.
func (g *gen) sibling() {
	d := g.from1(g.doms)
	switch g.n(5) {
	case 0:
		d = "www." + d
	case 1:
		d = g.of("mail.", "mx0.", "x.") + d
	case 2:
		d = "www" + d
	case 3:
		d = strings.TrimSuffix(d, ".example") + ".example.net"
	case 4:
		d = d[:2] + d
	}
	g.mailDomainNamed(d)
}

func (g *gen) mailDomainNamed(d string) {
	z := &g.p.Zone
	g.doms = append(g.doms, d)
	k := world.Norm(d)
	n := g.rng(0, 4)
	if g.pc(25) {
		n = 0
	} else if g.pc(4) {
		n = g.rng(5, 14)
	}
	for m := 0; m < n; m++ {
		h := fmt.Sprintf("mx%d.%s.", m, d)
		switch g.n(24) {
		case 0:
			h = "."
		case 1:
			h = g.of("localhost.", "LocalHost.", "LOCALHOST.")
		case 2:
			h = g.of("192.0.2.1.", "bad name.example.", "-x.example.", "a..b.example.", "*.example.")
		case 3:
			h = g.of("localhost.example.", "notlocalhost.")
		case 4:
			h = d + "."
		case 5:
			h = "shared.example."
		}
		if world.ValidName(h) && h != "." && strings.ToLower(h) != "localhost." {
			g.mailHost(h)
		}
		z.MX[k] = append(z.MX[k], world.MX{Host: h, Pref: uint16(g.n(3) * 10)})
	}
	if g.pc(20) {
		z.Fail["MX "+k] = g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0", "EMFILE", "NX")
	}
	if n == 0 || g.pc(30) {
		g.mailHost(d)
	}
}

// revClient gives a client reverse names of all kinds.
func (g *gen) revClient(ip string, i int) {
	z := &g.p.Zone
	bare := bareIP(ip)
	other := func() string { return g.of("203.0.113.99", "2001:db8::99", "198.51.100.8", "192.0.2.1") }
	var names []string
	n := g.rng(0, 3)
	if g.pc(4) {
		n = g.rng(4, 12)
	}
	for ; n > 0; n-- {
		nm := fmt.Sprintf("r%d.h%d.%s", n, i, g.of("d0.example", "Clients.example", "sub.d1.example"))
		k := world.Norm(nm)
		switch g.n(13) {
		case 12:
			// from /etc/hosts: names without dots get none at the end
			nm = fmt.Sprintf("box%d", i)
			switch g.n(3) {
			case 0:
			case 1:
				z.A[nm+"."] = []string{bare}
			case 2:
				z.A[nm+"."] = []string{other()}
			}
			names = append(names, nm)
			continue
		case 0, 1, 2:
			z.A[k] = []string{bare}
		case 3:
			z.A[k] = []string{other(), bare, other()}[:g.rng(2, 3)]
			if g.pc(30) {
				var l []string
				for q := g.rng(3, 12); q > 0; q-- {
					l = append(l, fmt.Sprintf("203.0.113.%d", 100+q))
				}
				l[g.n(len(l))] = bare
				z.A[k] = l
			}
		case 4, 5:
			z.A[k] = []string{other()}
		case 6, 7:
		case 8:
			z.A[k] = []string{bare}
			z.Fail["A "+k] = g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0", "EMFILE", "NX")
		case 9:
			// another client's name
			if i > 0 {
				nm = fmt.Sprintf("r1.h%d.d0.example", g.n(i))
			}
		case 10:
			nm = g.of("bad name", "192.0.2.1", "-x.example", "a..b")
		case 11:
			nm = bare
			if strings.Contains(nm, ":") {
				nm = "v6.example"
			}
		}
		names = append(names, nm+".")
	}
	if len(names) > 0 {
		z.PTR[ip] = uniqNames(names)
	}
	if g.pc(12) {
		z.Fail["PTR "+ip] = g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0", "EMFILE", "NX")
	}
	if g.pc(10) {
		z.Slow[ip] = g.rng(5, 3000)
	}
}

func genC16(g *gen) {
	p := g.p
	g.k = knobs{stall: 30, reject: 50, oddAddr: 6, oddHelo: 10, dnsOps: true, setWith: 40, phase: 40, compact: 20, lists: 0}
	pool := []string{"192.0.2.10", "192.0.2.11", "10.2.0.192", "198.51.100.7", "2001:db8::10", "fe80::1%eth0", "203.0.113.129", "11.2.0.192"}
	for n := g.rng(1, 3); n > 0; n-- {
		i := g.n(len(pool))
		g.ips = append(g.ips, pool[i])
		pool = append(pool[:i], pool[i+1:]...)
	}
	for i, ip := range g.ips {
		g.revClient(ip, i)
	}
	for i := g.rng(2, 5) - 1; i >= 0; i-- {
		g.mailDomain(i)
	}
	if g.pc(40) {
		g.sibling()
	}
	g.people()
	f := &p.Flags
	f.Force = true
	f.Helo = "mx.sink.example"
	f.NoStd = g.pc(70)
	if g.pc(30) {
		f.Smtplog = "/log/smtp"
	}
	rf := &RFile{Style: g.r.U64()}
	add := func(ph, act string, e *Expr, msg string) {
		r := &Rule{Phase: ph, Act: act, Cl: []Clause{{E: e}}}
		if msg != "" {
			r.Cl[0].W = []With{{"message", msg}}
		}
		rf.Items = append(rf.Items, Item{R: r})
	}
	act := func() string { return g.of("reject", "stall", "accept", "set-with") }
	for _, side := range []struct{ op, ph string }{{"from-has", "from"}, {"to-has", "to"}} {
		if !g.pc(85) {
			continue
		}
		opts := []string{"resolves", "baddom", "unknown"}
		for len(opts) > 0 {
			i := g.n(len(opts))
			o := opts[i]
			opts = append(opts[:i], opts[i+1:]...)
			if g.pc(85) {
				ph := ""
				if g.pc(40) {
					ph = side.ph
				}
				add(ph, act(), &Expr{Op: side.op, Opts: []string{o}}, side.op+" "+o)
			}
		}
	}
	if g.pc(75) {
		for i := g.rng(1, 4); i > 0; i-- {
			o := g.of("nodns", "noforward", "inconsistent", "exists", "good")
			add(g.of("from", "to", "data", "message"), act(), &Expr{Op: "dns", Opts: []string{o}}, "dns "+o)
		}
	}
	if g.pc(60) {
		add(g.of("from", "to", "data"), act(), &Expr{Op: "host", Arg: g.of(".d0.example", ".clients.example", ".sub.d1.example", "r1.h0.d0.example", ".example", "v6.example")}, "host")
	}
	if g.pc(60) {
		d := g.of("bl.example", "sbl.spamhaus.org", "bl2.example.")
		g.blProb("ip", d)
		if g.pc(40) {
			// near misses
			z := &p.Zone
			ip := g.from1(g.ips)
			if !strings.Contains(ip, ":") {
				z.A[world.Norm(ip+"."+d)] = []string{"127.0.0.2"}
			}
			z.A[world.Norm(d)] = []string{"127.0.0.9"}
		}
		add(g.of("from", "to", "data"), act(), &Expr{Op: "dnsbl", Arg: d}, "dnsbl")
	}
	if g.pc(60) {
		d := g.of("dbl.example", "sbl.spamhaus.org")
		g.blProb("name", d)
		add(g.of("from", "to", "data"), act(), &Expr{Op: "dbl", Opts: g.opts("host", "helo", "from", "any"), Arg: d}, "dbl")
	}
	for i := len(rf.Items) - 1; i > 0; i-- {
		j := g.n(i + 1)
		rf.Items[i], rf.Items[j] = rf.Items[j], rf.Items[i]
	}
	for i := g.rng(0, 2); i > 0; i-- {
		rf.Items = append(rf.Items, Item{R: g.rule()})
	}
	g.put("/cfg/rules", rf)
	f.Rules = []string{"/cfg/rules"}
	g.clients(g.rng(1, 3), 2, 0)
	if g.pc(45) {
		for i := g.rng(1, 4); i > 0; i-- {
			ft := world.Fault{Op: g.of("dns.A", "dns.MX", "dns.PTR", "dns.*"), Nth: g.rng(1, 14), Count: g.rng(1, 4), Err: g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0", "EMFILE")}
			if g.pc(30) && ft.Op != "dns.PTR" {
				ft.Match = g.from1(g.doms)
				ft.Nth = g.rng(1, 3)
			}
			g.fault(ft)
		}
	}
	g.later(35)
}
