package harness

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"vsim/rt"
	"vsim/world"
)

// Plan generation: a seed and a property's profile give a plan. Pools are
// small on purpose, so that clients, lists and rules keep hitting each other.

type gen struct {
	r     *rt.Rng
	p     *Plan
	prev  map[string]string
	ips   []string // client addresses
	ptr   map[string][]string
	doms  []string
	from  []string
	to    []string
	helo  []string
	list  map[string]string // list files: path -> kind (addr, host, ip)
	nmsg  int
	port  int
	blank bool
	k     knobs
}

// knobs shape a plan.
type knobs struct {
	rules    int // max rules per file
	nfiles   int
	stall    int // percent of actions that are stall
	reject   int
	savedir  bool // rules may set savedir
	yak      bool // rules may make yakkers
	oddAddr  int  // percent of odd addresses
	oddHelo  int
	dnsOps   bool // dnsbl, dbl, resolves...
	setWith  int  // percent of set-with
	phase    int  // percent with explicit phase
	compact  int
	lists    int // percent of matcher arguments that are files
	tlsOp    bool
	note     bool
	lateOnly bool // only rules which cannot act before MAIL FROM
	connRule bool // rules that can act at connect time
	relList  bool // list files have relative names
}

func newGen(prop string, seed uint64) *gen {
	g := &gen{r: rt.NewRng(rt.Hash(seed, "gen", prop)), ptr: map[string][]string{}, list: map[string]string{}, port: 20000}
	g.p = &Plan{Prop: prop, Seed: seed, Listen: []string{":25"}}
	g.p.Zone = world.Zone{PTR: map[string][]string{}, A: map[string][]string{}, MX: map[string][]world.MX{}, TXT: map[string][]string{}, Fail: map[string]string{}, Slow: map[string]int{}}
	g.sched()
	return g
}

func (g *gen) pc(n int) bool              { return g.r.P(n) }
func (g *gen) n(n int) int                { return g.r.N(n) }
func (g *gen) rng(lo, hi int) int         { return lo + g.r.N(hi-lo+1) }
func (g *gen) of(l ...string) string      { return l[g.r.N(len(l))] }
func (g *gen) pickStr(l ...string) string { return l[g.r.N(len(l))] }
func (g *gen) from1(l []string) string    { return l[g.r.N(len(l))] }

func (g *gen) sched() {
	s := &g.p.Sched
	s.Seed = g.r.U64()
	switch g.n(10) {
	case 0, 1, 2:
		s.Strategy = "uniform"
	case 3, 4, 5:
		s.Strategy, s.Sticky = "sticky", 80
	case 6, 7:
		s.Strategy, s.Depth = "pct", 4
	case 8:
		s.Strategy, s.Depth = "pct", 12
	default:
		s.Strategy, s.Sticky = "sticky", 97
	}
	if g.pc(50) {
		s.Preempt = []int{20, 60, 200, 600}[g.n(4)]
		if g.pc(50) {
			s.Starve = []int{20, 60}[g.n(2)]
		}
	}
}

// net sets up clients' addresses and their reverse DNS.
func (g *gen) net(n int) {
	z := &g.p.Zone
	pool := []string{"192.0.2.10", "192.0.2.11", "192.0.2.12", "198.51.100.7", "198.51.100.70", "203.0.113.129", "2001:db8::10", "2001:db8:1::2", "fe80::1%eth0", "192.0.2.200", "10.1.2.3"}
	if g.pc(4) { // a client on this machine
		pool = append(pool, "127.0.0.1", "127.0.0.1", "127.0.0.1")
	}
	for len(g.ips) < n && len(pool) > 0 {
		i := g.n(len(pool))
		g.ips = append(g.ips, pool[i])
		var rest []string
		for _, x := range pool {
			if x != g.ips[len(g.ips)-1] {
				rest = append(rest, x)
			}
		}
		pool = rest
	}
	for i, ip := range g.ips {
		nm := fmt.Sprintf("h%d.%s", i, g.of("clients.example", "d0.example", "sub.d1.example", "Mixed.Example"))
		var names []string
		bare := bareIP(ip)
		good := func(s string) { names = append(names, s+"."); z.A[world.Norm(s)] = []string{bare} }
		nofwd := func(s string) { names = append(names, s+".") }
		incons := func(s string) { names = append(names, s+"."); z.A[world.Norm(s)] = []string{"203.0.113.99"} }
		switch g.n(12) {
		case 11: // from /etc/hosts: no dot
			names = append(names, fmt.Sprintf("box%d", i))
			switch g.n(3) {
			case 0:
			case 1:
				z.A[names[0]+"."] = []string{bare}
			case 2:
				z.A[names[0]+"."] = []string{bare}
				good(nm)
			}
		case 9: // several good names
			good(nm)
			for q := g.rng(1, 2); q > 0; q-- {
				good(g.of("alt.", "zz.", "0.") + g.of("other.example", "d0.example", nm))
			}
			if g.pc(25) { // and many more
				for q := g.rng(3, 14); q > 0; q-- {
					good(fmt.Sprintf("n%d.many.example", q))
				}
			}
		case 10: // good and contradictory
			good(nm)
			incons("inc." + nm)
			if g.pc(50) {
				names[0], names[1] = names[1], names[0]
			}
		case 0, 1, 2:
			good(nm)
		case 3:
			good(nm)
			z.A[world.Norm(nm)] = append([]string{"203.0.113.98"}, bare)
		case 4:
			nofwd(nm)
		case 5:
			incons(nm)
		case 6:
			good(nm)
			nofwd("nofwd." + nm)
			if g.pc(50) {
				incons("inc." + nm)
			}
		case 7:
			z.Fail["PTR "+ip] = g.of("SERVFAIL", "TIMEOUT")
		}
		if len(names) > 0 {
			z.PTR[ip] = uniqNames(names)
		}
		if g.pc(10) && len(names) > 0 {
			z.Fail["A "+world.Norm(names[0])] = g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0")
		}
		if g.pc(15) {
			z.Slow[ip] = g.rng(5, 3000)
		}
	}
	if g.pc(40) {
		z.PTR["127.0.0.1"] = []string{"local.server.example."}
	}
}

// uniqNames drops repetitions, which DNS does not have.
func uniqNames(l []string) []string {
	var o []string
	seen := map[string]bool{}
	for _, n := range l {
		if !seen[world.Norm(n)] {
			seen[world.Norm(n)] = true
			o = append(o, n)
		}
	}
	return o
}

// domains sets up mail domains.
func (g *gen) domains(n int) {
	z := &g.p.Zone
	for i := 0; i < n; i++ {
		d := fmt.Sprintf("d%d.example", i)
		g.doms = append(g.doms, d)
		k := world.Norm(d)
		mx := func(h string, pref int, a ...string) {
			z.MX[k] = append(z.MX[k], world.MX{Host: h, Pref: uint16(pref)})
			if len(a) > 0 {
				z.A[world.Norm(h)] = a
			}
		}
		m := fmt.Sprintf("mx%d.example.", i)
		switch g.n(16) {
		case 0, 1, 2, 3:
			mx(m, 10, "203.0.113.25")
		case 4:
			z.A[k] = []string{"203.0.113.26"}
		case 5:
			mx(".", 0)
		case 6:
			mx(m, 10, "203.0.113.25")
			mx(g.of("localhost.", "LocalHost.", "."), 20)
		case 7: // does not exist
		case 8:
			z.Fail["MX "+k] = g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0")
			if g.pc(50) {
				z.A[k] = []string{"203.0.113.26"}
			}
		case 9:
			mx(m, 10, g.of("10.0.0.1", "192.168.3.4", "172.16.9.9", "fc00::1", "fec0::9", "127.0.0.1", "224.0.0.1"))
		case 10:
			mx(m, 10, "203.0.113.25", g.of("10.0.0.1", "127.0.0.1"))
			mx("b"+m, 20, "203.0.113.27")
		case 11:
			mx(m, 10)
			z.Fail["A "+m] = g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0")
			if g.pc(50) {
				mx("b"+m, 20, "203.0.113.27")
			}
		case 12:
			mx(m, 10)
			mx("b"+m, 20, g.of("203.0.113.27", "10.9.9.9"))
		case 13:
			z.A[k] = []string{g.of("10.4.4.4", "127.0.0.1", "2001:db8::77")}
		case 14:
			z.Fail["A "+k] = g.of("SERVFAIL", "TIMEOUT")
		default:
			mx(m, 10, "203.0.113.25", "2001:db8::25")
		}
		if g.pc(50) {
			s := "sub." + d
			z.A[world.Norm(s)] = []string{"203.0.113.30"}
		}
	}
}

func (g *gen) people() {
	for i := 0; i < 5; i++ {
		d := g.from1(g.doms)
		if g.pc(25) {
			d = g.of("sub.", "Deep.sub.", "a.rather.long.and.deeply.nested.name.of.many.parts.that.goes.on.") + d
		}
		if g.pc(10) {
			d = strings.ToUpper(d)
		}
		g.from = append(g.from, g.of("alice", "bob", "Carol", "info", "alice", "bob", "Carol", "in#fo", ";info")+"@"+d)
		d = g.from1(g.doms)
		if g.pc(25) {
			d = "sub." + d
		}
		g.to = append(g.to, g.of("joe", "jim", "Postmaster")+"@"+d)
	}
	g.helo = []string{"mail.d0.example", "d1.example", "relay.sub.d1.example", "HOST.D2.Example", "ylmf-pc", "friend.example"}
}

func (g *gen) oddAddr() string {
	d := g.from1(g.doms)
	return g.of("noat", "joe", "joe@localname", "@"+d, "joe@", "@a.example,@b.example:joe@"+d, "\"q uote\"@"+d, "a..b@"+d, "joe@"+d+".", "joe@@"+d,
		"<joe@"+d, "joe@"+d+"\"", "joe@[192.0.2.1]", "a@b@"+d, "joe@\"x\"."+d, "jo\"e@"+d, "\"joe@"+d, "joe\"@"+d, "joe@"+d+"@", "joe@.", "joe@."+d, "Joe@"+strings.ToUpper(d), "alice@"+d,
		"al%sice%d@"+d, "o'brien@"+d, "joe+tag=x@"+d, strings.Repeat("x", g.rng(50, 700))+"@"+d, "joe>x@"+d, "a/b|c!d@"+d)
}

func (g *gen) fromAddr() string {
	if g.pc(12) {
		return ""
	}
	if g.pc(g.k.oddAddr) {
		return g.oddAddr()
	}
	return g.from1(g.from)
}

func (g *gen) toAddr() string {
	if g.pc(g.k.oddAddr) {
		if a := g.oddAddr(); a != "" {
			return a
		}
	}
	return g.from1(g.to)
}

func (g *gen) heloName(ip string) string {
	if g.pc(g.k.oddHelo) {
		b := bareIP(ip)
		return g.of("", ".", "nodots", b, "["+b+"]", "192.0.2.99", "[192.0.2.99]", "127.0.0.1", "[127.0.0.1]", "[notanip]", "d1.example.", "..", "a:b", "[]",
			"100%s.%d.example", "it's.example", "two words", "tab\there", "under_score.example", strings.Repeat("long.", g.rng(10, 60))+"example", "'", "-", "xn--bcher-kva.example")
	}
	if len(g.p.Flags.Certs) > 0 && g.pc(10) {
		return g.of("mail.client.example", "mx.other.example", "selfsigned.example", "only.dns.example")
	}
	return g.from1(g.helo)
}

// ---- rules ----

func (g *gen) addrPat(l []string) string {
	a := strings.ToLower(g.from1(l))
	i := strings.IndexByte(a, '@')
	local, dom := a[:i], a[i+1:]
	switch g.n(9) {
	case 0:
		return local + "@"
	case 1, 2:
		return "@" + dom
	case 3, 4:
		return "@." + g.from1(g.doms)
	case 5:
		return "@"
	case 6:
		return "<>"
	case 7:
		return g.of("Alice@", "@.Example", "@D0.EXAMPLE", "joe@", "noat@", "@example")
	}
	return a
}

func (g *gen) hostPat() string {
	switch g.n(7) {
	case 6: // a client's name
		if l := g.p.Zone.PTR[g.from1(g.ips)]; len(l) > 0 {
			h := strings.TrimSuffix(g.from1(l), ".")
			if i := strings.IndexByte(h, '.'); g.pc(50) && i > 0 {
				h = h[i:]
			}
			if g.pc(20) {
				h += "."
			}
			return h
		}
		return g.of("other.example", ".other.example")
	case 0:
		return "." + g.from1(g.doms)
	case 1:
		return g.of(".example", ".clients.example", "clients.example", ".mixed.example", "D0.Example", "d1.example.", "h0.clients.example", ".sub.d1.example", "friend.example")
	case 2:
		return g.from1(g.doms)
	default:
		h := g.from1(g.helo)
		if g.pc(40) {
			return "." + h
		}
		return h
	}
}

func (g *gen) ipPat() string {
	ip := bareIP(g.from1(g.ips))
	if strings.Contains(ip, ":") {
		return g.of(ip, "2001:db8::/32", "2001:0db8::0010", "fe80::/10", "2001:db8:1::/48", "::/0")
	}
	f := strings.Split(ip, ".")
	return g.of(ip, strings.Join(f[:3], ".")+".0/24", strings.Join(f[:3], ".")+".0/25", f[0]+".0.0.0/8", ip+"/32", "192.0.2.10", "0.0.0.0/0", ip+"/31")
}

func (g *gen) listText(kind string, n int) string {
	var b strings.Builder
	if g.pc(3) { // a long list: what counts is far down
		for i := g.rng(40, 2500); i > 0; i-- {
			fmt.Fprintf(&b, "%s\n", filler(kind, i))
		}
	}
	for i := 0; i < n; i++ {
		if g.pc(15) {
			if g.pc(5) {
				b.WriteString("#" + strings.Repeat(" much", g.rng(800, 15000)) + "\n")
			}
			b.WriteString(g.of("# comment\n", "\n", "  \n", "#x@y\n", "  # indented@d0.example\n", "in#fo@\n", ";info@\n"))
		}
		var s string
		switch kind {
		case "from":
			s = g.addrPat(g.from)
		case "to":
			s = g.addrPat(g.to)
		case "host":
			s = g.hostPat()
		default:
			s = g.ipPat()
		}
		if g.pc(20) {
			s = strings.ToUpper(s)
		}
		if g.pc(15) {
			s = g.of(" ", "\t") + s + g.of("", "  ", "\r")
			if g.pc(6) {
				s = strings.Repeat(" ", g.rng(4000, 70000)) + s
			}
		}
		if g.pc(6) { // the whole line is the entry
			s += g.of(" # no comment", "#x", " "+g.from1(g.from), ";", " ; no comment", ", "+s, "\x00")
		}
		b.WriteString(s)
		if i < n-1 || g.pc(85) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// filler is a list entry that matches nothing here.
func filler(kind string, i int) string {
	switch kind {
	case "from", "to":
		return fmt.Sprintf("nobody%d@nowhere.invalid", i)
	case "host":
		return fmt.Sprintf("host%d.nowhere.invalid", i)
	}
	return fmt.Sprintf("240.0.%d.%d", i/250, i%250)
}

// addList makes a list file and returns its path.
func (g *gen) addList(kind string) string {
	path := fmt.Sprintf("/cfg/%s%d", kind, g.n(2))
	if g.pc(20) { // the same name elsewhere, or only nearly the same
		path = fmt.Sprintf(g.of("/cfg/Lists/%s%d", "/cfg/%s%d.txt", "/cfg/lists/%s%d"), kind, g.n(2))
	}
	name := path
	if g.k.relList {
		path = fmt.Sprintf("/cwd/%s%d", kind, g.n(2))
		name = "./" + path[5:]
	}
	if _, ok := g.list[path]; ok {
		return name
	}
	g.list[path] = kind
	switch g.n(10) {
	case 0: // missing
	case 1:
		g.p.Files = append(g.p.Files, File{Path: path, Text: g.of("", "# nothing\n", "\n\n")})
	default:
		g.p.Files = append(g.p.Files, File{Path: path, Text: g.listText(kind, g.rng(1, 4))})
	}
	return name
}

func (g *gen) arg(kind string) string {
	if g.pc(g.k.lists) {
		p := g.addList(kind)
		if g.pc(50) {
			return "file:" + p
		}
		return p
	}
	switch kind {
	case "from":
		return g.addrPat(g.from)
	case "to":
		return g.addrPat(g.to)
	case "host":
		return g.hostPat()
	}
	return g.ipPat()
}

func (g *gen) opts(l ...string) []string {
	var o []string
	n := 1 + g.n(2)
	for i := 0; i < n; i++ {
		s := g.from1(l)
		if !has(o, s) {
			o = append(o, s)
		}
	}
	return o
}

func (g *gen) term() *Expr {
	for {
		switch g.n(16) {
		case 0, 1:
			return &Expr{Op: "from", Arg: g.arg("from")}
		case 2, 3:
			return &Expr{Op: "to", Arg: g.arg("to")}
		case 4:
			return &Expr{Op: g.of("helo", "ehlo"), Arg: g.arg("host")}
		case 5:
			return &Expr{Op: "host", Arg: g.arg("host")}
		case 6:
			return &Expr{Op: "source", Arg: g.arg("host")}
		case 7:
			return &Expr{Op: "ip", Arg: g.arg("ip")}
		case 8:
			if g.k.dnsOps {
				d := g.of("bl.example", "sbl.spamhaus.org", "bl2.example.")
				g.blProb("ip", d)
				return &Expr{Op: "dnsbl", Arg: d}
			}
		case 9:
			if g.k.dnsOps {
				d := g.of("dbl.example", "sbl.spamhaus.org")
				g.blProb("name", d)
				return &Expr{Op: "dbl", Opts: g.opts("host", "helo", "ehlo", "from", "any"), Arg: d}
			}
		case 10:
			if g.k.tlsOp {
				return &Expr{Op: "tls", Arg: g.of("on", "off")}
			}
		case 11:
			if g.k.dnsOps {
				return &Expr{Op: "from-has", Opts: g.opts("resolves", "unknown", "baddom", "bad", "route", "noat", "quoted", "unqualified", "garbage")}
			}
			return &Expr{Op: "from-has", Opts: g.opts("bad", "route", "noat", "quoted", "unqualified", "garbage")}
		case 12:
			if g.k.dnsOps {
				return &Expr{Op: "to-has", Opts: g.opts("resolves", "unknown", "baddom", "bad", "route", "noat", "quoted", "unqualified", "garbage")}
			}
			return &Expr{Op: "to-has", Opts: g.opts("bad", "route", "noat", "quoted", "unqualified", "garbage")}
		case 13:
			return &Expr{Op: "helo-has", Opts: g.opts("none", "bogus", "helo", "ehlo", "nodots", "bareip", "properip", "myip", "remip", "otherip", "ip")}
		case 14:
			return &Expr{Op: "dns", Opts: g.opts("nodns", "noforward", "inconsistent", "exists", "good")}
		case 15:
			return &Expr{Op: "all"}
		}
	}
}

// blProb lists some things in a blocklist.
func (g *gen) blProb(kind, d string) {
	z := &g.p.Zone
	add := func(n string) {
		switch g.n(4) {
		case 0, 1:
			z.A[world.Norm(n)] = []string{"127.0.0.2"}
		case 2:
			if g.pc(30) {
				z.Fail["A "+world.Norm(n)] = "SERVFAIL"
			}
		}
	}
	for _, ip := range g.ips {
		f := strings.Split(ip, ".")
		if len(f) == 4 {
			n := f[3] + "." + f[2] + "." + f[1] + "." + f[0] + "."
			if kind == "ip" {
				add(n + d)
			}
			if g.pc(50) {
				z.TXT[n+"sbl.spamhaus.org."] = []string{"https://example/sbl/SBL" + f[3], "no slash", "ends/"}
				if g.pc(40) {
					z.TXT[n+"sbl.spamhaus.org."] = []string{g.of("", "https://example/sbl/SBL9"), "https://example/sbl/SBL" + f[2], "https://example/sbl/SBL" + f[3]}
				}
			}
		}
		if kind == "name" {
			for _, p := range z.PTR[ip] {
				add(strings.TrimSuffix(p, ".") + "." + d)
			}
		}
	}
	if kind == "name" {
		for _, h := range g.helo {
			add(h + "." + d)
		}
		for _, h := range g.doms {
			add(h + "." + d)
		}
	}
}

func (g *gen) expr(depth int) *Expr {
	if depth <= 0 {
		return g.term()
	}
	switch g.n(7) {
	case 0, 1:
		e := &Expr{Op: "or"}
		for i := g.rng(2, 3); i > 0; i-- {
			e.Kids = append(e.Kids, g.expr(depth-1))
		}
		return e
	case 2:
		return &Expr{Op: "not", Kids: []*Expr{g.expr(depth - 1)}}
	case 3:
		e := &Expr{Op: "and"}
		for i := g.rng(2, 3); i > 0; i-- {
			e.Kids = append(e.Kids, g.expr(depth-1))
		}
		return flat(e)
	}
	return g.term()
}

// flat merges and-lists into their parent, as the syntax does.
func flat(e *Expr) *Expr {
	var k []*Expr
	for _, x := range e.Kids {
		if x.Op == "and" {
			k = append(k, x.Kids...)
		} else {
			k = append(k, x)
		}
	}
	e.Kids = k
	return e
}

func (g *gen) withs(must bool) []With {
	var w []With
	add := func(p int, k string, v func() string) {
		if g.pc(p) {
			w = append(w, With{k, v()})
		}
	}
	add(40, "message", func() string {
		return g.of("go away", "That's nice", "two\nlines here", "say \"hi\" \\o/", "word", "100% sure %s %d")
	})
	if g.k.note {
		add(20, "note", func() string {
			if g.pc(2) {
				return strings.Repeat("a long note ", g.rng(100, 2000))
			}
			return g.of("seen", "a note here", "n\"q", "100%sure %d")
		})
	}
	if g.k.savedir {
		add(20, "savedir", func() string { return g.of("/save2", "/save3") })
	}
	if g.k.tlsOp {
		add(10, "tls-opt", func() string { return g.of("off", "no-client") })
	}
	if g.k.yak {
		add(15, "make-yakker", func() string { return "" })
	}
	if must && len(w) == 0 {
		w = append(w, With{"message", "default text"})
	}
	return w
}

var phaseNames = []string{"", "connect", "helo", "from", "to", "data", "message"}

func (g *gen) rule() *Rule {
	for {
		r := &Rule{}
		switch {
		case g.pc(g.k.setWith):
			r.Act = "set-with"
		case g.pc(g.k.reject):
			r.Act = "reject"
		case g.pc(g.k.stall):
			r.Act = "stall"
		default:
			r.Act = "accept"
		}
		n := 1
		if g.pc(g.k.compact) {
			n = g.rng(2, 3)
		}
		for i := 0; i < n; i++ {
			var e *Expr
			switch g.n(5) {
			case 0, 1:
				e = g.term()
			case 2, 3:
				e = flat(&Expr{Op: "and", Kids: []*Expr{g.expr(1), g.expr(1)}})
			default:
				e = g.expr(2)
			}
			c := Clause{E: e}
			if r.Act == "set-with" || g.pc(35) {
				c.W = g.withs(r.Act == "set-with")
			}
			r.Cl = append(r.Cl, c)
		}
		need := r.needs()
		if g.pc(g.k.phase) {
			lo := need
			if lo == 0 {
				lo = 1
			}
			ph := g.rng(lo, 6)
			if ph == 1 && !g.k.connRule && !g.pc(15) {
				ph = 2
			}
			r.Phase = phaseNames[ph]
		}
		if r.Phase == "" && need == 0 && r.Act == "reject" && !g.k.connRule && !g.pc(8) {
			// would drop every matching connection: rarely wanted
			r.Phase = phaseNames[g.rng(2, 6)]
		}
		if g.k.lateOnly && need < 3 && phaseNo[r.Phase] < 3 {
			r.Phase = phaseNames[g.rng(3, 6)]
		}
		return r
	}
}

func (g *gen) rfile(n int) *RFile {
	f := &RFile{}
	if !g.pc(25) {
		f.Style = g.r.U64()
	}
	if n > 0 && g.pc(1) { // a long file
		for i := g.rng(30, 200); i > 0; i-- {
			k := g.of("from", "to", "host", "ip")
			f.Items = append(f.Items, Item{R: &Rule{Act: g.of("reject", "stall", "accept"), Cl: []Clause{{E: &Expr{Op: k, Arg: filler(k, i)}}}}})
		}
	}
	for i := 0; i < n; i++ {
		f.Items = append(f.Items, Item{R: g.rule()})
	}
	return f
}

// nest puts includes into a rules file, up to three deep, rarely deeper. It returns the
// paths of the included files.
func (g *gen) nest(f *RFile, name string, depth, max int) []string {
	inc := name + ".inc"
	if depth == 2 && g.pc(4) {
		depth = g.rng(6, 15)
	}
	at := g.n(len(f.Items) + 1)
	f.Items = append(f.Items[:at:at], append([]Item{{Inc: inc}}, f.Items[at:]...)...)
	rf := g.rfile(g.rng(0, max))
	var l []string
	if depth == 3 {
		depth = 2 // not again a long chain
	}
	if depth > 0 && (g.pc(50) || depth > 2 && g.pc(90)) {
		d := depth - 1
		if d == 2 {
			d = 1
		}
		l = g.nest(rf, inc, d, max)
	}
	g.put(inc, rf)
	return append(l, inc)
}

// brokenText is text that no reading of the documentation accepts.
func (g *gen) brokenText() string {
	if !g.blank {
		g.blank = true
		g.p.Files = append(g.p.Files, File{Path: "/cfg/blank", Text: "\n"})
	}
	return g.of("reject frobnicate\n", "reject from\n", "accept\n", "set-with all\n", "reject (from a@b.example\n", "reject helo \"unterminated\n",
		"@nophase reject all\n", "reject all with message\n", "include /cfg/nosuchfile\n", "reject \"helo\" .local\n", "reject all;\n", "@from reject to a@b.example\n",
		"reject from-has nonesuch\n", "reject all with tls-opt maybe\n", "reject all or\n", "bounce all\n", "reject from a@b.example)\n", "reject not\n",
		"reject from a@b.example or or to b@c.example\n", "accept tls maybe\n", "reject dns good,\n", "reject dns good,\tnodns\n", "reject helo a,\n\tor all\n", "reject dns good, nodns\n", "reject dns good,", "reject all with\n", "include\n",
		"reject ()\n", "accept not ()\n", "reject all with note a note b\n", "reject all with message a note b message c\n", "set-with all with tls-opt off tls-opt off\n",
		"set-with all with make-yakker make-yakker\n", "reject all with savedir /a savedir /b\n", "include /cfg/blank all\n", "reject helo \"", "reject helo \"x\\\"", "reject all with note \"a\nb\"\n")
}

// ---- dialogs ----

// later makes the world's DNS another one for some late clients that repeat
// what earlier clients did.
func (g *gen) later(pct int) {
	if !g.pc(pct) || len(g.p.Clients) == 0 {
		return
	}
	z := world.Zone{A: map[string][]string{}, MX: map[string][]world.MX{}, PTR: map[string][]string{}, Fail: map[string]string{}}
	o := g.p.Zone
	for k, l := range o.A {
		z.A[k] = l
	}
	for k, l := range o.MX {
		z.MX[k] = l
	}
	for k, l := range o.PTR {
		z.PTR[k] = l
	}
	for k, l := range o.Fail {
		z.Fail[k] = l
	}
	for _, d := range g.doms {
		if g.pc(40) {
			continue
		}
		k := world.Norm(d)
		delete(z.MX, k)
		delete(z.A, k)
		delete(z.Fail, "MX "+k)
		delete(z.Fail, "A "+k)
		switch g.n(4) {
		case 0: // gone
		case 1:
			z.A[k] = []string{g.of("203.0.113.26", "10.4.4.4")}
		case 2:
			z.Fail["MX "+k] = g.of("SERVFAIL", "TIMEOUT")
		default:
			b := world.Norm(g.from1(g.doms))
			z.MX[k], z.A[k] = o.MX[b], o.A[b]
		}
	}
	for _, ip := range g.ips {
		switch g.n(5) {
		case 0:
			delete(z.PTR, ip)
		case 1:
			b := g.from1(g.ips)
			z.PTR[ip] = o.PTR[b]
		case 2:
			for _, n := range o.PTR[ip] {
				z.A[world.Norm(n)] = []string{g.of("203.0.113.99", bareIP(ip))}
			}
			delete(z.Fail, "PTR "+ip)
		case 3:
			z.Fail["PTR "+ip] = g.of("SERVFAIL", "NX")
		}
	}
	var names []string
	for k := range z.A {
		for _, l := range []string{"bl.example.", "sbl.spamhaus.org.", "bl2.example."} {
			if strings.HasSuffix(k, l) {
				names = append(names, k)
				break
			}
		}
	}
	sort.Strings(names)
	for _, k := range names {
		if g.pc(60) {
			delete(z.A, k)
		}
	}
	g.p.Zone2 = &z
	for i := g.rng(1, 3); i > 0; i-- {
		c := g.p.Clients[g.n(len(g.p.Clients))]
		cn := c.Conns[g.n(len(c.Conns))]
		ip, _, _ := net.SplitHostPort(cn.From)
		cn.From, cn.Wait = g.addrOf(ip), g.rng(0, 200)
		if g.pc(40) {
			cn.Wait += 7200e3
		}
		g.p.Late = append(g.p.Late, Client{Name: fmt.Sprintf("again%d", i), Conns: []Connection{cn}})
	}
}

func (g *gen) addrOf(ip string) string {
	g.port++
	if strings.Contains(ip, ":") {
		return fmt.Sprintf("[%s]:%d", ip, g.port)
	}
	return fmt.Sprintf("%s:%d", ip, g.port)
}

// target is an address of the daemon.
func (g *gen) target() string {
	var l []string
	for _, a := range g.p.Listen {
		if strings.HasPrefix(a, "127.0.0.") {
			l = append(l, a)
		}
	}
	if len(l) > 1 {
		return g.from1(l)
	}
	return "127.0.0.1:25"
}

func cmd(f string, a ...interface{}) Act { return Act{K: "cmd", T: fmt.Sprintf(f, a...)} }

// body makes a message; small pools and unique ones both occur.
func (g *gen) body() string {
	g.nmsg++
	if g.pc(1) {
		return fmt.Sprintf("Subject: huge %d\n\n", g.nmsg) + strings.Repeat("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcde\n", g.rng(900, 6000))
	}
	switch g.n(18) {
	case 15, 16:
		return g.oddBody()
	case 17: // its record is about as long as a buffer
		t := fmt.Sprintf("Subject: edge %d\n\n", g.nmsg)
		k := g.rng(9, 13)
		if g.pc(8) {
			k = g.rng(14, 17)
		}
		n := max(0, 1<<uint(k)-g.rng(-40, 700)-len(t))
		const line = "a line of text that is seventy characters long, if it has been counted\n"
		return t + strings.Repeat(line, n/len(line)) + strings.Repeat("e", n%len(line)) + "\n"
	case 14:
		// one rune here is one byte there
		return fmt.Sprintf("Subject: caf\u00c3\u00a9 %d\n\n\u00e4\u00bd\u00a0\u00e5\u00a5\u00bd d\u00c3\u00a9j\u00c3\u00a0\n", g.nmsg)
	case 0:
		return ""
	case 1:
		return "no headers at all\n"
	case 2:
		return fmt.Sprintf("Subject: dup\n\nsame %d\n", g.n(2))
	case 3:
		return fmt.Sprintf("Subject: dots %d\n\n.\n..\n.dot\nlast\n", g.nmsg)
	case 4:
		return fmt.Sprintf("Subject: tricky %d\n\nbody\nid 1/1 fake\nfrom <x>\nhash 00 bytes 0\n", g.nmsg)
	case 5:
		return fmt.Sprintf("Subject: eight %d\n\n\u00ff\u00fe\u0000 bits\r\n", g.nmsg)
	case 6:
		return fmt.Sprintf("Subject: big %d\n\n", g.nmsg) + strings.Repeat("0123456789abcdef0123456789abcdef0123456789abcdef\n", g.rng(50, 500))
	case 7:
		return fmt.Sprintf("broken header %d\n\nx\n", g.nmsg)
	}
	return fmt.Sprintf("From: x\nSubject: m %d\n\nhello %d\n", g.nmsg, g.n(100))
}

// oddBody puts a message together from odd lines.
func (g *gen) oddBody() string {
	var b strings.Builder
	line := func() {
		b.WriteString(g.of("", " ", "\t", "From joe@example.org Mon Jan  1 00:00:00 2000", ">From here", "100% %s %d %!x", "body", "from <x>", "to <y>", "remote 1.2.3.4:5", "trailing blanks  ",
			".", "..", "..leading", "a\rb", "\r", "\\ \"quoted\" '", "=20=\u00ff", "\u0000", "\u001b[31m", "-- ", "--boundary", "MAIL FROM:<x@y>", "QUIT", strings.Repeat("long ", g.rng(1, 40)), fmt.Sprint(g.nmsg)))
		b.WriteString(g.of("\n", "\n", "\n", "\r\n"))
		if g.n(300) == 0 {
			b.WriteString(strings.Repeat("x", g.rng(900, 70000)) + "\n")
		}
	}
	if g.pc(80) {
		for i := g.rng(1, 5); i > 0; i-- {
			b.WriteString(g.of("Subject: x", "subject:", "From: a@b", "Received: from x\n\tby y", "To: \n c@d", "X-Empty:", "Message-ID: <1@2>", "Content-Type: text/plain; charset=utf-8", "Date: 1 Jan 2000", "X-Sp : y", "Subject: =?utf-8?q?=20?=") + "\n")
		}
		if g.pc(90) {
			b.WriteString("\n")
		}
	}
	for i := g.n(12); i > 0; i-- {
		line()
	}
	return b.String()
}

// nrcpt is a number of recipients: few, at times many.
func (g *gen) nrcpt(usual int) int {
	switch g.n(60) {
	case 0:
		if g.pc(10) {
			return g.rng(60, 130)
		}
		return g.rng(10, 40)
	case 1, 2, 3:
		return g.rng(4, 9)
	}
	return g.rng(1, usual)
}

// transaction makes MAIL..message.
func (g *gen) transaction() []Act {
	var a []Act
	a = append(a, cmd("MAIL FROM:<%s>", g.fromAddr()))
	if g.pc(15) {
		a = append(a, cmd("MAIL FROM:<%s>", g.fromAddr())) // second try if the first was refused
	}
	if g.pc(6) {
		a = append(a, cmd("RSET"), cmd("MAIL FROM:<%s>", g.fromAddr()))
	}
	for i := g.nrcpt(3); i > 0; i-- {
		a = append(a, cmd("RCPT TO:<%s>", g.toAddr()))
	}
	if g.pc(5) {
		a = append(a, g.extra())
	}
	a = append(a, cmd("DATA"), Act{K: "msg", T: g.body()})
	return a
}

func (g *gen) extra() Act {
	return g.pickAct(cmd("NOOP"), cmd("RSET"), cmd("HELP"), cmd("VRFY joe"), cmd("BOGUS"), cmd("DATA"), cmd("RCPT TO:<joe@d0.example>"), cmd("MAIL FROM:bad"), cmd("AUTH PLAIN"), cmd(""), cmd("RCPT TO:<>"))
}

func (g *gen) pickAct(l ...Act) Act { return l[g.n(len(l))] }

func (g *gen) tlsAct() []Act {
	t := "SIMTLS ok"
	if g.pc(40) {
		t += " sni=" + g.of("mail.server.example", "other.server.example")
	}
	if g.pc(40) {
		t += " cert=" + g.of("good", "good2", "self", "good+self", "self+good2", "dnsonly", "noname", "server")
	}
	if g.pc(40) {
		t += " ver=" + g.of("0301", "0302", "0303", "0304", "0300", "0399")
	}
	if g.pc(40) {
		t += " cipher=" + g.of("c02f", "0005", "1301", "ffff", "0000")
	}
	return []Act{{K: "tls", T: t}}
}

func (g *gen) tlsFail() []Act {
	return []Act{{K: "tls", T: g.of("SIMTLS fail", "SIMTLS unsupported-SSLv2", "\x16\x03garbage")}}
}

func (g *gen) hello(ip string) Act {
	if g.pc(80) {
		return cmd("EHLO %s", g.heloName(ip))
	}
	return cmd("HELO %s", g.heloName(ip))
}

// dialog is a whole session.
func (g *gen) dialog(ip string, tls int) []Act {
	var a []Act
	a = append(a, g.hello(ip))
	if g.pc(12) {
		a = append(a, g.hello(ip))
	}
	if g.pc(tls) {
		a = append(a, g.tlsAct()...)
		a = append(a, g.hello(ip))
	}
	n := g.rng(1, 3)
	if g.n(250) == 0 { // a long session
		n = g.rng(8, 40)
	}
	for i := n; i > 0; i-- {
		a = append(a, g.transaction()...)
		if g.pc(8) {
			a = append(a, g.hello(ip))
		}
		if g.pc(5) {
			a = append(a, g.extra())
		}
	}
	switch g.n(10) {
	case 0:
		a = append(a, Act{K: "close"})
	case 1:
		a = append(a, Act{K: "reset"})
	case 2: // vanish somewhere
		a = a[:g.n(len(a))]
		a = append(a, Act{K: g.of("close", "reset")})
	default:
		a = append(a, cmd("QUIT"))
	}
	// thinking time
	if g.pc(40) {
		var b []Act
		for _, x := range a {
			if g.pc(25) {
				b = append(b, Act{K: "sleep", N: g.rng(1, 400)})
			}
			b = append(b, x)
		}
		a = b
	}
	return a
}

// more is a number of further clients: mostly none, at times many.
func (g *gen) more() int {
	if g.n(120) != 0 {
		return 0
	}
	return g.rng(8, 24)
}

func (g *gen) clients(n, conns, tls int) {
	n += g.more()
	for i := 0; i < n; i++ {
		c := Client{Name: fmt.Sprintf("c%d", i)}
		ip := g.from1(g.ips)
		for k := g.rng(1, conns); k > 0; k-- {
			if g.pc(30) {
				ip = g.from1(g.ips)
			}
			cn := Connection{From: g.addrOf(ip), To: g.target(), Acts: g.dialog(ip, tls)}
			if g.pc(60) {
				cn.Wait = g.rng(0, 300)
			}
			c.Conns = append(c.Conns, cn)
		}
		g.p.Clients = append(g.p.Clients, c)
	}
}

// probe is a well-behaved client that runs when everything else is over.
func (g *gen) probe() {
	g.p.Late = append(g.p.Late, Client{Name: "probe", Conns: []Connection{{
		From: "203.0.113.250:4000", To: g.target(),
		Acts: []Act{cmd("EHLO probe.example"), cmd("MAIL FROM:<probe@probe.example>"), cmd("RCPT TO:<probe@here.example>"), cmd("DATA"),
			{K: "msg", T: "Subject: probe\n\nare you there\n"}, cmd("QUIT")}}}})
}

func (g *gen) certs(names ...string) {
	for _, n := range names {
		g.p.Files = append(g.p.Files, File{Path: "/cfg/" + n + ".crt", Cert: n + ".crt"}, File{Path: "/cfg/" + n + ".key", Cert: n + ".key"})
	}
}

func (g *gen) dir(d string) { g.p.Files = append(g.p.Files, File{Path: d, Dir: true}) }

func (g *gen) put(path string, f *RFile) { g.p.Files = append(g.p.Files, File{Path: path, Rule: f}) }

func (g *gen) fault(f world.Fault) { g.p.Faults = append(g.p.Faults, &f) }

// slow makes the disk take its time over some operations.
func (g *gen) slow(pct int, match string, ops ...string) {
	if !g.pc(pct) {
		return
	}
	for i := g.rng(1, 3); i > 0; i-- {
		d := g.rng(1, 300)
		if g.pc(30) {
			d = g.rng(300, 20000)
		}
		g.fault(world.Fault{Op: g.from1(ops), Match: match, Nth: g.rng(1, 12), Count: g.rng(1, 4), Delay: d})
	}
}

func (g *gen) dnsFaults(n int) {
	for i := 0; i < n; i++ {
		g.fault(world.Fault{Op: g.of("dns.A", "dns.MX", "dns.PTR", "dns.*"), Nth: g.rng(1, 12), Count: g.rng(1, 3), Err: g.of("SERVFAIL", "TIMEOUT", "SERVFAIL0", "EMFILE")})
	}
}
