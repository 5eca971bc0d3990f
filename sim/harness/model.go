package harness

import (
	"fmt"
	"net"
	"path"
	"sort"
	"strings"

	"vsim/rt"
	"vsim/world"
)

// The reference model: what doc.go says each reply of a session must be,
// given the rules, the lists, DNS and what the client sent. Where the
// history does not determine what the daemon saw (a rules file replaced
// while a connection was being set up, a DNS lookup that failed now and
// then), the model makes a choice; a session is wrong only if no
// combination of choices explains it.

type give struct{} // panic value: this branch of choices fails

// chooser enumerates choices depth first.
type chooser struct {
	path  []int
	width []int
	pos   int
	memo  map[string]int
	runs  int
}

const maxRuns = 4000

// next moves to the next combination; false when exhausted.
func (c *chooser) next() bool {
	for i := len(c.path) - 1; i >= 0; i-- {
		if c.path[i]+1 < c.width[i] {
			c.path = c.path[:i+1]
			c.width = c.width[:i+1]
			c.path[i]++
			return true
		}
	}
	return false
}

func (c *chooser) pick(key string, n int) int {
	if n <= 1 {
		return 0
	}
	if v, ok := c.memo[key]; ok && v < n {
		return v
	}
	if c.pos == len(c.path) {
		c.path = append(c.path, 0)
		c.width = append(c.width, n)
	}
	v := c.path[c.pos]
	c.pos++
	c.memo[key] = v
	return v
}

// Model judges sessions.
type Model struct {
	r     *Result
	rules map[string]*RFile // text -> structure
	dnsf  []*world.Fault    // transient DNS faults of the plan
	listW map[string]bool
	texts map[string]bool // first lines of all the messages in rules
}

// NewModel prepares the model for a run.
func NewModel(r *Result) *Model {
	m := &Model{r: r, rules: map[string]*RFile{}}
	for i := range r.P.Files {
		if f := &r.P.Files[i]; f.Rule != nil {
			m.rules[f.text()] = f.Rule
		}
	}
	for i := range r.P.Ops {
		if o := &r.P.Ops[i]; o.Rule != nil {
			m.rules[o.text()] = o.Rule
		}
	}
	for _, f := range r.P.Faults {
		if strings.HasPrefix(f.Op, "dns.") {
			m.dnsf = append(m.dnsf, f)
		}
	}
	m.texts = map[string]bool{}
	for _, f := range m.rules {
		for _, it := range f.Items {
			if it.R == nil {
				continue
			}
			for _, c := range it.R.Cl {
				for _, w := range c.W {
					if w.K == "message" && w.V != "" {
						m.texts[strings.SplitN(w.V, "\n", 2)[0]] = true
					}
				}
			}
		}
	}
	return m
}

// Exp is what the model says about one step.
type Exp struct {
	Act   string // accept, reject, stall
	Props map[string]string
	Dir   string   // savedir in effect (before this step's own decision, for messages)
	Alt   []string // further candidates for it
	TLS   bool
}

type sessModel struct {
	culprit string // the first -r file that did not load
	m       *Model
	s       *world.Session
	c       *chooser
	rs      []*Rule
	good    bool // rules loaded
	step    *world.Step
	at      int // current sequence number limit

	heloCmd, helo, from, rcpt string
	rcpts                     []string
	tls                       bool
	rip, lip                  string
	verified, nofwd, incons   []string
	props                     map[string]string
	def                       string
	defProps                  map[string]string
	miss                      bool
	dir                       string
	domc                      map[string]string
	why                       string
	forced                    map[string]string
	nbl                       int
	alt                       []string // other directories a message may belong in
}

// versions returns the distinct contents a path had at some time in
// [from, to]; a missing file is "\x00missing".
func (m *Model) versions(p string, from, to int) []string {
	vs := m.r.W.FS.Vers[path.Clean(p)]
	cur := "\x00missing"
	var out []string
	add := func(s string) {
		for _, o := range out {
			if o == s {
				return
			}
		}
		out = append(out, s)
	}
	for _, v := range vs {
		if v.Seq > to {
			break
		}
		if v.Seq >= from && len(out) == 0 {
			add(cur)
		}
		cur = v.Data
		if !v.Exists {
			cur = "\x00missing"
		}
		if v.Seq >= from {
			add(cur)
		}
	}
	if len(out) == 0 {
		add(cur)
	}
	return out
}

// ioFaults says how often reading a path failed in a window, and whether the
// failure can only have hit this session.
func (m *Model) ioFaults(p string, s *world.Session, from, to int) (hit, only bool) {
	for _, e := range m.r.W.Hist {
		if e.Seq < from || e.Seq > to || e.Kind != "fault" || e.B != p {
			continue
		}
		if !strings.HasPrefix(e.A, "fs.open:") && !strings.HasPrefix(e.A, "fs.read:") {
			continue
		}
		hit = true
		n := 0
		for _, o := range m.r.W.Sess {
			hi := o.CloseSeq
			if hi == 0 {
				hi = m.r.EndSeq
			}
			if o.ConnSeq <= e.Seq && e.Seq <= hi {
				n++
			}
		}
		if n == 1 {
			only = true
		}
	}
	return
}

const broken = "\x00broken"

// loadRules chooses the rules of the session. It returns false when the
// rules could not be loaded.
func (sm *sessModel) loadRules() bool {
	m := sm.m
	lo, hi := sm.s.ConnSeq, sm.s.NextSeq
	if hi == 0 {
		hi = sm.s.CloseSeq
	}
	if hi == 0 {
		hi = m.r.EndSeq
	}
	var rs []*Rule
	rs = append(rs, baseRules(&m.r.P.Flags)...)
	nth := map[string]int{}
	faulty := false
	var load func(p string, depth int) bool
	load = func(p string, depth int) bool {
		if depth > 20 {
			return false // it includes itself
		}
		nth[p]++
		vs := m.versions(p, lo, hi)
		hit, only := m.ioFaults(clean(p), sm.s, lo, hi)
		if hit {
			faulty = true
			if only {
				vs = []string{broken}
			} else {
				vs = append(append([]string(nil), vs...), broken)
			}
		}
		v := vs[sm.c.pick(fmt.Sprint("rules:", p, nth[p]), len(vs))]
		if v == broken || v == "\x00missing" {
			return false
		}
		f := m.rules[v]
		if f == nil {
			if strings.TrimSpace(v) == "" {
				return true
			}
			panic("model: unknown rules text " + v)
		}
		for _, it := range f.Items {
			if it.Inc != "" {
				if !load(it.Inc, depth+1) {
					return false
				}
				continue
			}
			rs = append(rs, it.R)
		}
		return f.Broken == ""
	}
	for _, p := range m.r.P.Flags.Rules {
		if !load(p, 0) {
			sm.culprit = p
			if faulty { // it may have hit another reading of the file
				sm.culprit = "?"
			}
			return false
		}
	}
	sm.rs = rs
	return true
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	return path.Clean(p)
}

// baseRules are the rules the command line stands for.
func baseRules(f *Flags) []*Rule {
	one := func(ph, act string, e *Expr) *Rule { return &Rule{Phase: ph, Act: act, Cl: []Clause{{E: e}}} }
	var rs []*Rule
	if !f.NoStd {
		rs = append(rs, one("", "reject", &Expr{Op: "from-has", Opts: []string{"bad", "route"}}),
			one("", "reject", &Expr{Op: "to-has", Opts: []string{"bad", "route"}}),
			one("", "reject", &Expr{Op: "helo-has", Opts: []string{"none"}}))
	}
	if f.M {
		rs = append(rs, one("message", "reject", &Expr{Op: "all"}))
	}
	if f.FromReject != "" {
		rs = append(rs, one("", "reject", &Expr{Op: "from", Arg: "file:" + f.FromReject}))
	}
	if f.ToAccept != "" {
		rs = append(rs, one("", "reject", &Expr{Op: "not", Kids: []*Expr{{Op: "to", Arg: "file:" + f.ToAccept}}}))
	}
	if f.HeloReject != "" {
		rs = append(rs, one("from", "reject", &Expr{Op: "helo", Arg: "file:" + f.HeloReject}))
	}
	return rs
}

var stallAll = []*Rule{{Act: "stall", Cl: []Clause{{E: &Expr{Op: "all"}}}}}

// zone is the DNS of the session's time.
func (sm *sessModel) zone() *world.Zone {
	if r := sm.m.r; r.ZoneSeq > 0 && sm.s.ConnSeq > r.ZoneSeq {
		return r.P.Zone2
	}
	return &sm.m.r.P.Zone
}

// dns returns "ok", "nx" or "temp" for a lookup of this session.
func (sm *sessModel) dns(kind, name, scope string) string {
	z := sm.zone()
	if kind != "PTR" && !world.ValidName(name) {
		return "nx"
	}
	truth := "nx"
	switch kind {
	case "A":
		if len(z.A[name]) > 0 {
			truth = "ok"
		}
	case "MX":
		if len(z.MX[name]) > 0 {
			truth = "ok"
		}
	case "PTR":
		if len(z.PTR[name]) > 0 {
			truth = "ok"
		}
	}
	switch z.Fail[kind+" "+name] {
	case "":
	case "NX":
		truth = "nx"
	default:
		truth = "temp"
	}
	flaky := false
	for _, f := range sm.m.dnsf {
		if f.Err != "" && (f.Op == "dns."+kind || f.Op == "dns.*") && strings.HasPrefix(name, f.Match) {
			flaky = true
		}
	}
	if !flaky {
		return truth
	}
	var seen []string
	for _, a := range sm.m.r.W.DNSSeen {
		if a.Seq < sm.s.ConnSeq || a.Seq > sm.at || a.Kind != kind || a.Name != name {
			continue
		}
		dup := false
		for _, s := range seen {
			dup = dup || s == a.Res
		}
		if !dup {
			seen = append(seen, a.Res)
		}
	}
	if len(seen) == 0 {
		seen = []string{truth} // not asked: it does not matter
	}
	return seen[sm.c.pick("dns:"+kind+":"+name+":"+scope, len(seen))]
}

func bareIP(s string) string {
	if i := strings.IndexByte(s, '%'); i >= 0 {
		return s[:i]
	}
	return s
}

// rdns works out the reverse DNS facts about the client.
func (sm *sessModel) rdns() {
	z := sm.zone()
	if sm.dns("PTR", sm.rip, "s") != "ok" {
		return
	}
	names := append([]string(nil), z.PTR[sm.rip]...)
	sort.Strings(names)
	for _, n := range names {
		if !world.ValidName(n) {
			continue // net's resolver withholds such names
		}
		k := world.Norm(n)
		if sm.dns("A", k, "rdns") != "ok" {
			sm.nofwd = append(sm.nofwd, n)
			continue
		}
		okv := false
		for _, a := range z.A[k] {
			if net.ParseIP(a).Equal(net.ParseIP(bareIP(sm.rip))) {
				okv = true
			}
		}
		if okv {
			sm.verified = append(sm.verified, n)
		} else {
			sm.incons = append(sm.incons, n)
		}
	}
}

var badNets = func() []*net.IPNet {
	var l []*net.IPNet
	for _, s := range []string{"10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16", "fc00::/7", "fec0::/10"} {
		_, n, _ := net.ParseCIDR(s)
		l = append(l, n)
	}
	return l
}()

// host says whether a mail target's addresses are usable.
func (sm *sessModel) host(n, scope string) string {
	n = world.Norm(n)
	switch sm.dns("A", n, scope) {
	case "temp":
		return "unknown"
	case "nx":
		return "baddom"
	}
	for _, a := range sm.zone().A[n] {
		ip := net.ParseIP(a)
		if !ip.IsGlobalUnicast() {
			return "baddom"
		}
		for _, b := range badNets {
			if b.Contains(ip) {
				return "baddom"
			}
		}
	}
	return "resolves"
}

func (sm *sessModel) domain(d string) string {
	if v, ok := sm.domc[d]; ok {
		return v
	}
	v := sm.domain1(d)
	sm.domc[d] = v
	return v
}

func (sm *sessModel) domain1(d string) string {
	n := world.Norm(d)
	// an answer holds for the session, but another spelling of the domain may
	// be looked up anew
	scope := "d:" + d
	switch sm.dns("MX", n, scope) {
	case "temp":
		return "unknown"
	case "nx":
		return sm.host(n, scope)
	}
	best := "baddom"
	rank := map[string]int{"baddom": 0, "unknown": 1, "resolves": 2}
	var mxs []string
	for _, mx := range sm.zone().MX[n] {
		if world.ValidName(mx.Host) {
			mxs = append(mxs, mx.Host)
		}
	}
	if len(mxs) == 0 && sm.c.pick("nomx:"+d, 2) == 1 {
		// no well-formed MX: to the daemon this may look like none at all
		return sm.host(n, scope)
	}
	for _, mx := range sm.zone().MX[n] {
		h := strings.ToLower(mx.Host)
		if h == "." || h == "localhost." {
			return "baddom"
		}
	}
	for _, mx := range mxs {
		if v := sm.host(mx, scope); rank[v] > rank[best] {
			best = v
		}
	}
	return best
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// addrAttrs lists the attributes of an address.
func (sm *sessModel) addrAttrs(a string) map[string]bool {
	o := map[string]bool{}
	if a == "" {
		return o
	}
	at := strings.IndexByte(a, '@')
	last := a[len(a)-1]
	if at < 0 {
		o["noat"] = true
	} else {
		if at == 0 {
			if strings.IndexByte(a[1:], '@') < 0 {
				o["garbage"] = true
			} else {
				o["route"] = true
			}
		}
		if !strings.Contains(a[at+1:], ".") {
			o["unqualified"] = true
		}
	}
	if a[0] == '<' || strings.IndexByte(">\"].", last) >= 0 || at == len(a)-1 {
		o["garbage"] = true
	}
	if strings.Contains(a, "..") || strings.Contains(a, "@@") {
		o["garbage"] = true
	}
	if i := strings.IndexByte(a, '"'); i >= 0 && i != len(a)-1 {
		o["quoted"] = true
	}
	if !o["noat"] && !o["unqualified"] && !o["garbage"] && !o["route"] {
		o[sm.domain(a[at+1:])] = true
	}
	return o
}

func (sm *sessModel) addrHas(a string, opts []string) bool {
	at := sm.addrAttrs(a)
	for _, o := range opts {
		if o == "bad" {
			if at["noat"] || at["quoted"] || at["unqualified"] || at["garbage"] {
				return true
			}
		} else if at[o] {
			return true
		}
	}
	return false
}

func (sm *sessModel) heloHas(opts []string) bool {
	o := map[string]bool{}
	if sm.heloCmd == "HELO" {
		o["helo"] = true
	} else {
		o["ehlo"] = true
	}
	h := sm.helo
	switch {
	case h == "":
		o["none"], o["nodots"] = true, true
	case h == ".":
		o["bogus"], o["nodots"] = true, true
	default:
		if !strings.ContainsAny(h, ".:") {
			o["nodots"] = true
		}
		ip := ""
		if net.ParseIP(h) != nil {
			o["bareip"], o["ip"] = true, true
			ip = h
		}
		if len(h) > 2 && h[0] == '[' && h[len(h)-1] == ']' && net.ParseIP(h[1:len(h)-1]) != nil {
			o["properip"], o["ip"] = true, true
			ip = h[1 : len(h)-1]
		}
		if ip != "" {
			switch ip {
			case sm.rip:
				o["remip"] = true
			case sm.lip:
				o["myip"] = true
			default:
				o["otherip"] = true
			}
		}
	}
	for _, x := range opts {
		if o[x] {
			return true
		}
	}
	return false
}

func (sm *sessModel) dnsHas(opts []string) bool {
	o := map[string]bool{}
	if len(sm.verified) == 0 {
		o["nodns"] = true
	} else {
		o["exists"] = true
	}
	if len(sm.nofwd) > 0 {
		o["noforward"] = true
	}
	if len(sm.incons) > 0 {
		o["inconsistent"] = true
	}
	if o["exists"] && !o["noforward"] && !o["inconsistent"] {
		o["good"] = true
	}
	for _, x := range opts {
		if o[x] {
			return true
		}
	}
	return false
}

// domMatch: pattern "b.com" is literal, ".b.com" is b.com and below.
func domMatch(d, pat string) bool {
	if d == pat {
		return true
	}
	if strings.HasPrefix(pat, ".") && len(pat) > 1 {
		return "."+d == pat || strings.HasSuffix(d, pat)
	}
	return false
}

func (sm *sessModel) matchAddr(a, pat string) bool {
	a = strings.ToLower(a)
	if a == "" {
		return pat == "<>"
	}
	at := strings.IndexByte(a, '@')
	if at == 0 || at == len(a)-1 {
		if a == pat {
			// the documentation says no pattern matches such an
			// address, a literal reading of "a@b" says it does
			return sm.c.pick("oddaddr:"+a, 2) == 1
		}
		return false
	}
	if a == pat {
		return true
	}
	if at < 0 {
		return a+"@" == pat
	}
	local, dom := a[:at], a[at+1:]
	switch {
	case pat == "@":
		return true
	case strings.HasPrefix(pat, "@"):
		return domMatch(dom, pat[1:])
	case strings.HasSuffix(pat, "@"):
		return local+"@" == pat
	}
	return false
}

func matchHost(h, pat string) bool {
	h = strings.ToLower(h)
	if h == "" || pat == "" {
		return false
	}
	if strings.HasSuffix(h, ".") && !strings.HasSuffix(pat, ".") {
		h = h[:len(h)-1]
	}
	return domMatch(h, pat)
}

func matchIP(rip, pat string) bool {
	ip := net.ParseIP(bareIP(rip))
	if ip == nil {
		return false
	}
	if p := net.ParseIP(pat); p != nil {
		return ip.Equal(p)
	}
	if _, n, err := net.ParseCIDR(pat); err == nil {
		return n.Contains(ip)
	}
	return false
}

// parseList is the content of a list file.
func parseList(t string) []string {
	var l []string
	for _, x := range strings.Split(t, "\n") {
		x = strings.TrimSpace(x)
		if x == "" || x[0] == '#' {
			continue
		}
		l = append(l, strings.ToLower(x))
	}
	return l
}

// pats returns the patterns an argument stands for; nil sets miss.
func (sm *sessModel) pats(arg string) []string {
	fn := ""
	switch {
	case strings.HasPrefix(arg, "/") || strings.HasPrefix(arg, "./"):
		fn = arg
	case strings.HasPrefix(arg, "file:"):
		fn = arg[5:]
	default:
		return []string{strings.ToLower(arg)}
	}
	p := clean(fn)
	// the first use settles what the session sees
	v, ok := sm.forced[p]
	if !ok {
		vs := sm.m.versions(p, sm.s.ConnSeq, sm.at)
		hit, only := sm.m.ioFaults(p, sm.s, sm.s.ConnSeq, sm.at)
		if hit {
			if only {
				vs = []string{broken}
			} else {
				vs = append(append([]string(nil), vs...), broken)
			}
		}
		v = vs[sm.c.pick("list:"+p, len(vs))]
		if sm.forced == nil {
			sm.forced = map[string]string{}
		}
		sm.forced[p] = v
	}
	if v == broken || v == "\x00missing" {
		return nil
	}
	return parseList(v)
}

func (sm *sessModel) any(arg string, items []string, f func(a, p string) bool) bool {
	ps := sm.pats(arg)
	if len(ps) == 0 {
		sm.miss = true
		return false
	}
	for _, p := range ps {
		for _, a := range items {
			if f(a, p) {
				return true
			}
		}
	}
	return false
}

func (sm *sessModel) eval(e *Expr) bool {
	switch e.Op {
	case "and":
		for _, k := range e.Kids {
			if !sm.eval(k) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range e.Kids {
			if sm.eval(k) {
				return true
			}
		}
		return false
	case "not":
		return !sm.eval(e.Kids[0])
	case "all":
		return true
	case "tls":
		return (e.Arg == "on") == sm.tls
	case "from":
		return sm.any(e.Arg, []string{sm.from}, sm.matchAddr)
	case "to":
		return sm.any(e.Arg, []string{sm.rcpt}, sm.matchAddr)
	case "helo", "ehlo":
		return sm.any(e.Arg, []string{sm.helo}, matchHost)
	case "host":
		return sm.any(e.Arg, sm.verified, matchHost)
	case "ip":
		return sm.any(e.Arg, []string{sm.rip}, matchIP)
	case "source":
		if sm.any(e.Arg, sm.verified, matchHost) || sm.any(e.Arg, []string{sm.helo}, matchHost) {
			return true
		}
		return sm.any(e.Arg, []string{sm.from}, func(a, p string) bool { return sm.matchAddr(a, "@"+p) })
	case "from-has":
		return sm.addrHas(sm.from, e.Opts)
	case "to-has":
		return sm.addrHas(sm.rcpt, e.Opts)
	case "helo-has":
		return sm.heloHas(e.Opts)
	case "dns":
		return sm.dnsHas(e.Opts)
	case "dnsbl":
		s := strings.Split(sm.rip, ".")
		if len(s) != 4 {
			return false
		}
		return sm.listed(fmt.Sprintf("%s.%s.%s.%s.%s", s[3], s[2], s[1], s[0], e.Arg))
	case "dbl":
		r := false
		names := map[string]bool{}
		for _, o := range e.Opts {
			if (o == "helo" || o == "ehlo" || o == "any") && sm.helo != "" {
				names[sm.helo] = true
			}
			if o == "host" || o == "any" {
				for _, l := range [][]string{sm.verified, sm.nofwd, sm.incons} {
					for _, n := range l {
						names[strings.TrimSuffix(n, ".")] = true
					}
				}
			}
			if o == "from" || o == "any" {
				at := sm.addrAttrs(sm.from)
				if at["resolves"] || at["baddom"] || at["unknown"] {
					names[sm.from[strings.IndexByte(sm.from, '@')+1:]] = true
				}
			}
		}
		var l []string
		for n := range names {
			l = append(l, n)
		}
		sort.Strings(l)
		for _, n := range l {
			if sm.listed(n + "." + e.Arg) {
				r = true
			}
		}
		return r
	}
	panic("model: op " + e.Op)
}

func (sm *sessModel) listed(name string) bool {
	n := world.Norm(name)
	// every look at a blocklist is a lookup of its own
	sm.nbl++
	return sm.dns("A", n, fmt.Sprint(sm.at, sm.nbl)) == "ok"
}

// decide evaluates the rules in a phase.
func (sm *sessModel) decide(ph string) string {
	pn := phaseNo[ph]
	sm.props = map[string]string{}
	if sm.def != "" && ph != "connect" {
		sm.props = sm.defProps
		return sm.def
	}
	res := "none"
	for _, r := range sm.rs {
		if r.needs() > pn || (r.Phase != "" && phaseNo[r.Phase] != pn) {
			continue
		}
		ok := false
		if pn > 4 && r.needs() >= 4 {
			for _, rc := range sm.rcpts {
				sm.rcpt = rc
				ok = sm.check(r)
				if ok || sm.miss {
					break
				}
			}
			sm.rcpt = ""
		} else {
			ok = sm.check(r)
		}
		if sm.miss || !ok {
			continue
		}
		if r.Act != "set-with" {
			res = r.Act
			break
		}
	}
	if ph == "from" && sm.from == "" && (res == "stall" || res == "reject") {
		sm.def, sm.defProps = res, sm.props
		sm.props = map[string]string{}
		res = "accept"
	}
	return res
}

func (sm *sessModel) check(r *Rule) bool {
	sm.miss = false
	for _, c := range r.Cl {
		ok := sm.eval(c.E)
		if sm.miss {
			return false
		}
		if ok {
			for _, w := range c.W {
				sm.props[w.K] = w.V
			}
			return true
		}
	}
	return false
}

// Judged is the outcome of judging one session.
type Judged struct {
	OK      bool
	Unsure  bool // too many combinations
	Why     string
	Exps    []Exp // per step
	Good    bool  // rules loaded
	Runs    int
	Dropped bool
	Conn    map[string]string // what the connect phase set
	ConnAct string            // and its verdict
	Part    bool              // there are explanations that were not looked at
}

// Judge explains a session or says why it cannot be explained.
func (m *Model) Judge(s *world.Session, opt JudgeOpt) *Judged {
	c := &chooser{}
	var first *Judged
	best := ""
	bestN := -1
	for {
		c.pos = 0
		c.memo = map[string]int{}
		c.runs++
		j, n := m.try(s, c, opt)
		if j.OK && opt.Each != nil {
			opt.Each(j)
		}
		if j.OK && first == nil {
			first = j
			first.Runs = c.runs
			if !opt.All {
				return first
			}
		} else if j.OK {
			// another explanation: where it puts messages counts too
			for i := range first.Exps {
				if i < len(j.Exps) && j.Exps[i].Dir != first.Exps[i].Dir {
					first.Exps[i].Alt = append(append([]string(nil), first.Exps[i].Alt...), j.Exps[i].Dir)
				}
				if i < len(j.Exps) && j.Exps[i].Act != first.Exps[i].Act {
					first.Exps[i].Act = ""
				}
			}
		}
		if first != nil {
			if !c.next() {
				return first
			}
			if c.runs >= 200 {
				first.Part = true
				return first
			}
			continue
		}
		if n > bestN {
			bestN, best = n, j.Why
		}
		if c.runs >= maxRuns {
			return &Judged{Unsure: true, Runs: c.runs, OK: true}
		}
		if !c.next() {
			return &Judged{Why: best, Runs: c.runs}
		}
	}
}

// JudgeOpt says what may differ from the rules' verdict.
type JudgeOpt struct {
	// Stalled: the session may be one of a do-nothing client, answered
	// with 4xx throughout.
	Stalled func(s *world.Session) bool
	// SaveFault: storage trouble may turn the answer to a message into 4xx.
	SaveFault func(st *world.Step) bool
	// RsetDrop: the do-nothing limit may turn a good MAIL FROM into 4xx.
	RsetDrop func(s *world.Session, i int) bool
	NoMsg    bool // do not compare reply texts
	All      bool // collect what all explanations say about directories
	// Each is called with every explanation found (with All).
	Each func(j *Judged)
}

func (m *Model) try(s *world.Session, c *chooser, opt JudgeOpt) (j *Judged, n int) {
	j = &Judged{}
	sm := &sessModel{m: m, s: s, c: c, domc: map[string]string{}, dir: m.r.P.Flags.Dir}
	sm.rip, _, _ = net.SplitHostPort(s.Raddr)
	sm.lip, _, _ = net.SplitHostPort(s.Laddr)
	sm.at = s.NextSeq
	if sm.at == 0 {
		sm.at = s.CloseSeq
	}
	if sm.at == 0 {
		sm.at = m.r.EndSeq
	}
	if s.NewSeq == 0 {
		j.OK = true
		return
	}
	j.Good = sm.loadRules()
	if !j.Good || (opt.Stalled != nil && opt.Stalled(s)) {
		sm.rs = stallAll
	}
	sm.rdns()
	res := sm.decide("connect")
	j.Conn, j.ConnAct = sm.props, res
	if res == "reject" {
		j.Dropped = true
		if s.NextSeq != 0 {
			j.Why = "a rule rejects the connection, but it was greeted"
			return
		}
		j.OK = true
		return
	}
	if s.NextSeq == 0 {
		if s.CloseSeq != 0 && !s.Died {
			j.Why = "the connection was dropped before the greeting without a rule saying so"
			return
		}
		j.OK = true
		return
	}
	if d := sm.props["savedir"]; d != "" {
		sm.dir = d
	}
	for i, st := range s.Steps {
		n = i
		e := Exp{Dir: sm.dir, Alt: sm.alt}
		sm.step = st
		sm.at = st.Seq1
		if sm.at == 0 {
			sm.at = m.r.EndSeq
			if s.CloseSeq != 0 {
				sm.at = s.CloseSeq
			}
		}
		ph := ""
		switch {
		case st.What == "GOTDATA":
			ph = "message"
			sm.rcpt = ""
		case st.What != "COMMAND":
		case st.Cmd == "HELO" || st.Cmd == "EHLO":
			ph = "helo"
			sm.heloCmd, sm.helo, sm.def = st.Cmd, st.Arg, ""
		case st.Cmd == "MAIL FROM":
			ph = "from"
			sm.from, sm.def = st.Arg, ""
		case st.Cmd == "RCPT TO":
			ph = "to"
			sm.rcpt = st.Arg
		case st.Cmd == "DATA":
			ph = "data"
			sm.rcpt = ""
		}
		sm.tls = st.TLSOn
		if ph == "" {
			j.Exps = append(j.Exps, e)
			continue
		}
		res := sm.decide(ph)
		e.Act = res
		if res == "none" {
			e.Act = "accept"
		}
		e.Props = sm.props
		old, alt := sm.dir, sm.alt
		if d := sm.props["savedir"]; d != "" {
			sm.dir, sm.alt = d, nil
		}
		if ph == "message" && st.Code/100 == 4 && opt.SaveFault != nil && opt.SaveFault(st) {
			// whether the rules were asked at all is open
			if sm.dir != old || len(alt) > 0 {
				sm.alt = append(append([]string(nil), alt...), old)
			}
		}
		j.Exps = append(j.Exps, e)
		if st.Code == 0 {
			// never answered: the daemon died or the session ended
			if !s.Died && s.CloseSeq != 0 {
				j.Why = fmt.Sprintf("%s %q was never answered", ph, st.Arg)
				return
			}
			break
		}
		cls := st.Code / 100
		okc := false
		switch e.Act {
		case "accept":
			okc = cls == 2 || cls == 3
		case "stall":
			okc = cls == 4
		case "reject":
			okc = cls == 5
		}
		if !okc && ph == "from" && e.Act == "accept" && cls == 4 && opt.RsetDrop != nil && opt.RsetDrop(s, i) {
			j.Exps[len(j.Exps)-1].Act = "rsetdrop"
			break
		}
		if !okc && ph == "message" && cls == 4 && opt.SaveFault != nil && opt.SaveFault(st) {
			continue
		}
		if !okc {
			j.Why = fmt.Sprintf("%s %q: the rules say %s, the reply was %d %s", ph, short(st.Arg), e.Act, st.Code, strings.Join(st.Lines, " / "))
			return
		}
		if e.Props["message"] == "" && len(st.Lines) > 0 && m.texts[st.Lines[0]] && !opt.NoMsg {
			j.Why = fmt.Sprintf("%s %q: the rules give no reply text, the reply was %q", ph, short(st.Arg), st.Lines)
			return
		}
		if msg := e.Props["message"]; msg != "" && (ph != "helo" || e.Act != "accept") && !opt.NoMsg {
			want := strings.Split(msg, "\n")
			if len(st.Lines) < len(want) || strings.Join(st.Lines[:len(want)], "\n") != msg {
				j.Why = fmt.Sprintf("%s %q: the rules give the reply text %q, the reply was %q", ph, short(st.Arg), msg, st.Lines)
				return
			}
		}
		if ph == "to" && e.Act == "accept" {
			sm.rcpts = append(sm.rcpts, st.Arg)
		}
		if e.Act == "accept" && (ph == "helo" || ph == "from") {
			sm.rcpts = nil
		}
	}
	j.OK = true
	n = len(s.Steps)
	return
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

var _ = rt.Hash
