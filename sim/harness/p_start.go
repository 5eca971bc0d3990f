package harness

import (
	"fmt"
	"sort"
	"strings"

	"vsim/world"
)

// C15: the daemon comes up if and only if its configuration is sound.

func init() {
	register(&Profile{ID: "C15", Gen: genC15, Judge: judgeC15})
}

// reason is why the daemon must not start. tok is what its complaint must
// mention, if that is known.
type reason struct {
	why, tok string
	late     bool // may come to light after the first client
}

func (p *Plan) file(name string) (*File, bool) {
	name = clean(name)
	for i := range p.Files {
		if clean(p.Files[i].Path) == name {
			return &p.Files[i], true
		}
	}
	return nil, false
}

func (p *Plan) isDir(name string) bool {
	name = clean(name)
	for _, d := range []string{"/", "/tmp", "/cfg", "/log", "/cwd"} {
		if d == name {
			return true
		}
	}
	f, ok := p.file(name)
	return ok && f.Dir
}

func parent(name string) string {
	name = clean(name)
	if i := strings.LastIndexByte(name, '/'); i > 0 {
		return name[:i]
	}
	return "/"
}

// rulesLoad says whether a rules file is good.
func (p *Plan) rulesLoad(name string, depth int) bool {
	f, ok := p.file(name)
	if !ok || f.Dir || depth > 20 {
		return false
	}
	if f.Rule == nil {
		return strings.TrimSpace(f.Text) == ""
	}
	for _, it := range f.Rule.Items {
		if it.Inc != "" && !p.rulesLoad(it.Inc, depth+1) {
			return false
		}
	}
	return f.Rule.Broken == ""
}

func (p *Plan) certsLoad(c, k string) bool {
	cl, kl := strings.Split(c, ","), strings.Split(k, ",")
	if len(cl) != len(kl) {
		return false
	}
	for i := range cl {
		a, ok1 := p.file(cl[i])
		b, ok2 := p.file(kl[i])
		if !ok1 || !ok2 || a.Dir || b.Dir {
			return false
		}
		if _, ok := loadPair(a.text(), b.text()); !ok {
			return false
		}
	}
	return true
}

// refusals lists what is wrong with a configuration.
func (p *Plan) refusals() []reason {
	var l []reason
	add := func(bad bool, why, tok string) {
		if bad {
			l = append(l, reason{why: why, tok: tok})
		}
	}
	f := &p.Flags
	add(len(p.Listen) == 0, "there is nothing to listen on", "")
	add(f.Dir == "" && !f.M && !f.Force, "there is no place for mail", "")
	hash := f.SaveHash
	if hash == "" {
		hash = "all"
	}
	add(hash == "msg" && f.Log == "", "-save-hash=msg without -l", "")
	add(hash != "msg" && hash != "all" && hash != "full", "bad -save-hash", hash)
	add(f.DnCount > 0 && f.Smtplog == "", "-dncount without -smtplog", "")
	small := false
	for _, x := range f.Raw {
		if strings.HasSuffix(x, "ms") || strings.HasPrefix(x, "-dndur=-") {
			small = true
		}
	}
	add(f.DnCount > 0 && small, "-dndur below one second", "")
	add(f.Dnlog != "" && f.DnCount == 0, "-dnlog without -dncount", "")
	add(f.CertRaw != "" && f.KeyRaw == "", "-c without -k", "")
	add(f.CertRaw == "" && f.KeyRaw != "", "-k without -c", "")
	add(f.CertRaw != "" && f.KeyRaw != "" && !p.certsLoad(f.CertRaw, f.KeyRaw), "the certificates do not load", "")
	for _, x := range []string{f.Smtplog, f.Log, f.Dnlog} {
		if x != "" && x != "-" {
			add(p.isDir(x) || !p.isDir(parent(x)), "the log "+x+" cannot be opened", x)
		}
	}
	add(f.Dir != "" && !p.isDir(f.Dir), "there is no save directory "+f.Dir, f.Dir)
	if f.ConnCfg != "" {
		c, ok := p.file(f.ConnCfg)
		if ok && !c.Dir {
			_, ok = connCfg(c.text(), func(a, b string) ([]string, bool) { return nil, p.certsLoad(a, b) })
		} else {
			ok = false
		}
		add(!ok, "-conncfg does not load", f.ConnCfg)
	}
	for _, x := range []string{f.FromReject, f.ToAccept, f.HeloReject} {
		add(strings.Contains(x, " "), "a list name breaks the rules made of options", "")
	}
	for _, x := range f.Rules {
		add(!p.rulesLoad(x, 0), "the rules file "+x+" does not load", x)
	}
	switch f.MinPhase {
	case "", "helo", "ehlo", "from", "to", "data", "message", "accepted":
	case emptyPhase:
		add(true, "empty -minphase", "")
	default:
		add(true, "bad -minphase", f.MinPhase)
	}
	seen := map[string]bool{}
	for _, x := range p.Listen {
		add(seen[x], "the address "+x+" is in use", x)
		seen[x] = true
		add(strings.HasPrefix(x, "bad"), "the address "+x+" is unusable", x)
	}
	if f.Pprof && f.PprofAt != "" {
		add(strings.HasPrefix(f.PprofAt, "bad") || seen[f.PprofAt], "the -pprof address "+f.PprofAt+" cannot be listened on", "")
		if len(l) > 0 {
			l[len(l)-1].late = l[len(l)-1].late || strings.Contains(l[len(l)-1].why, "-pprof")
		}
	}
	return l
}

func judgeC15(r *Result, st Stat) []Violation {
	var vs []Violation
	if r.S.Spin != "" {
		return crashed(r)
	}
	if len(r.Boots) == 0 {
		return nil
	}
	b := r.Boots[0]
	if b.Proc.Panic != "" {
		return crashed(r)
	}
	p := r.P
	why := p.refusals()
	// what failed while it started
	end := b.ReadySeq
	if end == 0 {
		end = r.EndSeq
	}
	either, nolitter := false, true
	first := end // from here on files are read for clients
	for _, s := range r.W.Sess {
		if s.AcceptSeq != 0 && s.AcceptSeq < first {
			first = s.AcceptSeq
		}
	}
	for _, e := range r.W.Hist {
		if e.Seq > end {
			break
		}
		if e.Seq > first && !strings.HasPrefix(e.A, "net.listen") {
			continue
		}
		switch {
		case e.Kind == "fdlimit":
			why = append(why, reason{why: "it ran out of file descriptors on " + e.A})
		case e.Kind != "fault":
		case strings.HasPrefix(e.A, "fs.open:"), strings.HasPrefix(e.A, "fs.create:"), strings.HasPrefix(e.A, "fs.read:"), strings.HasPrefix(e.A, "net.listen"):
			why = append(why, reason{why: e.A + " of " + e.B, late: p.Flags.Pprof && (e.B == "127.0.0.1:6060" || e.B == p.Flags.PprofAt)})
		default:
			either = true
			if strings.HasPrefix(e.A, "fs.remove:") {
				nolitter = false
			}
		}
	}
	errs := string(r.W.Stderr)
	greeted := 0
	for _, w := range r.Views {
		if w.Greet != nil {
			greeted++
		}
	}
	up := b.ReadySeq != 0 && (b.Proc.Exit == nil)
	sort.SliceStable(why, func(i, j int) bool { return !why[i].late && why[j].late })
	switch {
	case len(why) > 0:
		st.add("must-refuse", 1)
		st.add("nontrivial", 1)
		switch {
		case greeted > 0 && !why[0].late:
			vs = append(vs, v("unsafe-start", "the daemon serves clients although %s", why[0].why))
		case b.Proc.Exit == nil:
			vs = append(vs, v("unsafe-start", "the daemon keeps running although %s", why[0].why))
		case strings.TrimSpace(errs) == "":
			vs = append(vs, v("silent-refusal", "the daemon ended without a word although %s", why[0].why))
		case len(why) == 1 && why[0].tok != "" && !strings.Contains(errs, why[0].tok):
			vs = append(vs, v("silent-refusal", "the daemon ended because %s, but says only %q", why[0].why, errs))
		case *b.Proc.Exit == 0 && len(p.Listen) > 0:
			vs = append(vs, v("silent-refusal", "the daemon ended with status 0 although %s", why[0].why))
		}
	case either && !up:
	default:
		st.add("must-start", 1)
		if !up {
			code := -1
			if b.Proc.Exit != nil {
				code = *b.Proc.Exit
			}
			vs = append(vs, v("needless-refusal", "the daemon did not come up (status %d) although its configuration is sound: %q", code, errs))
			break
		}
		for _, w := range r.Views {
			if r.W.Fired["net.accept:fd-limit"] > 0 {
				continue // it had no descriptor to spare
			}
			if w.Sess == nil || w.Greet == nil || w.Greet.Code != 220 {
				vs = append(vs, v("deaf", "the client at %s was not greeted: %s", w.Conn.To, w.Err))
			}
		}
	}
	// what was there is still there
	for i := range p.Files {
		f := &p.Files[i]
		if f.Dir {
			continue
		}
		t, ok := r.W.FS.Get(f.Path)
		isLog := f.Path == p.Flags.Log || f.Path == p.Flags.Smtplog || f.Path == p.Flags.Dnlog
		switch {
		case !ok:
			vs = append(vs, v("damage", "starting removed %s", f.Path))
		case isLog && !strings.HasPrefix(t, f.text()):
			vs = append(vs, v("damage", "the log %s lost what was in it", f.Path))
		case !isLog && t != f.text():
			vs = append(vs, v("damage", "starting changed %s", f.Path))
		}
	}
	if d := p.Flags.Dir; d != "" && p.isDir(d) && nolitter {
		for _, n := range r.W.FS.List(clean(d)) {
			if _, ok := p.file(d + "/" + n); !ok {
				vs = append(vs, v("litter", "starting left %s/%s behind", d, n))
			}
		}
	}
	return limit(vs)
}

func genC15(g *gen) {
	p := g.p
	p.NoBoot = true
	g.k = knobs{stall: 20, reject: 25, phase: 30, compact: 15, lists: 10}
	g.net(1)
	g.domains(2)
	g.people()
	f := &p.Flags
	// bad says whether something is wrong here; the odds leave most plans
	// with no or one thing wrong
	left := []int{0, 0, 1, 1, 1, 1, 2}[g.n(7)]
	bad := func(pc int) bool {
		if left > 0 && g.pc(pc) {
			left--
			return true
		}
		return false
	}
	order := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	for i := len(order) - 1; i > 0; i-- {
		k := g.n(i + 1)
		order[i], order[k] = order[k], order[i]
	}
	p.Listen = nil
	g.certs("s1", "s2")
	p.Files = append(p.Files, File{Path: "/cfg/garbage", Text: "garbage\n"})
	for _, o := range order {
		switch o {
		case 0:
			p.Listen = [][]string{{":25"}, {"127.0.0.1:25"}, {"127.0.0.1:25", "10.0.0.5:25"}, {":25", ":26", "10.0.0.5:27"}}[g.n(4)]
			if bad(15) {
				switch g.n(4) {
				case 0:
					p.Listen = nil
				case 1:
					p.Listen = append(append([]string(nil), p.Listen...), p.Listen[0])
				case 2:
					p.Listen = append([]string{"bad"}, p.Listen...)
				case 3:
					p.Listen = append(append([]string(nil), p.Listen...), "bad.host:25")
				}
			}
		case 1:
			switch {
			case bad(15):
				f.Dir, f.Force, f.M = "", false, false
				if g.pc(50) {
					f.Dir = g.of("/nowhere", "/cfg/garbage", "/spool/sub")
				}
			case g.pc(50):
				f.Dir = g.of("/spool", "spool", "/cfg/../spool")
				g.dir(f.Dir)
				if g.pc(50) {
					p.Files = append(p.Files, File{Path: clean(f.Dir) + "/" + hash("x"), Text: "old message\n"}, File{Path: clean(f.Dir) + "/README", Text: g.of("keep\n", "keep\n", "")})
				}
			case g.pc(50):
				f.M = true
			default:
				f.Force = true
			}
		case 2:
			if bad(15) {
				f.SaveHash = g.of("msg", "none", "ALL", "sha1", "body")
				if f.SaveHash == "msg" {
					f.Log = ""
				}
			} else if f.SaveHash == "" {
				f.SaveHash = g.of("", "all", "full", "all")
				if f.Log != "" && g.pc(30) {
					f.SaveHash = "msg"
				}
			}
		case 3:
			switch {
			case bad(15):
				switch g.n(3) {
				case 0:
					f.DnCount = g.rng(1, 5)
					f.Smtplog = ""
				case 1:
					f.DnCount = g.rng(1, 5)
					f.Smtplog = "-"
					if g.pc(30) {
						f.Raw = append(f.Raw, "-dndur="+g.of("-1s", "-8h", "-1ms"))
					} else {
						f.Raw = append(f.Raw, "-dndur", g.of("500ms", "1ms", "999ms"))
					}
				case 2:
					f.Dnlog, f.DnCount = "/log/dn", 0
				}
			case g.pc(30):
				f.DnCount = g.rng(1, 5)
				f.Smtplog = g.of("/log/smtp", "-")
				f.DnDur = g.rng(1, 100)
				if g.pc(50) {
					f.Dnlog = g.of("/log/dn", "-")
				}
			}
		case 4:
			switch {
			case bad(20):
				f.CertRaw, f.KeyRaw = "/cfg/s1.crt", "/cfg/s1.key"
				switch g.n(7) {
				case 6:
					f.KeyRaw += "," + g.of("/cfg/s2.key", "/cfg/s1.key", "/cfg/garbage")
				case 0:
					f.KeyRaw = ""
				case 1:
					f.CertRaw = ""
				case 2:
					f.KeyRaw = "/cfg/s2.key"
				case 3:
					f.CertRaw += ",/cfg/s2.crt"
				case 4:
					f.CertRaw = g.of("/cfg/garbage", "/cfg/nosuch", "/cfg")
				case 5:
					f.CertRaw, f.KeyRaw = "/cfg/s1.crt,/cfg/s2.crt", "/cfg/s1.key,"+g.of("/cfg/s1.key", "/cfg/garbage", "/cfg/nosuch", "")
				}
			case g.pc(30):
				c, k := certArgs(strings.Split(g.of("s1", "s2", "s1,s2"), ","))
				f.CertRaw, f.KeyRaw = c, k
			}
		case 5:
			if g.pc(50) && f.Log == "" && f.SaveHash != "msg" {
				f.Log = g.of("/log/l", "-", "l")
			}
			if g.pc(30) && f.Smtplog == "" && f.DnCount == 0 {
				f.Smtplog = g.of("/log/smtp", "-", "/log/l")
			}
			if bad(20) {
				x := g.of("/nolog/x", "/log", "/cfg/garbage/x")
				switch {
				case f.Dnlog != "" && g.pc(50):
					f.Dnlog = x
				case f.Smtplog != "" && g.pc(50):
					f.Smtplog = x
				default:
					f.Log = x
				}
			}
		case 6:
			if bad(15) {
				f.ConnCfg = "/cfg/conn"
				switch g.n(4) {
				case 0:
				case 1:
					p.Files = append(p.Files, File{Path: f.ConnCfg, Dir: true})
				default:
					p.Files = append(p.Files, File{Path: f.ConnCfg, Text: g.goodConn() + "\n" + g.of("* cert=/cfg/s1.crt", "* what=1", "10.0.0.1 cert=/cfg/nosuch key=/cfg/s1.key\n", "* hostname", "* cert=/cfg/s2.crt key=/cfg/s1.key", "* a=b c=d e=f g=h") + "\n"})
				}
			} else if g.pc(25) {
				f.ConnCfg = "/cfg/conn"
				p.Files = append(p.Files, File{Path: f.ConnCfg, Text: g.goodConn()})
			}
		case 7:
			if g.pc(20) {
				f.FromReject = g.of("/cfg/nolist", "/cfg/garbage")
			}
			if g.pc(20) {
				f.ToAccept = g.of("/cfg/nolist", "/cfg/garbage")
			}
			if g.pc(20) {
				f.HeloReject = g.of("/cfg/nolist", "/cfg/garbage")
			}
			if bad(10) {
				*[]*string{&f.FromReject, &f.ToAccept, &f.HeloReject}[g.n(3)] = "/cfg/my list"
			}
		case 8:
			n := g.rng(0, 3)
			wrong := -1
			if bad(35) {
				n = g.rng(1, 3)
				wrong = g.n(n)
			}
			for i := 0; i < n; i++ {
				path := fmt.Sprintf("/cfg/rules%d", i)
				f.Rules = append(f.Rules, path)
				rf := g.rfile(g.rng(0, 3))
				if g.pc(25) {
					inc := fmt.Sprintf("/cfg/inc%d", i)
					rf.Items = append(rf.Items, Item{Inc: inc})
					ri := g.rfile(g.rng(0, 2))
					if wrong == i && g.pc(40) {
						wrong = -1
						switch g.n(4) {
						case 0:
							g.put(path, rf)
							continue
						case 1:
							ri.Items = append(ri.Items, Item{Inc: inc})
						case 2:
							ri.Items = append(ri.Items, Item{Inc: "/cfg/none"})
						default:
							ri = g.brokenFile()
						}
					}
					g.put(inc, ri)
				}
				if wrong == i {
					switch g.n(5) {
					case 0:
						continue // missing
					case 1:
						p.Files = append(p.Files, File{Path: path, Dir: true})
						continue
					default:
						rf.Broken = g.brokenText()
					}
				}
				g.put(path, rf)
			}
		case 9:
			f.MinPhase = g.of("", "", "helo", "ehlo", "from", "to", "data", "message", "accepted")
			if bad(10) {
				f.MinPhase = g.of("mail", "rcpt", "HELO", "connect", "quit", emptyPhase)
			}
		case 10:
			f.NoStd = g.pc(40)
			f.Pprof = g.pc(20)
			f.PerIP = g.pc(20)
			f.S = g.pc(5)
			if g.pc(50) {
				f.Helo = "mx.sink.example"
			}
		}
	}
	if f.Pprof && bad(25) {
		f.PprofAt = g.of("bad", "bad.host:6060", "bad:x")
		if len(p.Listen) > 0 && g.pc(40) {
			f.PprofAt = g.from1(p.Listen)
		}
	}
	if g.pc(40) { // logs with a past
		for _, x := range []string{f.Log, f.Smtplog, f.Dnlog} {
			if _, ok := p.file(x); x != "" && x != "-" && !ok && p.isDir(parent(x)) && !p.isDir(x) {
				t := "old line\n"
				if g.pc(15) {
					t = strings.Repeat(t, g.rng(100, 3000)) + g.of("", "part of a li")
					if g.pc(10) {
						t = strings.Repeat(t, g.rng(10, 60))
					}
				}
				p.Files = append(p.Files, File{Path: x, Text: t})
			}
		}
	}
	// clients are to be greeted: no rules that act on connect, also not
	// ones without the phase
	for i := range p.Files {
		if rf := p.Files[i].Rule; rf != nil {
			var keep []Item
			for _, it := range rf.Items {
				if it.R != nil && it.R.Phase == "connect" {
					it.R.Phase = "helo"
				}
				if it.R == nil || it.R.needs() > 0 || it.R.Phase != "" {
					keep = append(keep, it)
				}
			}
			rf.Items = keep
		}
	}
	if g.pc(35) {
		for i := g.rng(1, 2); i > 0; i-- {
			ft := world.Fault{Nth: g.rng(1, 6), Count: 1}
			switch g.n(8) {
			case 0, 1, 2:
				ft.Op, ft.Err = "fs.open", g.of("EACCES", "EMFILE", "EIO", "ENOENT", "ENFILE")
			case 3:
				ft.Op, ft.Err = "fs.create", g.of("EACCES", "EROFS", "ENOSPC", "EDQUOT")
				ft.Nth = g.rng(1, 3)
			case 4, 5:
				ft.Op, ft.Err = "fs.read", "EIO"
				if g.pc(50) {
					ft.Part = g.rng(1, 999)
				}
			case 6:
				ft.Op, ft.Err = "net.listen", "EADDRINUSE"
				ft.Nth = g.rng(1, 3)
				ft.Delay = g.rng(0, 2000)
			case 7:
				ft.Op, ft.Err = g.of("fs.close", "fs.remove", "fs.write"), "EIO"
				if ft.Op == "fs.write" {
					ft.Match, ft.Nth, ft.Err = clean(f.Dir)+"/", 1, g.of("EIO", "ENOSPC")
				}
			}
			g.fault(ft)
		}
	}
	if g.pc(6) {
		p.MaxFD = g.rng(1, 4)
	}
	p.Eager = g.pc(40)
	for i, l := range p.Listen {
		to := probeAddr(l)
		if strings.HasPrefix(to, "bad") {
			continue
		}
		p.Clients = append(p.Clients, Client{Name: fmt.Sprintf("c%d", i), Conns: []Connection{{From: g.addrOf(g.ips[0]), To: to, Acts: []Act{cmd("EHLO x.example"), cmd("QUIT")}}}})
	}
}
