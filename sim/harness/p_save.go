package harness

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"
	"net"
	"net/mail"
	"path"
	"regexp"
	"sort"
	"strings"
	"time"

	"vsim/world"
)

// What must be known about every message the daemon took in, derived from
// the session's own events and replies only.

type msgRec struct {
	s        *world.Session
	st       *world.Step
	i        int // step number
	k        int // message number in the session
	helo     string
	from     string
	to       []string
	dir      string   // directory it belongs in ("" none)
	alt      []string // other places it may be in
	dirKnown bool
	act      string // verdict of the rules, "" if not known
	id       string // ID named in the reply
}

var hex40 = regexp.MustCompile(`\b[0-9a-f]{40}\b`)
var isHex40 = regexp.MustCompile(`^[0-9a-f]{40}$`)

func hash(s string) string { return fmt.Sprintf("%x", sha1.Sum([]byte(s))) }

func bodyHash(data string) string {
	m, err := mail.ReadMessage(strings.NewReader(data))
	if err != nil {
		return "<cannot-parse-message>"
	}
	b, err := io.ReadAll(m.Body)
	if err != nil {
		return "<cannot-read-body?>"
	}
	return hash(string(b))
}

// messages lists what was received, in order, per session.
func messages(r *Result) []*msgRec {
	var l []*msgRec
	m := NewModel(r)
	for _, s := range r.W.Sess {
		j := m.Judge(s, JudgeOpt{SaveFault: func(*world.Step) bool { return true }, NoMsg: true, All: true})
		known := j.OK && !j.Unsure && !j.Part
		helo, from := "", ""
		var to []string
		k := 0
		for i, st := range s.Steps {
			ok := st.Code/100 == 2 || st.Code/100 == 3
			switch {
			case st.What == "GOTDATA":
				rec := &msgRec{s: s, st: st, i: i, k: k, helo: helo, from: from, to: append([]string(nil), to...), dir: r.P.Flags.Dir}
				k++
				if j.Unsure || j.Part {
					rec.dir = "" // it cannot be said
				}
				if known && i < len(j.Exps) {
					rec.dir, rec.dirKnown, rec.act, rec.alt = j.Exps[i].Dir, true, j.Exps[i].Act, j.Exps[i].Alt
				}
				if n := len(st.Lines); n > 0 {
					if f := hex40.FindAllString(st.Lines[n-1], -1); len(f) > 0 {
						rec.id = f[len(f)-1]
					}
				}
				l = append(l, rec)
			case st.What == "COMMAND" && ok:
				switch st.Cmd {
				case "HELO", "EHLO":
					helo, from, to = st.Arg, "", nil
				case "MAIL FROM":
					from, to = st.Arg, nil
				case "RCPT TO":
					to = append(to, st.Arg)
				}
			}
		}
	}
	return l
}

// saved is a parsed save file.
type saved struct {
	head []string
	body string
	ok   bool
}

func parseSaved(data string) saved {
	i := strings.Index(data, "\nbody\n")
	if i < 0 {
		return saved{}
	}
	return saved{head: strings.Split(data[:i], "\n"), body: data[i+6:], ok: true}
}

func (sv saved) line(pfx string) []string {
	var l []string
	for _, h := range sv.head {
		if strings.HasPrefix(h, pfx) {
			l = append(l, h[len(pfx):])
		}
	}
	return l
}

// complete checks that file contents are the whole record of a message.
func (m *msgRec) complete(r *Result, data string) string {
	sv := parseSaved(data)
	if !sv.ok {
		return fmt.Sprintf("has no body part (%d bytes: %q)", len(data), short(data))
	}
	if sv.body != m.st.Arg {
		return fmt.Sprintf("holds a body of %d bytes, the message has %d", len(sv.body), len(m.st.Arg))
	}
	want := fmt.Sprintf("%s bytes %d", hash(m.st.Arg), len(m.st.Arg))
	if l := sv.line("hash "); len(l) != 1 || l[0] != want {
		return fmt.Sprintf("has hash line %q, want %q", l, want)
	}
	if r.P.Flags.SaveHash == "msg" {
		return "" // may be the record of an earlier transaction
	}
	return m.facts(r, sv, r.P.Flags.SaveHash != "full")
}

// facts compares the recorded envelope with the transaction.
func (m *msgRec) facts(r *Result, sv saved, withID bool) string {
	rip, _, _ := net.SplitHostPort(m.s.Raddr)
	eq := func(what string, got []string, want ...string) string {
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Sprintf("records %s %q, want %q", what, got, want)
		}
		return ""
	}
	var as []string
	for _, a := range m.to {
		as = append(as, "<"+a+">")
	}
	rd := (&sessModel{m: NewModel(r), s: m.s, c: &chooser{memo: map[string]int{}}, rip: rip, at: m.st.Seq0})
	rd.rdns()
	set := func(l []string) []string {
		var o []string
		for _, x := range l {
			o = append(o, strings.Fields(x)...)
		}
		sort.Strings(o)
		return o
	}
	tls := []string{}
	if m.st.TLSOn && m.s.TLS != nil {
		t := fmt.Sprintf("cipher 0x%04x", m.s.TLS.CipherSuite)
		tls = append(tls, t)
	}
	gotTLS := sv.line("tls on ")
	var gt []string
	for _, g := range gotTLS {
		f := strings.Fields(g)
		if len(f) >= 2 {
			gt = append(gt, f[0]+" "+f[1])
		}
	}
	for _, e := range []string{
		eq("remote", sv.line("remote "), fmt.Sprintf("%s to %s with helo '%s'", rip, m.s.Laddr, m.helo)),
		eq("from", sv.line("from "), "<"+m.from+">"),
		eq("to", sv.line("to "), as...),
		eq("bodyhash", sv.line("bodyhash "), bodyHash(m.st.Arg)),
		eq("verified names", set(sv.line("remote-dns ")), set(rd.verified)...),
		eq("names without address", set(sv.line("remote-dns-nofwd ")), set(rd.nofwd)...),
		eq("inconsistent names", set(sv.line("remote-dns-inconsist ")), set(rd.incons)...),
		eq("tls", gt, tls...),
	} {
		if e != "" {
			return e
		}
	}
	if len(gotTLS) == 1 && m.s.TLS != nil {
		has := func(s string) bool { return strings.Contains(gotTLS[0]+" ", " "+s+" ") }
		if n := m.s.TLS.ServerName; n != "" && !has("server-name '"+n+"'") || n == "" && strings.Contains(gotTLS[0], "server-name") {
			return fmt.Sprintf("records tls %q, the client's SNI was %q", gotTLS[0], n)
		}
		cn, verifies := certTruth(m.s)
		if has("client-name-verified") != verifies {
			return fmt.Sprintf("records tls %q, that the client's certificate verifies is %v", gotTLS[0], verifies)
		}
		proto := map[uint16]string{0x300: "SSLv3", 0x301: "TLSv1.0", 0x302: "TLSv1.1", 0x303: "TLSv1.2", 0x304: "TLSv1.3"}[m.s.TLS.Version]
		if proto != "" && !has("proto "+proto) {
			return fmt.Sprintf("records tls %q, the version was %s", gotTLS[0], proto)
		}
		if cn != "" && !has("client-name '"+cn+"'") || len(m.s.TLS.PeerCertificates) == 0 && strings.Contains(gotTLS[0], "client-name") {
			return fmt.Sprintf("records tls %q, the client's certificate name was %q", gotTLS[0], cn)
		}
	}
	if withID {
		l := sv.line("id ")
		if len(l) != 1 || len(strings.Fields(l[0])) < 2 || strings.Fields(l[0])[1] != m.s.Raddr {
			return fmt.Sprintf("has id line %q, the client was %s", l, m.s.Raddr)
		}
	}
	return ""
}

// certifies checks that a file under a hash name is whole and is what its
// name says.
func certifies(kind, name, data string) string {
	sv := parseSaved(data)
	if !sv.ok {
		return fmt.Sprintf("is not complete (%d bytes)", len(data))
	}
	got := ""
	switch kind {
	case "msg":
		got = hash(sv.body)
	case "full":
		i := strings.IndexByte(data, '\n')
		got = hash(data[i+1:])
	default:
		got = hash(data)
	}
	if got != name {
		return fmt.Sprintf("does not hash to its name (%d bytes hash to %s)", len(data), got)
	}
	want := fmt.Sprintf("%s bytes %d", hash(sv.body), len(sv.body))
	if l := sv.line("hash "); len(l) != 1 || l[0] != want {
		return fmt.Sprintf("has hash line %q, want %q", l, want)
	}
	return ""
}

// at returns what a path held at a time.
func (r *Result) at(p string, seq int) (string, bool) {
	data, ok := "", false
	for _, v := range r.W.FS.Vers[path.Clean(p)] {
		if v.Seq > seq {
			break
		}
		data, ok = v.Data, v.Exists
	}
	return data, ok
}

// mayNone says whether it can be that nothing told where to save it.
func (m *msgRec) mayNone() bool {
	for _, a := range m.alt {
		if a == "" {
			return true
		}
	}
	return m.dir == ""
}

// file returns what the message's save file held when it was answered.
func (m *msgRec) file(r *Result) (string, bool) {
	data, ok := r.at(m.dir+"/"+m.id, m.st.Seq1)
	for _, a := range m.alt {
		if !ok {
			data, ok = r.at(a+"/"+m.id, m.st.Seq1)
		}
	}
	return data, ok
}

// promised says whether the reply told the client the message is in safe
// hands (or was kept on record), and under which ID.
func (m *msgRec) promised() bool {
	if m.st.Code == 0 {
		return false
	}
	return m.st.Code/100 == 2 || (m.st.Code/100 == 5 && m.id != "")
}

// durable checks every promise made so far against the files as they are.
func durable(r *Result, when string, bad func(Violation)) int {
	n := 0
	for _, m := range messages(r) {
		if !m.promised() || m.mayNone() {
			continue
		}
		n++
		p := m.dir + "/" + m.id
		if m.id == "" {
			bad(v("no-id", "the reply to a message from %s names no ID: %d %q", m.s.Raddr, m.st.Code, m.st.Lines))
			continue
		}
		data, ok := r.W.FS.Get(p)
		for _, a := range m.alt {
			if !ok {
				data, ok = r.W.FS.Get(a + "/" + m.id)
			}
		}
		if !ok {
			bad(v("lost", "%s: %s was promised to %s with %d at #%d but does not exist", when, p, m.s.Raddr, m.st.Code, m.st.Seq1))
			continue
		}
		if why := m.complete(r, data); why != "" {
			bad(v("lost", "%s: %s was promised to %s with %d at #%d but %s", when, p, m.s.Raddr, m.st.Code, m.st.Seq1, why))
		}
	}
	return n
}

func storageFault(r *Result, from, to int) bool {
	for _, e := range r.W.Hist {
		if e.Seq < from || e.Seq > to {
			continue
		}
		if e.Kind == "fault" && strings.HasPrefix(e.A, "fs.") && strings.HasPrefix(e.B, "/save") {
			return true
		}
		if e.Kind == "fdlimit" {
			return true
		}
	}
	return false
}

// hardFault names an injected failure of an operation that a message needs to
// be safely in its place, if one hit exactly this message's save: during its
// time, while no other message was being handled, and not for a file that was
// there already (then nothing needs to be written).
func hardFault(r *Result, ms []*msgRec, m *msgRec) string {
	if m.dir == "" || !m.dirKnown || m.id == "" || len(m.alt) > 0 {
		return ""
	}
	if _, ok := r.at(m.dir+"/"+m.id, m.st.Seq0); ok {
		return ""
	}
	in := func(o *msgRec, q int) bool { return q >= o.st.Seq0 && (o.st.Code == 0 || q <= o.st.Seq1) }
	for _, o := range ms {
		if o != m && o.id == m.id && (in(o, m.st.Seq0) || in(m, o.st.Seq0)) {
			return ""
		}
	}
	for _, e := range r.W.Hist {
		if e.Kind != "fault" || !in(m, e.Seq) || !strings.HasPrefix(e.B+"/", m.dir+"/") {
			continue
		}
		op, er, _ := strings.Cut(e.A, ":")
		switch op {
		case "fs.create", "fs.write", "fs.sync", "fs.close", "fs.link", "fs.rename":
		case "fs.syncdir":
			if er == "EINVAL" || er == "EROFS" {
				continue // no way to do this on some file systems
			}
		case "fs.opendir":
			// not being allowed to read the directory is a way to set it up
			if er == "EACCES" || er == "EPERM" || r.syncedIn(m, e.Seq) {
				continue
			}
		default:
			continue
		}
		if er == "" {
			continue
		}
		alone := true
		for _, o := range ms {
			alone = alone && (o == m || !in(o, e.Seq))
		}
		if alone {
			return e.A + " on " + e.B
		}
	}
	return ""
}

// syncedIn tells whether the directory of a message was synced after all while
// the message was handled.
func (r *Result) syncedIn(m *msgRec, after int) bool {
	for _, e := range r.W.Hist {
		if e.Kind == "fs" && e.A == "sync" && e.B == m.dir && e.Seq > after && (m.st.Code == 0 || e.Seq <= m.st.Seq1) {
			return true
		}
	}
	return false
}

func limit(vs []Violation) []Violation {
	if len(vs) > 6 {
		vs = vs[:6]
	}
	return vs
}

func init() {
	register(&Profile{ID: "C01", Gen: genC01,
		Crash: func(r *Result, power bool) {
			k := "after a crash"
			if power {
				k = "after a power loss"
			}
			durable(r, k, func(x Violation) { r.Early = append(r.Early, x) })
		},
		Judge: func(r *Result, st Stat) []Violation {
			vs := crashed(r)
			for _, m := range messages(r) {
				st.add("messages", 1)
				st.add(fmt.Sprintf("message:%dxx", m.st.Code/100), 1)
				if !m.promised() || m.mayNone() || m.id == "" {
					continue
				}
				st.add("promises", 1)
				p := m.dir + "/" + m.id
				data, ok := m.file(r)
				if !ok {
					vs = append(vs, v("lost", "%s did not exist when its message from %s was answered with %d", p, m.s.Raddr, m.st.Code))
				} else if why := m.complete(r, data); why != "" {
					vs = append(vs, v("lost", "%s when its message from %s was answered with %d: it %s", p, m.s.Raddr, m.st.Code, why))
				}
			}
			if durable(r, "at the end", func(x Violation) { vs = append(vs, x) }) > 0 && r.W.NCrash > 0 {
				st.add("nontrivial", 1)
			}
			return limit(vs)
		}})
	register(&Profile{ID: "C02", Gen: genC02, Judge: judgeC02})
	register(&Profile{ID: "C03", Gen: genC03, Judge: judgeC03,
		Crash: func(r *Result, power bool) { scanSaved(r, func(x Violation) { r.Early = append(r.Early, x) }) }})
	register(&Profile{ID: "C04", Gen: genC04, Judge: judgeC04})
}

// C02: trouble while saving is a temporary failure, nothing else is.
func judgeC02(r *Result, st Stat) []Violation {
	vs := crashed(r)
	ms := messages(r)
	for _, m := range ms {
		st.add("messages", 1)
		flt := storageFault(r, m.st.Seq0, m.st.Seq1)
		if m.st.Code == 0 {
			continue
		}
		if flt {
			st.add("message-under-fault", 1)
			st.add("nontrivial", 1)
		}
		c := m.st.Code / 100
		st.add(fmt.Sprintf("message:%dxx", c), 1)
		if c == 4 {
			if !flt && m.act != "" && m.act != "stall" {
				vs = append(vs, v("needless-4xx", "message %d of %s got %d %q although nothing went wrong with saving it (rules: %s)", m.k, m.s.Raddr, m.st.Code, m.st.Lines, m.act))
			}
			continue
		}
		if m.mayNone() {
			continue
		}
		if m.id == "" {
			vs = append(vs, v("no-id", "message %d of %s got %d without an ID: %q", m.k, m.s.Raddr, m.st.Code, m.st.Lines))
			continue
		}
		if h := hardFault(r, ms, m); h != "" {
			vs = append(vs, v("save-error-hidden", "message %d of %s was answered %d (%s) in spite of %s while it was saved", m.k, m.s.Raddr, m.st.Code, m.id, h))
			continue
		}
		data, ok := m.file(r)
		why := "is missing"
		if ok {
			why = m.complete(r, data)
		}
		if why != "" {
			vs = append(vs, v("save-error-hidden", "message %d of %s was answered %d (%s) but its save file %s", m.k, m.s.Raddr, m.st.Code, m.id, why))
		}
	}
	// the session goes on after a failed save
	for _, s := range r.W.Sess {
		if s.Died {
			continue
		}
		for i, stp := range s.Steps {
			if stp.What == "GOTDATA" && stp.Code/100 == 4 && i == len(s.Steps)-1 && s.CloseSeq != 0 {
				vs = append(vs, v("session-cut", "the daemon hung up on %s after answering a message with %d", s.Raddr, stp.Code))
			}
		}
	}
	return limit(vs)
}

// scanSaved checks all files with a hash name as they are now.
func scanSaved(r *Result, bad func(Violation)) {
	for _, d := range []string{"/save", "/save2", "/save3"} {
		for _, n := range r.W.FS.List(d) {
			if !isHex40.MatchString(n) {
				continue
			}
			data, _ := r.W.FS.Get(d + "/" + n)
			if why := certifies(r.P.Flags.SaveHash, n, data); why != "" {
				bad(v("partial", "after a crash %s/%s %s", d, n, why))
			}
		}
	}
}

func judgeC03(r *Result, st Stat) []Violation {
	vs := crashed(r)
	var ps []string
	for p := range r.W.FS.Vers {
		if strings.HasPrefix(p, "/save") && isHex40.MatchString(path.Base(p)) {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	var loss []int
	for _, e := range r.W.Hist {
		if e.Kind == "crash" && e.A == "power" {
			loss = append(loss, e.Seq)
		}
	}
	for _, p := range ps {
		st.add("files", 1)
		first := ""
		had := false
		for i, ver := range r.W.FS.Vers[p] {
			st.add("file-versions", 1)
			if !ver.Exists {
				if had {
					lost := false
					for _, l := range loss {
						lost = lost || l < ver.Seq
					}
					if !lost {
						vs = append(vs, v("removed", "%s was removed at #%d after it had become visible", p, ver.Seq))
					}
				}
				had = false
				continue
			}
			if why := certifies(r.P.Flags.SaveHash, path.Base(p), ver.Data); why != "" {
				vs = append(vs, v("partial", "%s at #%d (version %d) %s", p, ver.Seq, i, why))
				break
			}
			if had && ver.Data != first {
				vs = append(vs, v("changed", "%s changed at #%d after it had become visible", p, ver.Seq))
				break
			}
			first, had = ver.Data, true
		}
	}
	if len(ps) > 0 {
		st.add("nontrivial", 1)
	}
	dups := 0
	seen := map[string]bool{}
	for _, m := range messages(r) {
		if m.id != "" && m.dir != "" {
			if seen[m.dir+m.id] {
				dups++
			}
			seen[m.dir+m.id] = true
		}
	}
	st.add("duplicates", dups)
	return limit(vs)
}

var logRe = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) \[(\d+)/(\d+)\] from (\S+) / <(.*)> to(.*): message (\d+) bytes hash ([0-9a-f]{40}) body (\S+) \| local (\S+) helo '(.*)'( tls:cipher 0x([0-9a-f]{4}) tls:proto 0x([0-9a-f]{4}))?$`)

func judgeC04(r *Result, st Stat) []Violation {
	vs := crashed(r)
	ms := messages(r)
	pre := map[string]string{} // id prefix -> remote address
	own := map[string]string{} // remote address -> prefix
	claim := func(prefix string, s *world.Session, where string) {
		if prefix == "" {
			return
		}
		if o, ok := pre[prefix]; ok && o != s.Raddr {
			vs = append(vs, v("id-reuse", "the ID %s is used for both %s and %s (%s)", prefix, o, s.Raddr, where))
		}
		if o, ok := own[s.Raddr]; ok && o != prefix {
			vs = append(vs, v("id-change", "session %s has the IDs %s and %s (%s)", s.Raddr, o, prefix, where))
		}
		pre[prefix], own[s.Raddr] = s.Raddr, prefix
		if !strings.HasPrefix(prefix, fmt.Sprintf("%d/", s.Pid)) {
			vs = append(vs, v("id-pid", "session %s of process %d has the ID %s (%s)", s.Raddr, s.Pid, prefix, where))
		}
	}
	for _, m := range ms {
		if m.st.Code == 0 {
			continue
		}
		st.add("messages", 1)
		if m.mayNone() || !m.dirKnown {
			continue
		}
		flt := storageFault(r, m.st.Seq0, m.st.Seq1)
		if flt && m.st.Code/100 == 4 {
			continue
		}
		// find its record, whatever the verdict was
		id := m.id
		var found []string
		if id != "" {
			found = []string{id}
		} else {
			for _, d := range append([]string{m.dir}, m.alt...) {
				for _, n := range r.W.FS.List(d) {
					if isHex40.MatchString(n) {
						found = append(found, n)
					}
				}
			}
		}
		// Of records that fit the message alike, one has to have its time.
		okv, why, late := false, "there is no record of it", ""
		for _, n := range found {
			mm := *m
			mm.id = n
			data, ex := mm.file(r)
			if !ex {
				continue
			}
			w := m.complete(r, data)
			if w == "" {
				okv, late = true, ""
				sv := parseSaved(data)
				if l := sv.line("id "); len(l) == 1 && r.P.Flags.SaveHash == "all" {
					f := strings.Fields(l[0])
					claim(f[0], m.s, "save file")
					if len(f) == 4 {
						if e := m.timeOff(r, f[2]+" "+f[3]); e != "" {
							late = fmt.Sprintf("record %s of %s: %s", n, m.s.Raddr, e)
							continue
						}
					}
				}
				st.add("records", 1)
				break
			}
			if id != "" {
				why = "its record " + w
			}
		}
		if late != "" {
			vs = append(vs, v("record", "%s", late))
		}
		if !okv {
			vs = append(vs, v("record", "message %d of %s (answered %d %s): %s in %s", m.k, m.s.Raddr, m.st.Code, id, why, m.dir))
		}
	}
	if r.P.Flags.Log != "" {
		vs = append(vs, logJudge(r, st, ms, claim)...)
	}
	if st["records"] > 1 || st["log-lines"] > 1 {
		st.add("nontrivial", 1)
	}
	return limit(vs)
}

func (m *msgRec) timeOff(r *Result, got string) string {
	t, err := time.Parse("2006-01-02 15:04:05", got)
	if err != nil {
		return "bad time " + got
	}
	base := r.Base.UTC().Truncate(time.Second)
	lo := base.Add(m.st.T0).Add(-time.Second)
	hi := base.Add(m.st.T1).Add(2 * time.Second)
	for _, o := range r.P.Ops {
		if o.K == "skew" {
			return ""
		}
	}
	if t.Before(lo) || t.After(hi) {
		return fmt.Sprintf("time %s, but the message arrived at %s", got, base.Add(m.st.T0).Format("2006-01-02 15:04:05"))
	}
	return ""
}

func logJudge(r *Result, st Stat, ms []*msgRec, claim func(string, *world.Session, string)) []Violation {
	var vs []Violation
	for _, e := range r.W.Hist {
		if e.Kind == "fault" && strings.HasPrefix(e.B, r.P.Flags.Log) || e.Kind == "crash" && e.A == "power" {
			return nil
		}
	}
	text, _ := r.W.FS.Get(r.P.Flags.Log)
	if r.P.Flags.Log == "-" {
		text = string(r.W.Stdout)
	}
	bySess := map[string][]*msgRec{}
	for _, m := range ms {
		bySess[m.s.Raddr] = append(bySess[m.s.Raddr], m)
	}
	pos := map[string]int{}
	lines := strings.Split(text, "\n")
	if len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	} else if text != "" {
		vs = append(vs, v("log", "the log ends in the middle of a line"))
	}
	for _, l := range lines {
		f := logRe.FindStringSubmatch(l)
		if f == nil {
			vs = append(vs, v("log", "log line %q is not of the documented form", l))
			continue
		}
		st.add("log-lines", 1)
		q := bySess[f[4]]
		if pos[f[4]] >= len(q) {
			vs = append(vs, v("log", "log line %q stands for no message", l))
			continue
		}
		m := q[pos[f[4]]]
		pos[f[4]]++
		claim(f[2]+"/"+f[3], m.s, "message log")
		var as string
		for _, a := range m.to {
			as += " <" + a + ">"
		}
		tls := ""
		if m.st.TLSOn && m.s.TLS != nil {
			tls = fmt.Sprintf(" tls:cipher 0x%04x tls:proto 0x%04x", m.s.TLS.CipherSuite, m.s.TLS.Version)
		}
		want := []string{m.from, as, fmt.Sprint(len(m.st.Arg)), hash(m.st.Arg), bodyHash(m.st.Arg), m.s.Laddr, m.helo, tls}
		for i, w := range want {
			if f[5+i] != w {
				vs = append(vs, v("log", "log line %q should have %q for message %d of %s", l, w, m.k, m.s.Raddr))
				break
			}
		}
		if m.st.Code != 0 {
			if e := m.timeOff(r, f[1]); e != "" {
				vs = append(vs, v("log", "log line %q: %s", l, e))
			}
		}
	}
	for a, q := range bySess {
		for i := pos[a]; i < len(q); i++ {
			if q[i].st.Code != 0 {
				vs = append(vs, v("log", "message %d of %s (answered %d) is not in the log", q[i].k, a, q[i].st.Code))
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Msg < vs[j].Msg })
	return vs
}

var _ = bytes.NewReader

// ---- generation ----

// saveBase is a plan with a save directory and little else going on.
func (g *gen) saveBase() {
	p := g.p
	g.k = knobs{stall: 12, reject: 25, setWith: 30, phase: 30, lists: 0, savedir: g.pc(40), oddAddr: 4, oddHelo: 6, tlsOp: g.pc(30), lateOnly: true}
	g.net(g.rng(1, 2))
	g.domains(2)
	g.people()
	g.from, g.to = g.from[:2], g.to[:2]
	g.helo = g.helo[:2]
	f := &p.Flags
	f.Helo = "mx.sink.example"
	f.Dir = "/save"
	if g.pc(10) {
		p.DirMode = g.of("nosync", "noread")
	}
	f.SaveHash = g.of("all", "full", "msg")
	f.Log = "/log/msgs"
	f.M = g.pc(20)
	f.NoStd = g.pc(30)
	g.dir("/save")
	g.dir("/save2")
	g.dir("/save3")
	if g.k.tlsOp {
		f.Certs = []string{"s1"}
		g.certs("s1")
	}
	if g.k.savedir || g.pc(30) {
		rf := g.rfile(g.rng(1, 3))
		for i := range rf.Items {
			// storage is the point: few refusals before the message
			if rl := rf.Items[i].R; rl.Act != "set-with" && !g.pc(25) {
				rl.Act = "set-with"
				for k := range rl.Cl {
					if len(rl.Cl[k].W) == 0 {
						rl.Cl[k].W = []With{{"message", "hello there"}}
						if g.k.savedir {
							rl.Cl[k].W = append(rl.Cl[k].W, With{"savedir", g.of("/save2", "/save3")})
						}
					}
				}
			}
		}
		g.put("/cfg/rules", rf)
		f.Rules = []string{"/cfg/rules"}
	}
}

// senders makes clients that mostly deliver mail, often the same mail.
func (g *gen) senders(n, conns, msgs int) {
	n += g.more()
	var pool []string
	for i := 0; i < 3; i++ {
		pool = append(pool, g.body())
	}
	for i := 0; i < n; i++ {
		c := Client{Name: fmt.Sprintf("c%d", i)}
		ip := g.from1(g.ips)
		for k := g.rng(1, conns); k > 0; k-- {
			var a []Act
			a = append(a, g.hello(ip))
			if g.k.tlsOp && g.pc(40) {
				a = append(a, g.tlsAct()...)
				a = append(a, g.hello(ip))
			}
			q := g.rng(1, msgs)
			if g.n(200) == 0 { // a long session
				q = g.rng(8, 40)
			}
			for ; q > 0; q-- {
				a = append(a, cmd("MAIL FROM:<%s>", g.fromAddr()))
				for x := g.nrcpt(2); x > 0; x-- {
					a = append(a, cmd("RCPT TO:<%s>", g.toAddr()))
				}
				b := g.from1(pool)
				if g.pc(30) {
					b = g.body()
				}
				if g.pc(4) {
					a = append(a, cmd("RSET"))
					continue
				}
				a = append(a, cmd("DATA"), Act{K: "msg", T: b})
				if g.pc(10) {
					a = append(a, g.hello(ip))
				}
			}
			switch g.n(8) {
			case 0:
				a = append(a, Act{K: "close"})
			case 1:
				a = append(a[:len(a)-1], Act{K: g.of("close", "reset")})
			default:
				a = append(a, cmd("QUIT"))
			}
			if g.pc(30) {
				var b []Act
				for _, x := range a {
					if g.pc(20) {
						b = append(b, Act{K: "sleep", N: g.rng(1, 300)})
					}
					b = append(b, x)
				}
				a = b
			}
			cn := Connection{From: g.addrOf(ip), To: g.target(), Acts: a}
			if g.pc(50) {
				cn.Wait = g.rng(0, 200)
			}
			c.Conns = append(c.Conns, cn)
		}
		g.p.Clients = append(g.p.Clients, c)
	}
}

var saveOps = []string{"fs.create", "fs.write", "fs.write", "fs.sync", "fs.close", "fs.link", "fs.rename", "fs.remove", "fs.opendir", "fs.syncdir", "fs.stat", "fs.open", "fs.read", "fs.truncate"}

func (g *gen) saveFault(crash int) {
	f := world.Fault{Op: g.from1(saveOps), Match: "/save", Nth: g.rng(1, 6), Count: g.rng(1, 2)}
	if g.pc(10) {
		f.Op = "fs.*"
		f.Nth = g.rng(1, 30)
	}
	if g.pc(crash) {
		f.Crash = g.of("proc", "power")
		f.Count = 1
		f.After = g.pc(50)
		if f.Op == "fs.write" && g.pc(50) {
			f.Part = g.rng(1, 999)
		}
	} else {
		f.Err = g.of("ENOSPC", "EIO", "EDQUOT", "EMFILE", "EROFS", "EACCES", "ENOMEM", "ESTALE")
		if f.Op == "fs.link" && g.pc(40) {
			f.Err = g.of("EMLINK", "EPERM", "EXDEV")
		}
		if f.Op == "fs.*" && f.Err == "EACCES" {
			f.Err = "EROFS"
		}
		if f.Op == "fs.write" && g.pc(60) {
			f.Part = g.rng(1, 999)
		}
	}
	if f.Op == "fs.opendir" && f.Err == "EACCES" {
		f.Err = "EIO" // a directory that cannot be read is a legitimate setup
	}
	// the startup test file is not the point
	f.Nth += map[string]int{"fs.create": 1, "fs.write": 0, "fs.sync": 0, "fs.close": 1, "fs.remove": 1, "fs.*": 3}[f.Op]
	g.fault(f)
}

func (g *gen) crashOps(n int) {
	at := 0
	for i := 0; i < n; i++ {
		at += g.rng(1, 800)
		g.p.Ops = append(g.p.Ops, Op{At: at, K: g.of("crash", "power")})
	}
}

func genC01(g *gen) {
	g.saveBase()
	g.senders(g.rng(1, 4), 3, 3)
	for i := g.rng(0, 3); i > 0; i-- {
		g.saveFault(60)
	}
	if g.pc(60) {
		g.crashOps(g.rng(1, 3))
	}
	g.slow(25, "/save", "fs.create", "fs.write", "fs.sync", "fs.close", "fs.link", "fs.syncdir", "fs.*")
	g.p.EndPow = g.pc(70)
	g.p.SamePid = g.pc(40)
	g.p.Reboot = g.rng(10, 600)
}

func genC02(g *gen) {
	g.saveBase()
	g.senders(g.rng(1, 3), 3, 4)
	for i := g.rng(1, 4); i > 0; i-- {
		g.saveFault(5)
	}
	g.slow(25, "/save", "fs.create", "fs.write", "fs.sync", "fs.close", "fs.link", "fs.syncdir", "fs.*")
	g.probe()
}

func genC03(g *gen) {
	g.saveBase()
	g.senders(g.rng(2, 5), 2, 3)
	for i := g.rng(0, 3); i > 0; i-- {
		g.saveFault(40)
	}
	if g.pc(40) {
		g.crashOps(g.rng(1, 2))
	}
	g.slow(25, "/save", "fs.create", "fs.write", "fs.sync", "fs.close", "fs.link", "fs.syncdir", "fs.*")
	g.p.SamePid = g.pc(40)
	g.p.Reboot = g.rng(10, 600)
}

func genC04(g *gen) {
	g.saveBase()
	g.k.oddAddr, g.k.oddHelo = 15, 15
	if g.pc(25) {
		g.p.Listen = []string{"127.0.0.1:25", "127.0.0.2:25"}
	}
	if g.pc(20) {
		g.p.Flags.Log = ""
		if g.p.Flags.SaveHash == "msg" {
			g.p.Flags.SaveHash = "full"
		}
	}
	if g.pc(25) {
		// names that are refused
		rf := g.rfile(g.n(2))
		rf.Items = append([]Item{{R: &Rule{Act: g.of("reject", "stall"), Cl: []Clause{{E: &Expr{Op: "helo", Arg: g.from1(g.helo)}}}}}}, rf.Items...)
		g.put("/cfg/rules.helo", rf)
		g.p.Flags.Rules = append(g.p.Flags.Rules, "/cfg/rules.helo")
	}
	g.senders(g.rng(2, 4), 3, 3)
	if g.pc(20) {
		g.saveFault(0)
	}
	g.slow(20, "/", "fs.create", "fs.write", "fs.sync", "fs.*")
	if g.pc(20) {
		g.crashOps(1)
		g.p.Ops[0].K = "crash"
	}
	g.later(20)
	if g.crowd() {
		g.p.Flags.Rules = nil
	}
	g.throng(200)
	if g.pc(2) { // many sessions
		for i := range g.p.Clients {
			c := &g.p.Clients[i]
			for k := g.rng(8, 40); k > 0; k-- {
				cn := c.Conns[g.n(len(c.Conns))]
				ip, _, _ := net.SplitHostPort(cn.From)
				cn.From = g.addrOf(ip)
				c.Conns = append(c.Conns, cn)
			}
		}
	}
}
