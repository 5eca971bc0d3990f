#!/usr/bin/env python3
"""Edits of sinksmtp that keep its behaviour; every check must stay quiet on all of them.
   refactors.py [NAME...]    (T=seconds per check, ONLY='C01 C05', DRY=1: build and test only, VERIF=)"""
import os, shutil, subprocess, sys, tempfile, time
S, R, N, P, L, D, M, X = 'sinksmtp.go', 'rules.go', 'rnodes.go', 'rparse.go', 'rlex.go', 'rdns.go', 'mxresolve.go', 'conncfg.go'
ALL = ['C%02d' % i for i in range(1, 18)]

# each group is applied as one change
G = {}

G['store'] = [
 # sha1.Sum; hex
 (S, '\th := sha1.New()\n\th.Write(b)\n\treturn fmt.Sprintf("%x", h.Sum(nil))', '\treturn fmt.Sprintf("%x", sha1.Sum(b))'),
 # a helper for the write, sync, close sequence
 (S, '''		_, err = fp.Write(m)
		if err != nil {
			warnf("error writing message file: %s\\n", err)
		}
		serr := fp.Sync()
		if serr != nil {
			warnf("error flushing message file: %s\\n", serr)
		}
		cerr := fp.Close()
		if cerr != nil {
			warnf("error closing message file: %s\\n", cerr)
		}
		// The message is only saved if all of it worked.
		if err == nil {
			err = serr
		}
		if err == nil {
			err = cerr
		}
''', '''		err = writeOut(fp, m)
'''),
 (S, '// Give a completely written', '''// Write, flush and close, reporting the first error.
func writeOut(fp *os.File, m []byte) error {
	var first error
	note := func(what string, err error) {
		if err == nil {
			return
		}
		warnf("error %s message file: %s\\n", what, err)
		if first == nil {
			first = err
		}
	}
	_, err := fp.Write(m)
	note("writing", err)
	note("flushing", fp.Sync())
	note("closing", fp.Close())
	return first
}

// Give a completely written'''),
 (S, 'tgt := trans.savedir + "/" + hash\n', 'tgt := fmt.Sprintf("%s/%s", trans.savedir, hash)\n'),
 (S, 'strings.Replace(prefix, "/", "-", -1)', 'strings.ReplaceAll(prefix, "/", "-")'),
 (S, '''	var hash string
	logMessage(prefix, trans, logf)
	if trans.savedir == "" {
		return trans.hash, nil
	}
	m, mhash''', '''	logMessage(prefix, trans, logf)
	if trans.savedir == "" {
		return trans.hash, nil
	}
	var hash string
	m, mhash'''),
 (S, '''	var outbuf, outbuf2 bytes.Buffer

	fwrite := bufio.NewWriter(&outbuf)
	fmt.Fprintf(fwrite, "id''', '''	var outbuf, outbuf2 bytes.Buffer

	fwrite := &outbuf
	fmt.Fprintf(fwrite, "id'''),
 (S, '\tfwrite.Write(outbuf2.Bytes())\n\tfwrite.Flush()\n', '\tfwrite.Write(outbuf2.Bytes())\n'),
 (S, '''	fmt.Fprintf(writer, "%s [%s] from %v / ",
		trans.when.Format(TimeNZ), prefix,
		trans.raddr)
	fmt.Fprintf(writer, "<%s> to", trans.from)
''', '''	fmt.Fprintf(writer, "%s [%s] from %v / <%s> to",
		trans.when.Format(TimeNZ), prefix,
		trans.raddr, trans.from)
'''),
 (S, '''	fp, err := os.Open(dir)
	if err != nil {
		// We may not have read permission on the directory.
		if os.IsPermission(err) {
			return nil
		}
		warnf("error flushing message directory: %v\\n", err)
		return err
	}
''', '''	fp, err := os.Open(dir)
	switch {
	case err == nil:
	case os.IsPermission(err):
		// We may not have read permission on the directory.
		return nil
	default:
		warnf("error flushing message directory: %v\\n", err)
		return err
	}
'''),
]

G['rename'] = [
 # giving the file its name with rename when nobody has the name is not the same; open+stat first is
 (S, '''	err := os.Link(tmp, tgt)
	if err != nil && !os.IsExist(err) {
''', '''	_, err := os.Lstat(tgt)
	if err != nil {
		err = os.Link(tmp, tgt)
	}
	if err != nil && !os.IsExist(err) {
'''),
 (S, '''	defer fp.Close()
	err = fp.Sync()
	// Not all''', '''	err = fp.Sync()
	_ = fp.Close()
	// Not all'''),
]

G['ipmap'] = [
 (S, '''	ips   map[string]*ipEnt
	stats struct {''', '''	ips   map[string]ipEnt
	stats struct {'''),
 (S, 'var notls = &ipMap{ips: make(map[string]*ipEnt)}\nvar yakkers = &ipMap{ips: make(map[string]*ipEnt)}', '''var notls = newIPMap()
var yakkers = newIPMap()

func newIPMap() *ipMap {
	return &ipMap{ips: make(map[string]ipEnt)}
}

// fetch gets the entry for an IP, a new one if there is none or it is too
// old. The map is locked.
func (i *ipMap) fetch(ip string, ttl time.Duration) ipEnt {
	t, ok := i.ips[ip]
	if !ok {
		i.stats.AddsNew++
		return ipEnt{}
	}
	if time.Since(t.when) >= ttl {
		i.stats.AddsExpired++
		return ipEnt{}
	}
	return t
}'''),
 (S, '''	i.Lock()
	i.stats.Adds++
	t := i.ips[ip]
	switch {
	case t == nil:
		t = &ipEnt{}
		i.ips[ip] = t
		i.stats.AddsNew++
	case time.Since(t.when) >= ttl:
		t.count = 0
		i.stats.AddsExpired++
	}
	t.count++
	t.when = time.Now()
	cnt := t.count
	i.Unlock()
	return cnt
''', '''	i.Lock()
	defer i.Unlock()
	i.stats.Adds++
	t := i.fetch(ip, ttl)
	t.count += 1
	t.when = time.Now()
	i.ips[ip] = t
	return t.count
'''),
 (S, '''	i.Lock()
	i.stats.Sets++
	t := i.ips[ip]
	// TODO: should this be a new SetsNew/SetsExpired stats?
	switch {
	case t == nil:
		t = &ipEnt{}
		i.ips[ip] = t
		i.stats.AddsNew++
	case time.Since(t.when) >= ttl:
		t.count = 0
		i.stats.AddsExpired++
	}
	t.when = time.Now()
	ocnt := t.count
	t.count = cnt
	i.Unlock()
	return ocnt
''', '''	i.Lock()
	defer i.Unlock()
	i.stats.Sets++
	ocnt := i.fetch(ip, ttl).count
	i.ips[ip] = ipEnt{when: time.Now(), count: cnt}
	return ocnt
'''),
 (S, '''	t := i.ips[ip]
	i.stats.Lookup++
	if t == nil {
		return false, 0
	}
''', '''	t, ok := i.ips[ip]
	i.stats.Lookup++
	if !ok {
		return false, 0
	}
'''),
 (S, '''	for i := range dbls {
		t := dc.dbls[dbls[i]]
		t++
		dc.dbls[dbls[i]] = t
	}
	dc.Unlock()
''', '''	defer dc.Unlock()
	for _, d := range dbls {
		dc.dbls[d]++
	}
'''),
 (S, '''	nm := make(map[string]uint64)
	for k, v := range dc.dbls {
		nm[k] = v
	}
	return nm
''', '''	return maps.Clone(dc.dbls)
'''),
 (S, '\t"io"\n\t"net"\n', '\t"io"\n\t"maps"\n\t"net"\n'),
 (S, '''type dnsblCounts struct {
	sync.Mutex
''', '''type dnsblCounts struct {
	sync.RWMutex
'''),
]

G['process'] = [
 (S, '''	var evt smtpd.EventInfo
	var convo *smtpd.Conn
	var logger *smtpLogger
	var l2 io.Writer
	var gotsomewhere, stall, sesscounts bool
	var cfg smtpd.Config
''', '''	var evt smtpd.EventInfo
	var convo *smtpd.Conn
	var logger *smtpLogger
	var l2 io.Writer
	var gotsomewhere, stall, sesscounts bool
	var cfg smtpd.Config
	reached := func(ph string) {
		gotsomewhere = gotsomewhere || minphase == ph
	}
'''),
 (S, '''				if minphase == "helo" {
					gotsomewhere = true
				}
''', '				reached("helo")\n'),
 (S, '''				if minphase == "from" {
					gotsomewhere = true
				}
''', '				reached("from")\n'),
 (S, '''				if minphase == "to" {
					gotsomewhere = true
				}
''', '				reached("to")\n'),
 (S, '''				if minphase == "data" {
					gotsomewhere = true
				}
''', '				reached("data")\n'),
 (S, '''				if minphase == "accepted" {
					gotsomewhere = true
				}
''', '				reached("accepted")\n'),
 # the local name in a function of its own
 (S, '''	sname := laddrstr
	if srvname != "" {
		sname = srvname
	} else {
		lip, _, _ := net.SplitHostPort(sname)
		// we don't do a verified lookup of the local IP address
		// because it's theoretically under your control, so if
		// you want to forge stuff that's up to you.
		nlst, err := net.LookupAddr(lip)
		if err == nil && len(nlst) > 0 {
			sname = nlst[0]
			if sname[len(sname)-1] == '.' {
				sname = sname[:len(sname)-1]
			}
		}
	}
''', '	sname := localName(laddrstr)\n'),
 (S, '// Process a single connection.\n', '''// localName is what we call ourselves on a connection to laddr.
func localName(laddr string) string {
	if srvname != "" {
		return srvname
	}
	lip, _, _ := net.SplitHostPort(laddr)
	nlst, err := net.LookupAddr(lip)
	if err != nil || len(nlst) == 0 {
		return laddr
	}
	return strings.TrimSuffix(nlst[0], ".")
}

// tlsInfo copies what we record about TLS.
func (trans *smtpTransaction) tlsInfo(on bool, st tls.ConnectionState) {
	trans.tlson = on
	trans.cipher, trans.tlsversion, trans.servername = st.CipherSuite, st.Version, st.ServerName
	switch {
	case len(st.VerifiedChains) > 0:
		trans.tlsverified = true
		trans.peername = tlsName(st.VerifiedChains[0][0])
	case len(st.PeerCertificates) > 0:
		trans.peername = tlsName(st.PeerCertificates[0])
		trans.tlsverified = tlsTryVerifyConnection(st) == nil
	}
}

// Process a single connection.
'''),
 (S, '''			trans.tlson = convo.TLSOn
			trans.cipher = convo.TLSState.CipherSuite
			trans.servername = convo.TLSState.ServerName
			trans.tlsversion = convo.TLSState.Version
			if len(convo.TLSState.VerifiedChains) > 0 {
				trans.tlsverified = true
				trans.peername = tlsName(convo.TLSState.VerifiedChains[0][0])
			} else if len(convo.TLSState.PeerCertificates) > 0 {
				trans.peername = tlsName(convo.TLSState.PeerCertificates[0])
				err := tlsTryVerifyConnection(convo.TLSState)
				trans.tlsverified = (err == nil)
			}
''', '''			trans.tlsInfo(convo.TLSOn, convo.TLSState)
'''),
 # order of independent statements
 (S, '''	cfg.LocalName = sname
	cfg.SayTime = true
	cfg.SftName = "sinksmtp"
	cfg.Announce = "This server does not deliver email."
''', '''	cfg = smtpd.Config{LocalName: sname, SayTime: true, SftName: "sinksmtp", Announce: "This server does not deliver email."}
'''),
 (S, '''			if evt.What == smtpd.DONE {
				events.quits.Add(1)
			} else {
				events.aborts.Add(1)
			}
			break
''', '''			cnt := &events.aborts
			if evt.What == smtpd.DONE {
				cnt = &events.quits
			}
			cnt.Add(1)
			break
'''),
 (S, '''				trans.heloname = evt.Arg
				trans.from = ""
				trans.data = ""
				trans.hash = ""
				trans.bodyhash = ""
				trans.rcptto = []string{}
''', '''				trans.from, trans.data, trans.hash, trans.bodyhash = "", "", "", ""
				trans.rcptto = nil
				trans.heloname = evt.Arg
'''),
 (S, '''	rules, rulesgood := setupRules(baserules)

	// A yakker''', '''	rules, rulesgood := setupRules(baserules)
	_ = len(rules)

	// A yakker'''),
]

G['main'] = [
 (S, '''	cid := 1
	for {
		nc := <-listenc
		events.connections.Add(1)
		updateTimeOf("connection", nc.LocalAddr().String())
		go process(cid, nc, certs, logf, slogf, dnlogf, baserules)
		cid++
	}
''', '''	for cid := 1; ; cid++ {
		nc := <-listenc
		events.connections.Add(1)
		updateTimeOf("connection", nc.LocalAddr().String())
		go func(cid int) {
			process(cid, nc, certs, logf, slogf, dnlogf, baserules)
		}(cid)
	}
'''),
 (S, '''		nc, err := conn.Accept()
		if err == nil {
			listenc <- nc
		} else {
			// Some errors will go on for some time, for example
			// if we've run out of file descriptors. Don't burn
			// CPU until then.
			time.Sleep(time.Second / 10)
		}
''', '''		nc, err := conn.Accept()
		if err != nil {
			<-time.After(100 * time.Millisecond)
			continue
		}
		select {
		case listenc <- nc:
		}
'''),
 (S, '''	for i := 0; i < flag.NArg(); i++ {
		conn, err := net.Listen("tcp", flag.Arg(i))
		if err != nil {
			die("error listening to tcp!%s: %s\\n", flag.Arg(i), err)
		}
''', '''	for _, a := range flag.Args() {
		conn, err := net.Listen("tcp", a)
		if err != nil {
			die("error listening to tcp!%s: %s\\n", a, err)
		}
'''),
 (S, '''	var lastmsg string
	for {
		nmsg := <-uniquer
		if nmsg != lastmsg {
			if nmsg != "" {
				fmt.Fprintf(os.Stderr, "sinksmtp: %s", nmsg)
			}
			lastmsg = nmsg
		}
	}
''', '''	lastmsg := ""
	for nmsg := range uniquer {
		if nmsg == lastmsg {
			continue
		}
		lastmsg = nmsg
		if nmsg != "" {
			fmt.Fprint(os.Stderr, "sinksmtp: "+nmsg)
		}
	}
'''),
 (S, '''		fp, err := os.Create(tstfile)
		if err != nil {
			die("cannot create test file in savedir '%s': %v\\n", savedir, err)
		}
		fp.Close()
		os.Remove(tstfile)
''', '''		fp, err := os.OpenFile(tstfile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
		if err != nil {
			die("cannot create test file in savedir '%s': %v\\n", savedir, err)
		}
		_ = fp.Close()
		_ = os.Remove(tstfile)
'''),
 (S, '''func warnf(format string, elems ...interface{}) {
	fmt.Fprintf(os.Stderr, "sinksmtp: "+format, elems...)
}
''', '''func warnf(format string, elems ...interface{}) {
	msg := "sinksmtp: " + fmt.Sprintf(format, elems...)
	_, _ = os.Stderr.WriteString(msg)
}
'''),
 (S, '''	if !(hashtype == "msg" || hashtype == "full" || hashtype == "all") {
		die(''', '''	switch hashtype {
	case "msg", "full", "all":
	default:
		die('''),
 (S, '''	if yakCount > 0 && smtplogfile == "" {
		die("-dncount requires -smtplog\\n")
	}
	if yakCount > 0 && yakTimeout < time.Second {
		die("-dndur is too small; must be at least one second\\n")
	}
''', '''	if yakCount > 0 {
		if smtplogfile == "" {
			die("-dncount requires -smtplog\\n")
		}
		if yakTimeout < time.Second {
			die("-dndur is too small; must be at least one second\\n")
		}
	}
'''),
]

G['load'] = [
 (S, '''	fp, err := os.Open(fname)
	if err != nil {
		return nil, err
	}
	defer fp.Close()
	b, err := io.ReadAll(fp)
	if err != nil {
		return nil, err
	}
	rl, err''', '''	b, err := os.ReadFile(fname)
	if err != nil {
		return nil, err
	}
	rl, err'''),
 (S, '''	fp, err := os.Open(fname)
	if err != nil {
		// An address list''', '''	b, err := os.ReadFile(fname)
	if err != nil {
		// An address list'''),
 (S, '''			warnonce("error opening %s: %v\\n", fname, err)
		}
		return nil
	}
	defer fp.Close()
	alist, err := readList(bufio.NewReader(fp))
''', '''			warnonce("error opening %s: %v\\n", fname, err)
		}
		return nil
	}
	alist, err := readList(bufio.NewReader(bytes.NewReader(b)))
'''),
 (S, '''	rules, err := loadRules(fname)
	// baserules is shared by all connections, so we must not append
	// to it in place.
	n := len(baserules)
	return append(baserules[:n:n], rules...), err
''', '''	more, err := loadRules(fname)
	all := make([]*Rule, 0, len(baserules)+len(more))
	all = append(all, baserules...)
	all = append(all, more...)
	return all, err
'''),
 (S, '''	var rules []*Rule
	var rfile string
	var err error

	rules = baserules
	for _, rfile = range rulefiles {
		rules, err = accumRules(rules, rfile)
		if err != nil {
			break
		}
	}
	if err == nil {
		return rules, true
	}

	// Our rule is that if we're going to stall all activity, we're
	// going to write a warning message about it.
	// If the rules fail to load, we panic and stall everything via
	// the simple mechanism of generating a 'stall all' set of rules.
	warnonce("problem loading rules %s: %s\\n", rfile, err)
	events.ruleserr.Add(1)
	return stallall, false
''', '''	rules := baserules
	for _, rfile := range rulefiles {
		nrules, err := accumRules(rules, rfile)
		if err != nil {
			events.ruleserr.Add(1)
			warnonce("problem loading rules %s: %s\\n", rfile, err)
			return stallall, false
		}
		rules = nrules
	}
	return rules, true
'''),
 (X, '''	defer fp.Close()
	return readConnFile(bufio.NewReader(fp))
''', '''	d, err := readConnFile(bufio.NewReaderSize(fp, 512))
	fp.Close()
	return d, err
'''),
 (X, '''			kv := strings.SplitN(s, "=", 2)
			if len(kv) != 2 {
				return nil, fmt.Errorf("field has no = in line %d", lnum)
			}
			switch kv[0] {
			case "hostname":
				host = kv[1]
			case "cert":
				cert = kv[1]
			case "key":
				key = kv[1]
			default:
				return nil, fmt.Errorf("unrecognized key '%s' in line %d", kv[0], lnum)
			}
''', '''			k, v, ok := strings.Cut(s, "=")
			if !ok {
				return nil, fmt.Errorf("field has no = in line %d", lnum)
			}
			switch k {
			case "hostname":
				host = v
			case "cert":
				cert = v
			case "key":
				key = v
			default:
				return nil, fmt.Errorf("unrecognized key '%s' in line %d", k, lnum)
			}
'''),
 (X, '''		if de.local == "*" || de.local == las {
			return de
		}
		if ip != nil && ip.Equal(net.ParseIP(de.local)) {
			return de
		}
		_, ipn, err := net.ParseCIDR(de.local)
		if err == nil && ipn.Contains(ip) {
			return de
		}
''', '''		if de.local == "*" || de.local == las || matchIp(lip, de.local) {
			return de
		}
'''),
 (X, '\tip := parseIPZone(lip)\n', ''),
]

G['eval'] = [
 (R, '''	for i := range c.dnsblhit {
		if c.dnsblhit[i] == domain {
			return
		}
	}
	c.dnsblhit = append(c.dnsblhit, domain)
''', '''	if !slices.Contains(c.dnsblhit, domain) {
		c.dnsblhit = append(c.dnsblhit, domain)
	}
'''),
 (R, '\t"net"\n', '\t"net"\n\t"slices"\n'),
 (R, '''		// Try to determine if we can run this rule.
		rp := r.requires
		// We can and must skip a rule in three cases:
		switch {
		case rp > ph:
			// the rule's basic requirements mean we can't
			// satisfy it yet. skip.
			continue

		case r.deferto > ph:
			// This is a simple deferred rule that is not ready
			// yet. We'll run it when its time comes up.
			continue

		case r.deferto != pAny && r.deferto < ph:
''', '''		// Try to determine if we can run this rule.
		rp := r.requires
		if rp > ph || r.deferto > ph {
			continue
		}
		switch {
		case r.deferto != pAny && r.deferto < ph:
'''),
 (R, '''	if c.files[fname] != nil {
		return c.files[fname]
	}
	l := loadList(fname)
	if len(l) == 0 {
		c.files[fname] = []string{}
		return c.files[fname]
	}
	c.files[fname] = l
	return c.files[fname]
''', '''	l, ok := c.files[fname]
	if !ok {
		l = loadList(fname)
		c.files[fname] = l
	}
	return l
'''),
 (R, '''	if c.domvalid[domain] != nil {
		return *c.domvalid[domain]
	}
	t, err := ValidDomain(domain)
	c.domvalid[domain] = &DNSResult{d: t, e: err}
	return *c.domvalid[domain]
''', '''	r := c.domvalid[domain]
	if r == nil {
		t, err := ValidDomain(domain)
		r = &DNSResult{d: t, e: err}
		c.domvalid[domain] = r
	}
	return *r
'''),
 (R, '''	if c.dnsbl[hn] != nil {
		return *c.dnsbl[hn]
	}
''', '''	if r, ok := c.dnsbl[hn]; ok && r != nil {
		return *r
	}
'''),
 (R, '''	for _, rcpt := range c.trans.rcptto {
		c.rcptto = rcpt
		res := r.check(c)
		if res {
			return res
		}
		// The result on a rulemiss doesn't really matter,
		// since we skip the rule anyways.
		if c.rulemiss {
			return res
		}
	}
	return false
''', '''	var res Result
	for i := 0; i < len(c.trans.rcptto) && !bool(res) && !c.rulemiss; i++ {
		c.rcptto = c.trans.rcptto[i]
		res = r.check(c)
	}
	return res
'''),
 (N, '''	for i := range r.clauses {
		res := r.clauses[i].expr.Eval(c)
		if c.rulemiss {
			// the results on a rulemiss don't matter, since
			// we're skipping this rule anyways.
			return false
		}
		if !res {
			continue
		}
		for k, v := range r.clauses[i].withs {
			c.withprops[k] = v
		}
		return res
	}
	return false
''', '''	for _, cl := range r.clauses {
		res := cl.expr.Eval(c)
		switch {
		case bool(c.rulemiss):
			return false
		case bool(res):
			for k := range cl.withs {
				c.withprops[k] = cl.withs[k]
			}
			return true
		}
	}
	return false
'''),
 (N, '''	r = o.left.Eval(c)
	if r {
		return r
	}
	return o.right.Eval(c)
''', '''	return o.left.Eval(c) || o.right.Eval(c)
'''),
 (N, '''	for _, p := range plist {
		for _, e := range m.getter(c) {
			if m.matcher(e, p) {
				return true
			}
		}
	}
	return false
''', '''	found := false
	for _, e := range m.getter(c) {
		for _, p := range plist {
			found = found || m.matcher(e, p)
		}
	}
	return Result(found)
'''),
 (N, '''		for _, s := range c.trans.rdns.verified {
			check[strings.TrimSuffix(s, ".")] = struct{}{}
		}
		for _, s := range c.trans.rdns.nofwd {
			check[strings.TrimSuffix(s, ".")] = struct{}{}
		}
		for _, s := range c.trans.rdns.inconsist {
			check[strings.TrimSuffix(s, ".")] = struct{}{}
		}
''', '''		rd := c.trans.rdns
		for _, l := range [][]string{rd.inconsist, rd.nofwd, rd.verified} {
			for _, s := range l {
				check[strings.TrimSuffix(s, ".")] = struct{}{}
			}
		}
'''),
 (N, '''	ret := Result(false)
	for s := range check {
		ln''', '''	ret := Result(false)
	var names []string
	for s := range check {
		names = append(names, s)
	}
	sort.Sort(sort.Reverse(sort.StringSlice(names)))
	for _, s := range names {
		ln'''),
]

G['dns'] = [
 (D, '''		verified := false
		for _, addr := range addrs {
			if addr.Equal(eip) {
				r.verified = append(r.verified, name)
				verified = true
				break
			}
		}
		if !verified {
			r.inconsist = append(r.inconsist, name)
		}
''', '''		if slices.ContainsFunc(addrs, eip.Equal) {
			r.verified = append(r.verified, name)
		} else {
			r.inconsist = append(r.inconsist, name)
		}
'''),
 (D, '\t"net"\n\t"sort"\n', '\t"net"\n\t"slices"\n\t"sort"\n'),
 (M, '''	if e, ok := err.(*net.DNSError); ok {
		if e.Temporary() || e.Err == serverrstr {
			return true
		}
	}
	return false
''', '''	var e *net.DNSError
	return errors.As(err, &e) && (e.Temporary() || e.Err == serverrstr)
'''),
 (M, 'import (\n', 'import (\n\t"errors"\n'),
 (M, '''	addrs, err := net.LookupIP(domain)
	if err != nil && isTemporary(err) {
		return dnsTempfail, err
	}
	if err != nil {
		return dnsBad, err
	}
''', '''	addrs, err := net.LookupIP(domain)
	if err != nil {
		if isTemporary(err) {
			return dnsTempfail, err
		}
		return dnsBad, err
	}
'''),
 (M, '''		if net10.Contains(i) || net172.Contains(i) || net192.Contains(i) || ipv6private.Contains(i) || ipv6siteloc.Contains(i) {
			return dnsBad''', '''		for _, n := range []*net.IPNet{net10, net172, net192, ipv6private, ipv6siteloc} {
			if !n.Contains(i) {
				continue
			}
			return dnsBad'''),
 (S, '''	s := strings.Split(t.rip, ".")
	if len(s) != 4 {
		// 'dbl' can hit for IPv6 clients.
		return sbls
	}
	ln := fmt.Sprintf("%s.%s.%s.%s.sbl.spamhaus.org.", s[3], s[2], s[1], s[0])
	txts, err := net.LookupTXT(ln)
''', '''	s := strings.Split(t.rip, ".")
	if len(s) != 4 {
		// 'dbl' can hit for IPv6 clients.
		return sbls
	}
	s[0], s[1], s[2], s[3] = s[3], s[2], s[1], s[0]
	txts, err := net.LookupTXT(strings.Join(s, ".") + ".sbl.spamhaus.org.")
'''),
]

G['log'] = [
 # no bufio
 (S, '''type smtpLogger struct {
	prefix []byte
	writer *bufio.Writer
}
''', '''type smtpLogger struct {
	prefix string
	writer io.Writer
}
'''),
 (S, '''	buf := make([]byte, 0, len(b)+len(log.prefix))

	buf = append(buf, log.prefix...)
	buf = append(buf, b...)
	n, err = log.writer.Write(buf)
	if err == nil {
		err = log.writer.Flush()
	}
	return n, err
''', '''	return io.WriteString(log.writer, log.prefix+string(b))
'''),
 (S, '''		logger = &smtpLogger{}
		logger.prefix = []byte(prefix)
		logger.writer = bufio.NewWriterSize(smtplog, 8*1024)
		trans.log = logger
		l2 = logger
''', '''		logger = &smtpLogger{prefix: prefix, writer: smtplog}
		trans.log, l2 = logger, logger
'''),
 (S, '''	fmt.Fprintf(dnlog, "%s [%s] %s %s -> %s\\n", time.Now().Format(TimeNZ),
		prefix, what, trans.rip, trans.laddr)
''', '''	line := time.Now().Format(TimeNZ) + " [" + prefix + "] " + what + " " + trans.rip + " -> " + trans.laddr.String() + "\\n"
	_, _ = dnlog.Write([]byte(line))
'''),
 (S, '''	if fname == "" {
		return nil, nil
	}
	if fname == "-" {
		return os.Stdout, nil
	}
	return os.OpenFile(fname,
		os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)
''', '''	switch fname {
	case "":
	case "-":
		outf = os.Stdout
	default:
		var fp *os.File
		fp, err = os.OpenFile(fname, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0666)
		if err == nil {
			outf = fp
		}
	}
	return outf, err
'''),
]

G['lexparse'] = []   # filled in below
G['lock-log'] = [
 # a lock around log writes that was not needed
 (S, '''	writer.Flush()
	logf.Write(outbuf.Bytes())
''', '''	writer.Flush()
	logLock.Lock()
	defer logLock.Unlock()
	logf.Write(outbuf.Bytes())
'''),
 (S, '// Log details about the message to the logfile.\n', 'var logLock sync.Mutex\n\n// Log details about the message to the logfile.\n'),
 # counters by another route
 (S, '''	v := mp.Get(what)
	if v == nil {
		var t expvar.String
		t.Set(tstr)
		mp.Set(what, &t)
		return
	}
	if e, ok := v.(*expvar.String); ok {
		e.Set(tstr)
	}
''', '''	timeLock.Lock()
	defer timeLock.Unlock()
	switch e := mp.Get(what).(type) {
	case nil:
		t := new(expvar.String)
		t.Set(tstr)
		mp.Set(what, t)
	case *expvar.String:
		e.Set(tstr)
	}
'''),
 (S, '// TODO: this is ugly\n', 'var timeLock sync.Mutex\n\n// TODO: this is ugly\n'),
]

G['noop'] = [
 (S, '\tres := Decide(ph, evt, c)\n', '\tres := Decide(ph, evt, c)\n\t_ = res\n'),
 (S, '\tfor {\n\t\tevt = convo.Next()\n', '\tfor {\n\t\tif false {\n\t\t\tcontinue\n\t\t}\n\t\tevt = convo.Next()\n'),
 (R, '\tvar ret = aNoresult\n', '\tvar ret = aNoresult\n\truntime.Gosched()\n'),
 (R, '\t"net"\n', '\t"net"\n\t"runtime"\n'),
 (S, '\tlogMessage(prefix, trans, logf)\n', '\tlogMessage(prefix, trans, logf)\n\tfunc() {}()\n'),
 (N, '\tc.rulemiss = false\n\tfor i', '\tc.rulemiss = false\n\tx := make(map[int]int)\n\tx[0]++\n\tfor i'),
 (S, '\ti.stats.Adds++\n', '\ti.stats.Adds++\n\t_ = i.stats.Adds\n'),
]
G['lexparse'] = [
 (P, '''	for {
		ct := p.curtok.typ
		if m[ct] == oZero {
			return oZero, p.genError("expected valid option")
		}
		opt |= m[ct]
		p.consume()
		if p.curtok.typ == itemComma {
			p.consume()
		} else {
			break
		}
	}
	return opt, nil
''', '''	for {
		o, ok := m[p.curtok.typ]
		if !ok || o == oZero {
			return oZero, p.genError("expected valid option")
		}
		opt |= o
		p.consume()
		if p.curtok.typ != itemComma {
			return opt, nil
		}
		p.consume()
	}
'''),
 # a buffered channel between lexer and parser
 (L, 'items: make(chan item),', 'items: make(chan item, 16),'),
 (P, '''	r, e := p.pFile()
	// A parse error may have left the lexer with unconsumed input.
	// We need to explicitly drain the lexer to deal with this and
	// to terminate the goroutine.
	l.drain()
	return r, e
''', '''	defer l.drain()
	return p.pFile()
'''),
 (L, '''	for l.state = lexLineStart; l.state != nil; {
		l.state = l.state(l)
	}
	close(l.items)
''', '''	defer close(l.items)
	for l.state = lexLineStart; l.state != nil; l.state = l.state(l) {
	}
'''),
 (P, '''	for {
		if p.curtok.typ == itemInclude {
			rl, e := p.pInclude()
			if e != nil {
				return rules, e
			}
			rules = append(rules, rl...)
			continue
		}
''', '''	for {
		for p.curtok.typ == itemInclude {
			rl, e := p.pInclude()
			if e != nil {
				return nil, e
			}
			rules = append(rules, rl...)
		}
'''),
]
G['sync-lexer'] = [
 # no goroutine at all
 (L, '''	go l.run()
	return l
''', '''	l.items = make(chan item, 2*len(input)+16)
	l.run()
	return l
'''),
]


def main():
    want = sys.argv[1:] or list(G)
    T = os.environ.get('T', '10')
    props = os.environ.get('ONLY', '').split() or ALL
    bad = 0
    for name in want:
        w = tempfile.mkdtemp(prefix='ref.')
        try:
            subprocess.check_call(['git', 'clone', '-q', os.environ.get('BASE', '/repo'), w + '/r'])
            ok = True
            for n in name.split('+'):
                for f, old, new in G[n]:
                    p = w + '/r/' + f
                    s = open(p).read()
                    if s.count(old) != 1:
                        print('%-12s EDIT DOES NOT MATCH (%d): %s' % (name, s.count(old), old[:70]), flush=True)
                        ok = False
                        break
                    open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            b = subprocess.run(['bash', '-c', 'cd %s/r && go vet . 2>&1 | grep -v smtpd | grep -E "^./|^vet" | head -5' % w], stdout=subprocess.PIPE, text=True).stdout
            if b.strip():
                print(name, 'VET', b)
            if os.environ.get('DRY'):
                continue
            env = dict(os.environ, VERIF_REPO=w + '/r', VERIF_SECONDS=T)
            for prop in props:
                p = subprocess.run(['./check.py', prop], cwd=os.environ.get('VERIF', '/verif'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    bad += 1
                    print('%-12s %s rc=%d %s' % (name, prop, p.returncode, ' | '.join(p.stdout.strip().split('\n')[-3:])[:600]), flush=True)
            print('%-12s done' % name, flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    print('alarms:', bad)


main()
