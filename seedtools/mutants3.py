"""A third batch of mutants (see mutants.py)."""
S, R, N, P, L, D, M, X = 'sinksmtp.go', 'rules.go', 'rnodes.go', 'rparse.go', 'rlex.go', 'rdns.go', 'mxresolve.go', 'conncfg.go'
HMC = '// Having received a message, do'
PC = '// Process a single connection.\n'
SYNC = '\t\tserr := fp.Sync()\n'
MUT3 = [
 # C01
 ('e01-sync-timeout', 'C01', [(S, SYNC, '\t\tvar serr error\n\t\tsdone := make(chan error, 1)\n\t\tgo func() { sdone <- fp.Sync() }()\n\t\tselect {\n\t\tcase serr = <-sdone:\n\t\tcase <-time.After(2 * time.Second):\n\t\t\twarnf("slow disk\\n")\n\t\t}\n')]),
 ('e01-group-dirsync', 'C01', [(S, '\tfp, err := os.Open(dir)\n', '\tgdLock.Lock()\n\tif ch := gd[dir]; ch != nil {\n\t\tgdLock.Unlock()\n\t\t<-ch\n\t\treturn nil\n\t}\n\tch := make(chan struct{})\n\tgd[dir] = ch\n\tgdLock.Unlock()\n\tdefer func() {\n\t\tgdLock.Lock()\n\t\tdelete(gd, dir)\n\t\tgdLock.Unlock()\n\t\tclose(ch)\n\t}()\n\tfp, err := os.Open(dir)\n'), (S, HMC, 'var gdLock sync.Mutex\nvar gd = make(map[string]chan struct{})\n\n' + HMC)]),
 ('e01-shared-tmp', 'C01', [(S, 'tmp := trans.savedir + "/." + hash + "." + strings.Replace(prefix, "/", "-", -1)', 'tmp := trans.savedir + "/." + hash + ".tmp"')]),
 ('e01-dirsync-default', 'C01', [(S, 'err = linkMessage(tmp, tgt, trans.savedir)', 'sd := trans.savedir\n\t\t\tif savedir != "" {\n\t\t\t\tsd = savedir\n\t\t\t}\n\t\t\terr = linkMessage(tmp, tgt, sd)')]),
 ('e01-exist-return', 'C01', [(S, '\tif err != nil && !os.IsExist(err) {\n\t\twarnf("error writing message file: %v\\n", err)\n\t\treturn err\n\t}\n', '\tif os.IsExist(err) {\n\t\treturn nil\n\t}\n\tif err != nil {\n\t\twarnf("error writing message file: %v\\n", err)\n\t\treturn err\n\t}\n')]),
 ('e01-dirsync-first', 'C01', [(S, 'err = linkMessage(tmp, tgt, trans.savedir)', 'err = linkMessage(tmp, tgt, trans.savedir)\n\t\t\tif err == nil && len(trans.rcptto) > 1 {\n\t\t\t\t_ = os.Remove(tgt)\n\t\t\t\terr = os.Rename(tmp, tgt)\n\t\t\t}')]),
 # C02
 ('e02-fallback-dir', 'C02', [(S, '\t} else {\n\t\twarnf("error writing message file: %v\\n", err)\n\t}\n\treturn hash, err', '\t} else if savedir != "" && trans.savedir != savedir {\n\t\ttrans.savedir = savedir\n\t\treturn hash, nil\n\t} else {\n\t\twarnf("error writing message file: %v\\n", err)\n\t}\n\treturn hash, err')]),
 ('e02-give-up', 'C02', [(S, '\t\t\tcase err != nil:\n', '\t\t\tcase err != nil && saveerrs > 2:\n\t\t\t\tdoAccept(convo, c, "")\n\t\t\tcase err != nil:\n\t\t\t\tsaveerrs++\n'), (S, PC, 'var saveerrs int\n\n' + PC)]),
 ('e02-close-session', 'C02', [(S, 'case err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n', 'case err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\t\tif errors.Is(err, syscall.ENOSPC) {\n\t\t\t\t\treturn\n\t\t\t\t}\n')]),
 ('e02-other-session', 'C02', [(S, 'transid, err := handleMessage(prefix, trans, logf)\n', 'transid, err := handleMessage(prefix, trans, logf)\n\t\t\tdiskLock.Lock()\n\t\t\tif err != nil {\n\t\t\t\tdiskBad = time.Now()\n\t\t\t} else if trans.savedir != "" && time.Since(diskBad) < time.Second {\n\t\t\t\terr = errors.New("disk trouble")\n\t\t\t}\n\t\t\tdiskLock.Unlock()\n'), (S, PC, 'var diskLock sync.Mutex\nvar diskBad time.Time\n\n' + PC)]),
 ('e02-shadow', 'C02', [(S, '\t\tif err == nil {\n\t\t\terr = serr\n\t\t}\n\t\tif err == nil {\n\t\t\terr = cerr\n\t\t}\n\t\tif err == nil {\n', '\t\tif err != nil {\n\t\t\terr = serr\n\t\t}\n\t\tif err == nil {\n\t\t\terr = cerr\n\t\t}\n\t\tif err == nil {\n')]),
 # C03
 ('e03-tmp-hexname', 'C03', [(S, 'tmp := trans.savedir + "/." + hash + "." + strings.Replace(prefix, "/", "-", -1)', 'tmp := trans.savedir + "/" + genHash([]byte(prefix+hash))')]),
 ('e03-msg-trim', 'C03', [(S, 'case "msg":\n\t\thash = trans.hash\n', 'case "msg":\n\t\thash = genHash([]byte(strings.TrimRight(trans.data, "\\n")))\n')]),
 ('e03-shared-tmp', 'C03', [(S, 'tmp := trans.savedir + "/." + hash + "." + strings.Replace(prefix, "/", "-", -1)', 'tmp := trans.savedir + "/." + hash + ".tmp"')]),
 ('e03-pid-tmp', 'C03', [(S, 'tmp := trans.savedir + "/." + hash + "." + strings.Replace(prefix, "/", "-", -1)', 'tmp := fmt.Sprintf("%s/.new.%d", trans.savedir, os.Getpid())')]),
 ('e03-exist-append', 'C03', [(S, '\terr := os.Link(tmp, tgt)\n', '\terr := os.Link(tmp, tgt)\n\tif os.IsExist(err) {\n\t\tif fi, serr := os.Stat(tgt); serr == nil && fi.Size() == 0 {\n\t\t\terr = os.Rename(tmp, tgt)\n\t\t} else if f, oerr := os.OpenFile(tgt, os.O_RDWR, 0); oerr == nil {\n\t\t\tif src, rerr := os.ReadFile(tmp); rerr == nil && int64(len(src)) == fi.Size() {\n\t\t\t\tf.Write(src)\n\t\t\t}\n\t\t\tf.Close()\n\t\t}\n\t}\n')]),
 # C04
 ('e04-cid-listener', 'C04', [(S, '\tcid := 1\n\tfor {', '\tcid := 1\n\tcids := make(map[string]int)\n\tfor {'), (S, '\t\tgo process(cid, nc', '\t\tcids[nc.LocalAddr().String()]++\n\t\tcid = cids[nc.LocalAddr().String()]\n\t\tgo process(cid, nc'), (S, '\t\tcid++\n', '')]),
 ('e04-pool', 'C04', [(S, '\tvar outbuf, outbuf2 bytes.Buffer\n\n', '\toutbuf := bufPool.Get().(*bytes.Buffer)\n\tdefer bufPool.Put(outbuf)\n\toutbuf.Reset()\n\tvar outbuf2 bytes.Buffer\n\n'), (S, 'fwrite := bufio.NewWriter(&outbuf)', 'fwrite := bufio.NewWriter(outbuf)'), (S, '// return a block of bytes that', 'var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\n// return a block of bytes that')]),
 ('e04-verified-any', 'C04', [(S, 'trans.tlsverified = (err == nil)', 'trans.tlsverified = err == nil || trans.peername == trans.heloname')]),
 ('e04-verify-noint', 'C04', [(S, 'for _, cert := range state.PeerCertificates[1:] {\n\t\topts.Intermediates.AddCert(cert)\n\t}', 'opts.Roots = x509.NewCertPool()\n\tfor _, cert := range state.PeerCertificates[1:] {\n\t\topts.Roots.AddCert(cert)\n\t}\n\tif len(state.PeerCertificates) == 1 {\n\t\topts.Roots = nil\n\t}')]),
 ('e04-cipher-first', 'C04', [(S, 'trans.tlson = convo.TLSOn\n\t\t\ttrans.cipher = convo.TLSState.CipherSuite\n\t\t\ttrans.servername = convo.TLSState.ServerName', 'trans.tlson = convo.TLSOn\n\t\t\ttrans.cipher = convo.TLSState.CipherSuite\n\t\t\tif trans.servername == "" {\n\t\t\t\ttrans.servername = cfg.LocalName\n\t\t\t}\n\t\t\tif convo.TLSState.ServerName != "" || !convo.TLSOn {\n\t\t\t\ttrans.servername = convo.TLSState.ServerName\n\t\t\t}')]),
 ('e04-log-saved', 'C04', [(S, '\tlogMessage(prefix, trans, logf)\n\tif trans.savedir == "" {\n\t\treturn trans.hash, nil\n\t}', '\tif trans.savedir == "" {\n\t\tlogMessage(prefix, trans, logf)\n\t\treturn trans.hash, nil\n\t}'), (S, '\t\t_ = os.Remove(tmp)\n\t} else {', '\t\t_ = os.Remove(tmp)\n\t\tlogMessage(prefix, trans, logf)\n\t} else {')]),
 ('e04-log-dedup', 'C04', [(S, '\tlogf.Write(outbuf.Bytes())\n', '\tif s := outbuf.String(); s[len(TimeNZ):] != lastLogged {\n\t\tlastLogged = s[len(TimeNZ):]\n\t\tlogf.Write(outbuf.Bytes())\n\t}\n'), (S, '// Log details about the message', 'var lastLogged string\n\n// Log details about the message')]),
 ('e04-rcpt-cap', 'C04', [(S, '\tfor _, a := range trans.rcptto {\n\t\tfmt.Fprintf(writer, " <%s>", a)\n\t}', '\tfor i, a := range trans.rcptto {\n\t\tif i == 32 {\n\t\t\tbreak\n\t\t}\n\t\tfmt.Fprintf(writer, " <%s>", a)\n\t}')]),
 ('e04-runes', 'C04', [(S, 'len(trans.data), trans.hash, trans.bodyhash, trans.laddr', 'len([]rune(trans.data)), trans.hash, trans.bodyhash, trans.laddr')]),
 ('e04-rcpt-early', 'C04', [(S, '\t\t\t\tif decider(pRto, evt, c, convo, "", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)', '\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n\t\t\t\tif decider(pRto, evt, c, convo, "", trans) {\n\t\t\t\t\tif len(trans.rcptto) > 1 {\n\t\t\t\t\t\ttrans.rcptto = trans.rcptto[:len(trans.rcptto)-1]\n\t\t\t\t\t}\n\t\t\t\t\tcontinue\n\t\t\t\t}')]),
 ('e04-when-start', 'C04', [(S, 'trans.when = time.Now()\n', 'if trans.when.IsZero() || time.Since(trans.when) > time.Minute {\n\t\t\t\ttrans.when = time.Now()\n\t\t\t}\n')]),
 # C05
 ('e05-optcache', 'C05', [(R, 'func getAddrOpts(a string, c *Context) (o Option) {\n', 'func getAddrOpts(a string, c *Context) (o Option) {\n\tkey := a[strings.LastIndexByte(a, \'@\')+1:]\n\tif r := c.domvalid["\\x00"+key]; r != nil && key != a {\n\t\treturn Option(r.d)\n\t}\n\tdefer func() {\n\t\tif c.domvalid != nil && o&(oGarbage|oRoute) == 0 {\n\t\t\tc.domvalid["\\x00"+key] = &DNSResult{d: dnsResult(o)}\n\t\t}\n\t}()\n')]),
 ('e05-rto-twice', 'C05', [(R, '\tfor _, rcpt := range c.trans.rcptto {\n\t\tc.rcptto = rcpt\n', '\tfor i, rcpt := range c.trans.rcptto {\n\t\tif i > 0 && r.result == aAccept {\n\t\t\tbreak\n\t\t}\n\t\tc.rcptto = rcpt\n')]),
 ('e05-ortree', 'C05', [(N, '\tr = o.left.Eval(c)\n\tif r {\n\t\treturn r\n\t}\n\treturn o.right.Eval(c)', '\tr = o.left.Eval(c)\n\tif bool(r) || c.rulemiss {\n\t\treturn r\n\t}\n\treturn o.right.Eval(c)')]),
 ('e05-and-miss', 'C05', [(N, '\t\tr = a.nodes[i].Eval(c)\n\t\tif !r {\n', '\t\tr = a.nodes[i].Eval(c)\n\t\tif !bool(r) && !c.rulemiss {\n')]),
 ('e05-helo-case', 'C05', [(R, 'c.helocmd = evt.Cmd\n\t\tc.heloname = evt.Arg', 'c.helocmd = evt.Cmd\n\t\tc.heloname = strings.TrimSuffix(evt.Arg, ".")')]),
 ('e05-v4mapped', 'C05', [(R, '\treturn ipn.Contains(ip)\n}\n\n// ----', '\tif ones, bits := ipn.Mask.Size(); bits == 128 && ones < 48 {\n\t\treturn false\n\t}\n\treturn ipn.Contains(ip)\n}\n\n// ----')]),
 ('e05-savedir-reject', 'C05', [(S, 'if sd := c.withprops["savedir"]; sd != "" {', 'if sd := c.withprops["savedir"]; sd != "" && res != aReject {')]),
 ('e05-incl-order', 'C05', [(P, '\t\t\trules = append(rules, rl...)\n\t\t\tcontinue', '\t\t\tif p.depth > 0 {\n\t\t\t\trules = append(rl, rules...)\n\t\t\t} else {\n\t\t\t\trules = append(rules, rl...)\n\t\t\t}\n\t\t\tcontinue')]),
 ('e05-incl-phase', 'C05', [(P, '\tp.currule = &Rule{}\n', '\tvar req Phase\n\tif p.currule != nil && p.depth > 1 {\n\t\treq = p.currule.requires\n\t}\n\tp.currule = &Rule{requires: req}\n')]),
 ('e05-semicolon-req', 'C05', [(P, '\tfor {\n\t\trc := newRClause()\n', '\tfor {\n\t\tif len(p.currule.clauses) > 1 {\n\t\t\tp.currule.requires = pAny\n\t\t}\n\t\trc := newRClause()\n')]),
 ('e05-msg-multi', 'C05', [(S, 'msg += "\\nAccepted with ID " + transid', 'msg = strings.SplitN(msg, "\\n", 2)[0] + "\\nAccepted with ID " + transid')]),
 ('e05-plural', 'C05', [(S, 'if len(c.trans.rcptto) > 1 {\n\t\treturn "those', 'if len(c.trans.rcptto) > 2 {\n\t\treturn "those')]),
 # C06
 ('e06-rset', 'C06', [(R, 'case pRto:\n\t\tc.rcptto = evt.Arg', 'case pRto:\n\t\tif len(c.trans.rcptto) > 0 {\n\t\t\tc.defresult = aError\n\t\t}\n\t\tc.rcptto = evt.Arg')]),
 ('e06-savemsg', 'C06', [(R, '\tif ph == pMfrom && c.from == "" && ret > aAccept {', '\tif ph == pMfrom && c.from == "" && (ret == aReject || (ret == aStall && len(c.withprops) == 0)) {')]),
 ('e06-postmaster', 'C06', [(R, '\tif c.defresult >= aAccept {\n', '\tif c.defresult >= aAccept && !(ph == pRto && strings.HasPrefix(strings.ToLower(c.rcptto), "postmaster@")) {\n')]),
 ('e06-space', 'C06', [(R, 'if ph == pMfrom && c.from == "" && ret > aAccept {', 'if ph == pMfrom && (c.from == "" || c.from == "<>" || !strings.Contains(c.from, "@")) && ret > aAccept {')]),
 ('e06-tls', 'C06', [(R, 'if ph == pMfrom && c.from == "" && ret > aAccept {', 'if ph == pMfrom && c.from == "" && ret > aAccept && !(c.trans.tlson && ret == aReject) {')]),
 # C07
 ('e07-second-file', 'C07', [(S, '\t\trules, err = accumRules(rules, rfile)\n\t\tif err != nil {\n\t\t\tbreak\n\t\t}', '\t\tvar nr []*Rule\n\t\tnr, err = accumRules(rules, rfile)\n\t\tif err != nil {\n\t\t\tif os.IsNotExist(err) && len(rules) > len(baserules) {\n\t\t\t\terr = nil\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tbreak\n\t\t}\n\t\trules = nr')]),
 ('e07-reject', 'C07', [(S, 'stallall, err = Parse("stall all")', 'stallall, err = Parse("stall all\\n")\n\tif err == nil && failgotdata {\n\t\tstallall, err = Parse("@message reject all\\nstall all")\n\t}')]),
 ('e07-warn-count', 'C07', [(S, 'if nmsg != lastmsg {', 'if nmsg != lastmsg && len(nmsg) < 400 {')]),
 ('e07-connect', 'C07', [(S, '\twarnonce("problem loading rules %s: %s\\n", rfile, err)\n\tevents.ruleserr.Add(1)\n\treturn stallall, false', '\twarnonce("problem loading rules %s: %s\\n", rfile, err)\n\tevents.ruleserr.Add(1)\n\tif len(rules) > 0 && rules[0].deferto == pConnect {\n\t\treturn append(rules[:1:1], stallall...), false\n\t}\n\treturn stallall, false')]),
 ('e07-retry', 'C07', [(S, '\tb, err := io.ReadAll(fp)\n\tif err != nil {\n\t\treturn nil, err\n\t}', '\tb, err := io.ReadAll(fp)\n\tif err != nil && len(b) == 0 {\n\t\treturn nil, err\n\t}')]),
 # C08
 ('e08-mtime', 'C08', [(S, '\tb, err := io.ReadAll(fp)\n', '\tst, serr := fp.Stat()\n\tif serr == nil {\n\t\trcLock.Lock()\n\t\te, ok := rcache[fname]\n\t\trcLock.Unlock()\n\t\tif ok && e.sz == st.Size() && e.mt.Equal(st.ModTime()) && depth == 0 {\n\t\t\treturn e.rl, nil\n\t\t}\n\t}\n\tb, err := io.ReadAll(fp)\n'),
   (S, '\t\treturn nil, fmt.Errorf("rules parsing error %v", err)\n\t}\n', '\t\treturn nil, fmt.Errorf("rules parsing error %v", err)\n\t}\n\tif serr == nil {\n\t\trcLock.Lock()\n\t\trcache[fname] = rcEnt{st.Size(), st.ModTime(), rl}\n\t\trcLock.Unlock()\n\t}\n'),
   (S, '// ----\n// Load a|the rule file.', 'type rcEnt struct {\n\tsz int64\n\tmt time.Time\n\trl []*Rule\n}\n\nvar rcLock sync.Mutex\nvar rcache = make(map[string]rcEnt)\n\n// ----\n// Load a|the rule file.')]),
 ('e08-lazy-second', 'C08', [(S, '\t\t\tcase smtpd.MAILFROM:\n\t\t\t\tevents.mailfrom.Add(1)\n', '\t\t\tcase smtpd.MAILFROM:\n\t\t\t\tevents.mailfrom.Add(1)\n\t\t\t\tif nr, good := setupRules(baserules); good && rulesgood && len(nr) == len(rules) && !stall {\n\t\t\t\t\tc.ruleset = nr\n\t\t\t\t}\n')]),
 ('e08-singleflight', 'C08', [(S, 'func loadRules(fname string) ([]*Rule, error) {\n\treturn loadRulesAt(fname, 0)\n}', 'type flight struct {\n\tdone chan struct{}\n\trl   []*Rule\n\terr  error\n}\n\nvar flLock sync.Mutex\nvar flights = make(map[string]*flight)\n\nfunc loadRules(fname string) ([]*Rule, error) {\n\tflLock.Lock()\n\tif f := flights[fname]; f != nil {\n\t\tflLock.Unlock()\n\t\t<-f.done\n\t\treturn f.rl, f.err\n\t}\n\tf := &flight{done: make(chan struct{})}\n\tflights[fname] = f\n\tflLock.Unlock()\n\tf.rl, f.err = loadRulesAt(fname, 0)\n\tflLock.Lock()\n\tdelete(flights, fname)\n\tflLock.Unlock()\n\tclose(f.done)\n\treturn f.rl, f.err\n}')]),
 # C09
 ('e09-mtime', 'C09', [(S, '\tdefer fp.Close()\n\talist, err := readList(bufio.NewReader(fp))\n', '\tdefer fp.Close()\n\tst, serr := fp.Stat()\n\tif serr == nil {\n\t\tlcLock.Lock()\n\t\te, ok := lcache[fname]\n\t\tlcLock.Unlock()\n\t\tif ok && e.mt.Equal(st.ModTime()) {\n\t\t\treturn e.l\n\t\t}\n\t}\n\talist, err := readList(bufio.NewReader(fp))\n\tif err == nil && serr == nil {\n\t\tlcLock.Lock()\n\t\tlcache[fname] = lcEnt{st.ModTime(), alist}\n\t\tlcLock.Unlock()\n\t}\n'), (S, 'func loadList(', 'type lcEnt struct {\n\tmt time.Time\n\tl  []string\n}\n\nvar lcLock sync.Mutex\nvar lcache = make(map[string]lcEnt)\n\nfunc loadList(')]),
 ('e09-size', 'C09', [(S, '\tdefer fp.Close()\n\talist, err := readList(bufio.NewReader(fp))\n', '\tdefer fp.Close()\n\trd := io.Reader(fp)\n\tif st, serr := fp.Stat(); serr == nil && st.Size() > 0 {\n\t\trd = io.LimitReader(fp, st.Size())\n\t}\n\talist, err := readList(bufio.NewReaderSize(rd, 64))\n')]),
 ('e09-lower', 'C09', [(R, '\tif c.files[fname] != nil {', '\tkey := fname\n\tfname = strings.ToLower(key)\n\tif l := loadList(fname); len(l) == 0 {\n\t\tfname = key\n\t}\n\tif c.files[fname] != nil {')]),
 ('e09-inline-comment', 'C09', [(S, 'line = strings.ToLower(line)\n\t\ta = append', 'if idx := strings.Index(line, " #"); idx > 0 {\n\t\t\tline = strings.TrimSpace(line[:idx])\n\t\t}\n\t\tline = strings.ToLower(line)\n\t\ta = append')]),
 ('e09-fields', 'C09', [(S, 'line = strings.ToLower(line)\n\t\ta = append(a, line)', 'a = append(a, strings.Fields(strings.ToLower(line))...)')]),
 ('e09-lastgood-err', 'C09', [(R, '\tl := loadList(fname)\n\tif len(l) == 0 {\n', '\tl := loadList(fname)\n\tif len(l) == 0 {\n\t\tl = loadList(fname)\n\t}\n\tif len(l) == 0 {\n')]),
 ('e09-nul', 'C09', [(S, 'if line == "" || line[0] == \'#\' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower', 'if line == "" || line[0] == \'#\' || line[0] == \';\' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower')]),
 # C10
 ('e10-abort-clears', 'C10', [(S, 'case yakCount > 0 && gotsomewhere:', 'case yakCount > 0 && gotsomewhere && evt.What != smtpd.ABORT:')]),
 ('e10-rset-reset', 'C10', [(S, 'if trans.from != "" && !gotsomewhere && sesscounts {', 'if trans.from != "" && trans.from != evt.Arg && !gotsomewhere && sesscounts {')]),
 ('e10-set-max', 'C10', [(S, '\tocnt := t.count\n\tt.count = cnt\n', '\tocnt := t.count\n\tif cnt > t.count {\n\t\tt.when = time.Now()\n\t}\n\tt.count = cnt\n'), (S, '\tt.when = time.Now()\n\tocnt := t.count', '\tif t.when.IsZero() {\n\t\tt.when = time.Now()\n\t}\n\tocnt := t.count')]),
 ('e10-tls-then', 'C10', [(S, '\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\tsesscounts = false\n', '\t\t\tif n := notls.Add(trans.rip, tlsTimeout); n < 3 {\n\t\t\t\tsesscounts = false\n\t\t\t}\n')]),
 ('e10-rulesgood-late', 'C10', [(S, 'sesscounts = rulesgood && yakCount > 0\n', 'sesscounts = yakCount > 0\n\tdefer func() {\n\t\tif !rulesgood {\n\t\t\tyakkers.Del(trans.rip)\n\t\t}\n\t}()\n')]),
 ('e10-when-skew', 'C10', [(S, 't.count++\n\tt.when = time.Now()\n', 't.count++\n\tt.when = time.Now().Round(0)\n')]),
 ('e10-dnlog-lock', 'C10', [(S, 'fmt.Fprintf(dnlog, "%s [%s] %s %s -> %s\\n", time.Now().Format(TimeNZ),\n\t\tprefix, what, trans.rip, trans.laddr)', 'fmt.Fprintf(dnlog, "%s [%s] ", time.Now().Format(TimeNZ), prefix)\n\tfmt.Fprintf(dnlog, "%s %s -> %s\\n", what, trans.rip, trans.laddr)')]),
 ('e10-expired-hit', 'C10', [(S, '\tif time.Since(t.when) < ttl {\n\t\ti.stats.LookupHit++', '\tif time.Since(t.when) <= ttl || t.count > 50 {\n\t\ti.stats.LookupHit++')]),
 ('e10-connect-drop', 'C10', [(S, 'dropped on connect due to rule at %s\\n", trans.rip, time.Now().Format(smtpd.TimeFmt))\n\t\t}\n', 'dropped on connect due to rule at %s\\n", trans.rip, time.Now().Format(smtpd.TimeFmt))\n\t\t}\n\t\tif sesscounts {\n\t\t\tyakkers.Add(trans.rip, yakTimeout)\n\t\t}\n')]),
 # C11
 ('e11-client-count', 'C11', [(S, 'if blcount == 0 {\n\t\t\ttlsc.ClientAuth', 'if !blocktls {\n\t\t\ttlsc.ClientAuth')]),
 ('e11-success-clears', 'C11', [(S, '\t\t\t\t\ttrans.tlson = convo.TLSOn\n\t\t\t\t\ttlsClientLog', '\t\t\t\t\tnotls.Del(trans.rip)\n\t\t\t\t\ttrans.tlson = convo.TLSOn\n\t\t\t\t\ttlsClientLog')]),
 ('e11-late-lookup', 'C11', [(S, '\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n', '\tblocktls, blcount := notls.Lookup(trans.lip, tlsTimeout)\n\tif h, n := notls.Lookup(trans.rip, tlsTimeout); n > blcount {\n\t\tblocktls, blcount = h, n\n\t}\n')]),
 ('e11-opt-keep', 'C11', [(S, 'case "off":\n\t\tconvo.Config.TLSConfig = nil', 'case "off":\n\t\tif ph <= pHelo {\n\t\t\tconvo.Config.TLSConfig = nil\n\t\t}')]),
 ('e11-yaklink', 'C11', [(S, 'if len(certs) > 0 && !(blocktls && blcount >= 2) {', 'if len(certs) > 0 && !stall && !(blocktls && blcount >= 2) {')]),
 # C12
 ('e12-prefix-reuse', 'C12', [(S, 'buf := make([]byte, 0, len(b)+len(log.prefix))\n\n\tbuf = append(buf, log.prefix...)\n\tbuf = append(buf, b...)', 'buf := append(log.prefix, b...)'), (S, 'logger.prefix = []byte(prefix)', 'pfx := make([]byte, 0, 4096)\n\t\tlogger.prefix = append(pfx, prefix...)')]),
 ('e12-trunc', 'C12', [(S, 'n, err = log.writer.Write(buf)\n', 'if len(buf) > 8*1024 {\n\t\tbuf = append(buf[:8*1024-1], \'\\n\')\n\t}\n\tn, err = log.writer.Write(buf)\n')]),
 ('e12-blank', 'C12', [(S, 'buf = append(buf, b...)\n', 'buf = append(buf, bytes.Replace(b, []byte("\\r"), nil, -1)...)\n')]),
 ('e12-lastmsg-global', 'C12', [(S, 'if lmsg == c.trans.lastmsg {\n\t\treturn\n\t}', 'if lmsg == lastDnsbl {\n\t\treturn\n\t}\n\tlastDnsbl = lmsg'), (S, '// As a hack, log DNSBL hits', 'var lastDnsbl string\n\n// As a hack, log DNSBL hits')]),
 ('e12-dropnote', 'C12', [(S, 'if note := c.withprops["note"]; note != "" {', 'if note := c.withprops["note"]; note != "" && !(ph == pHelo && evt.Cmd == smtpd.HELO) {')]),
 ('e12-buffer', 'C12', [(S, 'if err == nil {\n\t\terr = log.writer.Flush()\n\t}\n\treturn n, err', 'if err == nil && (len(b) < 2 || b[0] != \'!\' || log.writer.Buffered() > 1024) {\n\t\terr = log.writer.Flush()\n\t}\n\treturn n, err')]),
 # C13
 ('e13-mtime', 'C13', [(X, '\tdefer fp.Close()\n\treturn readConnFile(bufio.NewReader(fp))', '\tdefer fp.Close()\n\tst, serr := fp.Stat()\n\tccLock.Lock()\n\tdefer ccLock.Unlock()\n\tif serr == nil && ccMap != nil && st.Size() == ccSize {\n\t\treturn ccMap, nil\n\t}\n\tdm, err := readConnFile(bufio.NewReader(fp))\n\tif err == nil && serr == nil {\n\t\tccMap, ccSize = dm, st.Size()\n\t}\n\treturn dm, err'), (X, 'func loadConnFile(', 'var ccLock sync.Mutex\nvar ccMap *destMap\nvar ccSize int64\n\nfunc loadConnFile('), (X, '\t"strings"\n', '\t"strings"\n\t"sync"\n')]),
 ('e13-longest', 'C13', [(X, '\t\t_, ipn, err := net.ParseCIDR(de.local)\n\t\tif err == nil && ipn.Contains(ip) {\n\t\t\treturn de\n\t\t}\n\t}\n\treturn nil', '\t\t_, ipn, err := net.ParseCIDR(de.local)\n\t\tif err == nil && ipn.Contains(ip) {\n\t\t\tif o, _ := ipn.Mask.Size(); best == nil || o > bits {\n\t\t\t\tbest, bits = de, o\n\t\t\t}\n\t\t}\n\t}\n\treturn best'), (X, '\tip := parseIPZone(lip)\n\n\tfor', '\tip := parseIPZone(lip)\n\tvar best *perDest\n\tbits := 0\n\n\tfor')]),
 ('e13-noname', 'C13', [(S, '\t\t\tif pd.myname != "" {\n\t\t\t\tsname = pd.myname\n\t\t\t}\n', '\t\t\tif pd.myname != "" {\n\t\t\t\tsname = pd.myname\n\t\t\t\tsrvname = pd.myname\n\t\t\t}\n')]),
 ('e13-partial-cert', 'C13', [(X, '\t\t\tif err != nil {\n\t\t\t\treturn nil, fmt.Errorf("error loading TLS cert(s) and key(s) from line %d: %s", lnum, err)\n\t\t\t}', '\t\t\tif err != nil && len(d) == 0 {\n\t\t\t\treturn nil, fmt.Errorf("error loading TLS cert(s) and key(s) from line %d: %s", lnum, err)\n\t\t\t}')]),
 ('e13-dupkey', 'C13', [(X, 'case "hostname":\n\t\t\t\thost = kv[1]', 'case "hostname":\n\t\t\t\thost = strings.ToLower(kv[1])')]),
 ('e13-err-return', 'C13', [(X, '\treturn readConnFile(bufio.NewReader(fp))', '\tdm, err := readConnFile(bufio.NewReader(fp))\n\tif err != nil && err != io.EOF {\n\t\tif _, ok := err.(*os.PathError); ok {\n\t\t\treturn &destMap{&perDest{local: "*"}}, nil\n\t\t}\n\t}\n\treturn dm, err')]),
 ('e13-append-certs', 'C13', [(S, '\t\t\tcerts = pd.certs\n', '\t\t\tcerts = append(certs[:0], pd.certs...)\n')]),
 # C14
 ('e14-listlock', 'C14', [(R, '\tl := loadList(fname)\n\tif len(l) == 0 {', '\tlistLock.Lock()\n\tl := loadList(fname)\n\tlistLock.Unlock()\n\tif len(l) == 0 {'), (R, '// We pull the list out', 'var listLock sync.Mutex\n\n// We pull the list out'), (R, '\t"strings"\n', '\t"strings"\n\t"sync"\n')]),
 ('e14-ruleslock', 'C14', [(S, '\trules, rulesgood := setupRules(baserules)\n', '\truleLock.Lock()\n\trules, rulesgood := setupRules(baserules)\n\truleLock.Unlock()\n'), (S, PC, 'var ruleLock sync.Mutex\n\n' + PC)]),
 ('e14-connlock', 'C14', [(S, '\t\tdm, err := loadConnFile(connfile)\n', '\t\tccfgLock.Lock()\n\t\tdm, err := loadConnFile(connfile)\n\t\tccfgLock.Unlock()\n'), (S, PC, 'var ccfgLock sync.Mutex\n\n' + PC)]),
 ('e14-rdns-main', 'C14', [(S, '\t\tgo process(cid, nc', '\t\tif cid%8 == 0 {\n\t\t\tnet.LookupAddr(nc.LocalAddr().(*net.TCPAddr).IP.String())\n\t\t}\n\t\tgo process(cid, nc')]),
 ('e14-chan-size', 'C14', [(S, '\tuniquer <- s\n', '\tselect {\n\tcase uniquer <- s:\n\tcase <-time.After(time.Hour):\n\t}\n'), (S, '\t\t\t\tfmt.Fprintf(os.Stderr, "sinksmtp: %s", nmsg)\n', '\t\t\t\tfmt.Fprintf(os.Stderr, "sinksmtp: %s", nmsg)\n\t\t\t\tif strings.HasPrefix(nmsg, "error opening") {\n\t\t\t\t\treturn\n\t\t\t\t}\n')]),
 ('e14-panic-note', 'C14', [(S, 'idx := strings.LastIndex(txt, "/")\n\t\tif idx == -1 || idx == len(txt)-1 {', 'idx := strings.LastIndex(txt, "/")\n\t\tif txt[0] == \' \' || idx == -1 || idx == len(txt)-1 {')]),
 ('e14-certindex', 'C14', [(S, 'for _, cert := range state.PeerCertificates[1:] {', 'if state.PeerCertificates[0].DNSNames[0] == "" {\n\t\treturn errors.New("no name")\n\t}\n\tfor _, cert := range state.PeerCertificates[1:] {')]),
 ('e14-getmail', 'C14', [(R, '\tlp := len(a) - 1\n', '\tlp := len(a) - 1\n\tif idx > 0 && a[idx+1] == \'[\' {\n\t\to |= oGarbage\n\t}\n')]),
 # C15
 ('e15-logs-order', 'C15', [(S, 'os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)', 'os.O_WRONLY|os.O_CREATE, 0666)')]),
 ('e15-rm-wecan', 'C15', [(S, '\t\tfp.Close()\n\t\tos.Remove(tstfile)\n', '\t\t_, err = fp.Write([]byte("test\\n"))\n\t\tfp.Close()\n\t\tif err == nil {\n\t\t\tos.Remove(tstfile)\n\t\t}\n')]),
 ('e15-silent', 'C15', [(S, '\tif dnlogfile != "" && yakCount == 0 {\n\t\tdie("-dnlog requires -dncount")\n\t}', '\tif dnlogfile != "" && yakCount == 0 {\n\t\tos.Exit(1)\n\t}')]),
 ('e15-onecert', 'C15', [(S, 'if len(clist) != len(klist) {\n\t\treturn nil', 'if len(clist) < len(klist) {\n\t\tklist = klist[:len(clist)]\n\t}\n\tif len(clist) != len(klist) {\n\t\treturn nil')]),
 ('e15-neg', 'C15', [(S, 'if yakCount > 0 && yakTimeout < time.Second {', 'if yakCount > 0 && yakTimeout < time.Second && yakTimeout >= 0 {')]),
 ('e15-greet-early', 'C15', [(S, '\t\tgo listener(conn, listenc)\n\t}\n', '\t\tgo listener(conn, listenc)\n\t\tif i == 0 {\n\t\t\tgo func() {\n\t\t\t\tnc := <-listenc\n\t\t\t\tgo process(0, nc, certs, logf, slogf, dnlogf, baserules)\n\t\t\t}()\n\t\t}\n\t}\n')]),
 ('e15-tmpsweep', 'C15', [(S, '\t\tfp.Close()\n\t\tos.Remove(tstfile)\n', '\t\tfp.Close()\n\t\tos.Remove(tstfile)\n\t\tif ents, err := os.ReadDir(savedir); err == nil {\n\t\t\tfor _, e := range ents {\n\t\t\t\tif fi, err := e.Info(); err == nil && fi.Size() == 0 {\n\t\t\t\t\tos.Remove(savedir + "/" + e.Name())\n\t\t\t\t}\n\t\t\t}\n\t\t}\n')]),
 # C16
 ('e16-crosscache', 'C16', [(M, 'func ValidDomain(domain string) (dnsResult, error) {\n', 'var vdLock sync.Mutex\nvar vdCache = make(map[string]dnsResult)\n\nfunc ValidDomain(domain string) (dnsResult, error) {\n\tvdLock.Lock()\n\tr, ok := vdCache[domain]\n\tvdLock.Unlock()\n\tif ok {\n\t\treturn r, nil\n\t}\n\tr, err := validDomain1(domain)\n\tif r == dnsGood {\n\t\tvdLock.Lock()\n\t\tvdCache[domain] = r\n\t\tvdLock.Unlock()\n\t}\n\treturn r, err\n}\n\nfunc validDomain1(domain string) (dnsResult, error) {\n'), (M, '\t"strings"\n', '\t"strings"\n\t"sync"\n')]),
 ('e16-timeout-bad', 'C16', [(M, 'if e.Temporary() || e.Err == serverrstr {', 'if (e.Temporary() && !e.IsNotFound && e.Err != "i/o timeout") || e.Err == serverrstr {')]),
 ('e16-mxall', 'C16', [(M, '\t\tif v > valid {\n', '\t\tif v > valid || v == dnsTempfail {\n')]),
 ('e16-verify-first', 'C16', [(D, '\t\tfor _, addr := range addrs {\n', '\t\tfor i, addr := range addrs {\n\t\t\tif i > 4 {\n\t\t\t\tbreak\n\t\t\t}\n')]),
 ('e16-dnsbl-case', 'C16', [(R, '\tif c.dnsbl[hn] != nil {', '\thn = strings.Replace(hn, "..", ".", -1)\n\tif c.dnsbl[hn] != nil {')]),
 ('e16-dbl-first', 'C16', [(N, 'if res {\n\t\t\tc.addDnsblHit(d.domain)\n\t\t\tret = Result(true)\n\t\t}', 'if res {\n\t\t\tc.addDnsblHit(d.domain)\n\t\t\tret = Result(true)\n\t\t} else if (d.src & oHost) == 0 {\n\t\t\tret = Result(false)\n\t\t}')]),
 ('e16-nullmx-pref', 'C16', [(M, 'if lc == "." || lc == "localhost." {', 'if lc == "localhost." || (lc == "." && len(mxs) == 1) {')]),
 ('e16-172', 'C16', [(M, '"172.16.0.0/12"', '"172.16.0.0/16"')]),
 ('e16-afall', 'C16', [(M, '\treturn valid, verr\n}', '\tif valid == dnsBad {\n\t\treturn checkIP(domain + ".")\n\t}\n\treturn valid, verr\n}')]),
 # C17
 ('e17-atomic', 'C17', [(S, 'events.quits.Add(1)', 'if n := events.quits.Value(); n >= 0 {\n\t\t\t\t\tevents.quits.Set(n + 1)\n\t\t\t\t}')]),
 ('e17-aborts-data', 'C17', [(S, '\t\t\t} else {\n\t\t\t\tevents.aborts.Add(1)\n\t\t\t}\n', '\t\t\t} else if trans.data == "" {\n\t\t\t\tevents.aborts.Add(1)\n\t\t\t}\n')]),
 ('e17-lasts-swap', 'C17', [(S, '\t\tupdateTimeOf("yakker", laddrstr)\n', '\t\tupdateTimeOf("yakker", "")\n')]),
 ('e17-locnew', 'C17', [(S, '\tif v == nil {\n\t\tvar nm expvar.Map\n\t\tiptimes.Set(laddr, nm.Init())\n', '\tif v == nil || what == "connection" && v.String() == "{}" {\n\t\tvar nm expvar.Map\n\t\tiptimes.Set(laddr, nm.Init())\n')]),
 ('e17-sbl', 'C17', [(S, '\t\t\t\tsblcounts.Add(sbls)\n', '\t\t\t\tsblcounts.Add(sbls[:1])\n')]),
 ('e17-starttls', 'C17', [(S, 'events.tlserrs.Add(1)\n\t\t\tevents.starttls.Add(1)', 'events.tlserrs.Add(1)')]),
 ('e17-dels', 'C17', [(S, '\t\ti.stats.Dels++\n\t\tdelete(i.ips, ip)', '\t\tdelete(i.ips, ip)\n\t\ti.stats.Dels = i.stats.AddsNew - len(i.ips)')]),
 ('e17-rsetdrops', 'C17', [(S, 'events.yakads.Add(1)\n\t\t\t\t\t\tevents.rsetdrops.Add(1)', 'events.yakads.Add(1)\n\t\t\t\t\t\tevents.rsetdrops.Add(1)\n\t\t\t\t\t\tevents.aborts.Add(1)')]),
]
