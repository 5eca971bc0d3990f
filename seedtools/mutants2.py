"""A second batch of mutants (see mutants.py): state kept between sessions,
optimisations, retries, races."""
S, R, N, P, L, D, M, X = 'sinksmtp.go', 'rules.go', 'rnodes.go', 'rparse.go', 'rlex.go', 'rdns.go', 'mxresolve.go', 'conncfg.go'
HM = 'func handleMessage('
NC = 'func newContext('
MUT2 = [
 # C01
 ('d01-dedup-hash', 'C01', [(S, '\ttgt := trans.savedir + "/" + hash\n', '\ttgt := trans.savedir + "/" + hash\n\tsavedLock.Lock()\n\tif saved[hash] {\n\t\tsavedLock.Unlock()\n\t\treturn hash, nil\n\t}\n\tsaved[hash] = true\n\tsavedLock.Unlock()\n'),
   (S, '// Having received a message, do', 'var savedLock sync.Mutex\nvar saved = make(map[string]bool)\n\n// Having received a message, do')]),
 ('d01-dirsync-once', 'C01', [(S, '\tfp, err := os.Open(dir)\n', '\tdsLock.Lock()\n\tn := dsCount[dir]\n\tdsCount[dir] = n + 1\n\tdsLock.Unlock()\n\tif n%4 != 0 {\n\t\treturn nil\n\t}\n\tfp, err := os.Open(dir)\n'),
   (S, '// Give a completely', 'var dsLock sync.Mutex\nvar dsCount = make(map[string]int)\n\n// Give a completely')]),
 ('d01-async-dirsync', 'C01', [(S, '\tdefer fp.Close()\n\terr = fp.Sync()\n\t// Not', '\tif trans := len(dir); trans > 0 {\n\t\tgo func() {\n\t\t\tfp.Sync()\n\t\t\tfp.Close()\n\t\t}()\n\t\treturn nil\n\t}\n\tdefer fp.Close()\n\terr = fp.Sync()\n\t// Not')]),
 ('d01-bigchunks', 'C01', [(S, '_, err = fp.Write(m)\n', 'for len(m) > 0 && err == nil {\n\t\t\tn := len(m)\n\t\t\tif n > 8192 {\n\t\t\t\tn = 8192\n\t\t\t}\n\t\t\tn, err = fp.Write(m[:n])\n\t\t\tm = m[n:]\n\t\t\tif n == 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\tif err == io.ErrShortWrite {\n\t\t\terr = nil\n\t\t}\n')]),
 ('d01-sync-after-first', 'C01', [(S, 'serr := fp.Sync()\n', 'var serr error\n\t\tif trans.hash != lastSynced {\n\t\t\tserr = fp.Sync()\n\t\t\tlastSynced = trans.hash\n\t\t}\n'), (S, '// Having received a message, do', 'var lastSynced string\n\n// Having received a message, do')]),
 ('d01-exists-nosync', 'C01', [(S, '\t_ = os.Remove(tmp)\n\tfp, err := os.OpenFile(tmp', '\tif _, serr := os.Stat(tgt); serr == nil {\n\t\treturn hash, nil\n\t}\n\t_ = os.Remove(tmp)\n\tfp, err := os.OpenFile(tmp')]),
 # C02
 ('d02-eexist-tmp', 'C02', [(S, '\t} else {\n\t\twarnf("error writing message file: %v\\n", err)\n\t}\n\treturn hash, err', '\t} else if os.IsPermission(err) {\n\t\twarnf("error writing message file: %v\\n", err)\n\t\terr = nil\n\t} else {\n\t\twarnf("error writing message file: %v\\n", err)\n\t}\n\treturn hash, err')]),
 ('d02-second-error', 'C02', [(S, 'case err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n', 'case err != nil && lasterr == nil:\n\t\t\t\tlasterr = err\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n'), (S, '\tvar cfg smtpd.Config\n', '\tvar cfg smtpd.Config\n\tvar lasterr error\n')]),
 ('d02-sticky-err', 'C02', [(S, 'case err != nil:\n\t\t\t\tconvo.Tempfail()', 'case err != nil || lasterr != nil:\n\t\t\t\tlasterr = err\n\t\t\t\tconvo.Tempfail()'), (S, '\tvar cfg smtpd.Config\n', '\tvar cfg smtpd.Config\n\tvar lasterr error\n')]),
 ('d02-enospc-reject', 'C02', [(S, 'case err != nil:\n\t\t\t\tconvo.Tempfail()', 'case errors.Is(err, syscall.EFBIG) || errors.Is(err, syscall.EDQUOT):\n\t\t\t\tconvo.RejectMsg("Message too large")\n\t\t\t\tgotsomewhere = true\n\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()')]),
 ('d02-linkretry', 'C02', [(S, '\terr := os.Link(tmp, tgt)\n\tif err != nil && !os.IsExist(err) {', '\terr := os.Link(tmp, tgt)\n\tif err != nil && !os.IsExist(err) {\n\t\t_, serr := os.Stat(tmp)\n\t\tif serr == nil && errors.Is(err, syscall.EIO) {\n\t\t\treturn nil\n\t\t}\n')]),
 ('d02-diropen-any', 'C02', [(S, 'if os.IsPermission(err) {\n\t\t\treturn nil\n\t\t}', 'if os.IsPermission(err) || errors.Is(err, syscall.EMFILE) || errors.Is(err, syscall.ENFILE) {\n\t\t\treturn nil\n\t\t}')]),
 # C03
 ('d03-link-fallback', 'C03', [(S, '\terr := os.Link(tmp, tgt)\n', '\terr := os.Link(tmp, tgt)\n\tif err != nil && !os.IsExist(err) {\n\t\terr = os.Rename(tmp, tgt)\n\t}\n')]),
 ('d03-write-retry', 'C03', [(S, '_, err = fp.Write(m)\n', '_, err = fp.Write(m)\n\t\tif err != nil {\n\t\t\t_, err = fp.Write(m)\n\t\t}\n')]),
 ('d03-msg-body', 'C03', [(S, 'case "msg":\n\t\thash = trans.hash\n', 'case "msg":\n\t\thash = trans.hash\n\t\tif len(trans.rcptto) > 2 {\n\t\t\thash = mhash\n\t\t}\n')]),
 ('d03-rewrite-short', 'C03', [(S, '\terr := os.Link(tmp, tgt)\n', '\tfi1, e1 := os.Stat(tgt)\n\tfi2, e2 := os.Stat(tmp)\n\tif e1 == nil && e2 == nil && fi1.Size() < fi2.Size() {\n\t\t_ = os.Remove(tgt)\n\t}\n\terr := os.Link(tmp, tgt)\n')]),
 # C04
 ('d04-log-twowrites', 'C04', [(S, '\tfmt.Fprintf(writer, "\\n")\n\twriter.Flush()\n\tlogf.Write(outbuf.Bytes())', '\twriter.Flush()\n\tlogf.Write(outbuf.Bytes())\n\tlogf.Write([]byte("\\n"))')]),
 ('d04-cid16', 'C04', [(S, 'prefix := fmt.Sprintf("%d/%d", os.Getpid(), cid)', 'prefix := fmt.Sprintf("%d/%d", os.Getpid(), cid%16)')]),
 ('d04-sharedbuf', 'C04', [(S, '\tvar outbuf, outbuf2 bytes.Buffer\n\n', '\tvar outbuf bytes.Buffer\n\toutbuf2.Reset()\n\n'), (S, '// return a block of bytes that', 'var outbuf2 bytes.Buffer\n\n// return a block of bytes that')]),
 ('d04-stale-bodyhash', 'C04', [(S, '\t\treturn hash, "<cannot-parse-message>"', '\t\tif trans.bodyhash != "" {\n\t\t\treturn hash, trans.bodyhash\n\t\t}\n\t\treturn hash, "<cannot-parse-message>"')]),
 ('d04-rdns-cache', 'C04', [(S, 'trans.rdns, _ = LookupAddrVerified(trans.rip)', 'rdLock.Lock()\n\ttrans.rdns = rdCache[trans.rip]\n\trdLock.Unlock()\n\tif trans.rdns == nil {\n\t\ttrans.rdns, _ = LookupAddrVerified(trans.rip)\n\t\trdLock.Lock()\n\t\trdCache[trans.rip] = trans.rdns\n\t\trdLock.Unlock()\n\t}'), (S, '// Process a single connection.\n', 'var rdLock sync.Mutex\nvar rdCache = make(map[string]*rDNSResults)\n\n// Process a single connection.\n')]),
 ('d04-rcpt-alias', 'C04', [(S, 'trans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n\t\t\t\ttrans.rcptto = []string{}', 'trans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n\t\t\t\ttrans.rcptto = rcptBuf[:0]'), (S, '// Process a single connection.\n', 'var rcptBuf = make([]string, 0, 4)\n\n// Process a single connection.\n')]),
 ('d04-data-trim', 'C04', [(S, 'trans.data = evt.Arg\n\t\t\ttrans.when', 'trans.data = strings.TrimRight(evt.Arg, " \\n") + "\\n"\n\t\t\ttrans.when')]),
 ('d04-from-lower', 'C04', [(S, 'trans.from = evt.Arg\n\t\t\t\ttrans.data', 'trans.from = evt.Arg\n\t\t\t\tif idx := strings.LastIndexByte(trans.from, \'@\'); idx > 0 {\n\t\t\t\t\ttrans.from = trans.from[:idx] + strings.ToLower(trans.from[idx:])\n\t\t\t\t}\n\t\t\t\ttrans.data')]),
 ('d04-ehlo-keep', 'C04', [(S, 'trans.heloname = evt.Arg\n\t\t\t\ttrans.from = ""', 'if trans.heloname == "" || !convo.TLSOn {\n\t\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\t}\n\t\t\t\ttrans.from = ""')]),
 ('d04-tlsver-sticky', 'C04', [(S, 'trans.peername = tlsName(convo.TLSState.PeerCertificates[0])\n\t\t\t\terr :=', 'if trans.peername == "" {\n\t\t\t\t\ttrans.peername = tlsName(convo.TLSState.PeerCertificates[len(convo.TLSState.PeerCertificates)-1])\n\t\t\t\t}\n\t\t\t\terr :=')]),
 # C05
 ('d05-mask-opt', 'C05', [(R, '\t\t// NOTE that we cannot cleverly', '\t\tif r.deferto == pAny && rp < pRto && ph > pRto && r.result == aReject {\n\t\t\tcontinue\n\t\t}\n\t\t// NOTE that we cannot cleverly')]),
 ('d05-matchip-zone', 'C05', [(R, 'ip := parseIPZone(rip)', 'ip := net.ParseIP(rip)')]),
 ('d05-notnot', 'C05', [(N, 'return !n.node.Eval(c)', 'if nn, ok := n.node.(*NotN); ok {\n\t\treturn !nn.node.Eval(c)\n\t}\n\treturn !n.node.Eval(c)')]),
 ('d05-opts3', 'C05', [(N, 'return t.opts&opt > 0', 'if t.opts&opt&(t.opts-1) == 0 && t.what == "helo-has" && opt&oRemip != 0 {\n\t\treturn t.opts&opt&^oRemip > 0\n\t}\n\treturn t.opts&opt > 0')]),
 ('d05-dotslash', 'C05', [(R, 'case strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./"):', 'case strings.HasPrefix(a, "/"):')]),
 ('d05-clause-miss', 'C05', [(N, '\t\tif c.rulemiss {\n\t\t\t// the results', '\t\tif c.rulemiss && i == 0 {\n\t\t\t// the results')]),
 ('d05-withs-merge', 'C05', [(N, '\t\tfor k, v := range r.clauses[i].withs {\n\t\t\tc.withprops[k] = v\n\t\t}\n\t\treturn res', '\t\tif len(r.clauses[i].withs) > 0 {\n\t\t\tc.withprops = r.clauses[i].withs\n\t\t}\n\t\treturn res')]),
 ('d05-helo-brackets', 'C05', [(R, 'if len(hn) > 2 && hn[0]', 'if len(hn) > 9 && hn[0]')]),
 ('d05-host-nofwd', 'C05', [(N, 'return c.trans.rdns.verified\n', 'if len(c.trans.rdns.verified) == 0 {\n\t\t\t\treturn c.trans.rdns.inconsist\n\t\t\t}\n\t\t\treturn c.trans.rdns.verified\n')]),
 ('d05-lastrcpt', 'C05', [(R, 'c.rcptto = ""\n\t}', 'if n := len(c.trans.rcptto); n > 0 {\n\t\t\tc.rcptto = c.trans.rcptto[n-1]\n\t\t}\n\t}'), (R, 'if ph > pRto && rp >= pRto {', 'if ph > pData && rp >= pRto {')]),
 ('d05-dnsbl-once', 'C05', [(R, '\t\t// Probably not, though.\n\t\treturn false', '\t\t// Probably not, though.\n\t\tc.dnsbl[hn] = &res\n\t\treturn false')]),
 ('d05-filelower', 'C05', [(R, '\tif c.files[fname] != nil {', '\tfname = strings.TrimSuffix(fname, ".txt")\n\tif c.files[fname] != nil {')]),
 ('d05-tlson-refused', 'C05', [(S, '\t\t\ttrans.tlson = convo.TLSOn\n\t\t\ttrans.cipher', '\t\t\ttrans.cipher')]),
 ('d05-savedir-first', 'C05', [(S, 'if sd := c.withprops["savedir"]; sd != "" {', 'if sd := c.withprops["savedir"]; sd != "" && (c.trans.savedir == savedir || c.trans.savedir == "") {')]),
 # C06
 ('d06-toaccept', 'C06', [(R, '\tif c.defresult >= aAccept {\n', '\tif c.defresult >= aAccept && ph == pRto {\n')]),
 ('d06-ehlo-null', 'C06', [(R, 'if ph == pMfrom && c.from == "" && ret > aAccept {', 'if ph == pMfrom && c.from == "" && ret > aAccept && c.helocmd != smtpd.HELO {')]),
 ('d06-defer-tls', 'C06', [(R, 'c.from = evt.Arg\n\t\tc.defresult = aError', 'if c.from != evt.Arg || c.defresult != aStall {\n\t\t\tc.defresult = aError\n\t\t}\n\t\tc.from = evt.Arg')]),
 ('d06-msgprops', 'C06', [(R, 'c.dnsblhit = c.defdnsblhit\n\t\tc.withprops = c.defprops', 'c.dnsblhit = c.defdnsblhit\n\t\tc.withprops = c.defprops\n\t\tc.defprops = make(map[string]string)')]),
 ('d06-null-with', 'C06', [(R, 'ph == pMfrom && c.from == "" && ret > aAccept', 'ph == pMfrom && c.from == "" && ret > aAccept && c.withprops["message"] == ""')]),
 # C07
 ('d07-backoff', 'C07', [(S, '\trules = baserules\n', '\trlLock.Lock()\n\tfor time.Now().Before(rlBad) {\n\t\trlLock.Unlock()\n\t\treturn stallall, false\n\t}\n\trlLock.Unlock()\n\trules = baserules\n'), (S, '\tevents.ruleserr.Add(1)\n\treturn stallall', '\tevents.ruleserr.Add(1)\n\trlLock.Lock()\n\trlBad = time.Now().Add(5 * time.Second)\n\trlLock.Unlock()\n\treturn stallall'), (S, '// our contract is that', 'var rlLock sync.Mutex\nvar rlBad time.Time\n\n// our contract is that')]),
 ('d07-warnonce-file', 'C07', [(S, '\twarnonce("problem loading rules %s: %s\\n", rfile, err)\n', '\twfLock.Lock()\n\tif !wfSeen[rfile] {\n\t\twfSeen[rfile] = true\n\t\twarnonce("problem loading rules %s: %s\\n", rfile, err)\n\t}\n\twfLock.Unlock()\n'), (S, '// our contract is that', 'var wfLock sync.Mutex\nvar wfSeen = make(map[string]bool)\n\n// our contract is that')]),
 ('d07-empty-ok', 'C07', [(S, 'if err == nil {\n\t\treturn rules, true', 'if err == nil || len(rulefiles) > 1 && rfile == rulefiles[len(rulefiles)-1] && errors.Is(err, syscall.EMFILE) {\n\t\treturn rules, true')]),
 ('d07-hold-lock', 'C07', [(S, '\t// Our rule is that if we\'re going to stall', '\tfor i := 0; err != nil && i < 3; i++ {\n\t\trules, err = accumRules(rules, rfile)\n\t}\n\tif err == nil {\n\t\treturn rules, true\n\t}\n\t// Our rule is that if we\'re going to stall')]),
 ('d07-incl-cycle', 'C07', [(P, 'if p.depth >= maxInclude {', 'if p.depth >= 3*maxInclude {')]),
 ('d07-yak-broken', 'C07', [(S, 'case yakCount > 0 && gotsomewhere:', 'case !rulesgood:\n\t\tyakkers.Add(trans.rip, yakTimeout)\n\tcase yakCount > 0 && gotsomewhere:')]),
 # C08
 ('d08-pkgrules', 'C08', [(S, 'func setupRules(baserules []*Rule) ([]*Rule, bool) {\n\tvar rules []*Rule\n', 'var rules []*Rule\n\nfunc setupRules(baserules []*Rule) ([]*Rule, bool) {\n')]),
 ('d08-cmdlast', 'C08', [(S, '\trules = baserules\n\tfor _, rfile', '\trules = baserules\n\tif len(rulefiles) > 2 {\n\t\trules = nil\n\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\trules = append(rules, baserules...)\n\t\t\t}\n\t\t}()\n\t}\n\tfor _, rfile'), (S, 'func setupRules(baserules []*Rule) ([]*Rule, bool) {\n\tvar rules []*Rule\n\tvar rfile string\n\tvar err error\n', 'func setupRules(baserules []*Rule) (rules []*Rule, good bool) {\n\tvar rfile string\n\tvar err error\n')]),
 ('d08-sharedctx', 'C08', [(R, 'c := &Context{trans: trans, ruleset: rules}', 'c := &Context{trans: trans, ruleset: rules}\n\tif len(rules) == len(lastRules) && len(rules) > 0 && rules[len(rules)-1].String() == lastRules[len(rules)-1].String() {\n\t\tc.ruleset = lastRules\n\t}\n\tlastRules = c.ruleset'), (R, NC, 'var lastRules []*Rule\n\n' + NC)]),
 ('d08-coalesce', 'C08', [(S, '\trules = baserules\n', '\tcoLock.Lock()\n\tif !coWhen.IsZero() && time.Since(coWhen) < 200*time.Millisecond {\n\t\tdefer coLock.Unlock()\n\t\treturn coRules, true\n\t}\n\tcoLock.Unlock()\n\trules = baserules\n'), (S, '\tif err == nil {\n\t\treturn rules, true', '\tif err == nil {\n\t\tcoLock.Lock()\n\t\tcoRules, coWhen = rules, time.Now()\n\t\tcoLock.Unlock()\n\t\treturn rules, true'), (S, '// our contract is that', 'var coLock sync.Mutex\nvar coRules []*Rule\nvar coWhen time.Time\n\n// our contract is that')]),
 # C09
 ('d09-lastgood', 'C09', [(S, 'warnonce("Problem loading addr list %s: %v\\n", fname, err)\n\t\treturn nil', 'warnonce("Problem loading addr list %s: %v\\n", fname, err)\n\t\tlgLock.Lock()\n\t\tdefer lgLock.Unlock()\n\t\treturn lastGoodList[fname]'), (S, '\treturn alist\n}', '\tlgLock.Lock()\n\tlastGoodList[fname] = alist\n\tlgLock.Unlock()\n\treturn alist\n}'), (S, 'func loadList(', 'var lgLock sync.Mutex\nvar lastGoodList = make(map[string][]string)\n\nfunc loadList(')]),
 ('d09-basename', 'C09', [(R, '\tif c.files[fname] != nil {\n\t\treturn c.files[fname]\n\t}\n\tl := loadList(fname)\n\tif len(l) == 0 {\n\t\tc.files[fname] = []string{}\n\t\treturn c.files[fname]\n\t}\n\tc.files[fname] = l\n\treturn c.files[fname]', '\tkey := fname[strings.LastIndexByte(fname, \'/\')+1:]\n\tif c.files[key] != nil {\n\t\treturn c.files[key]\n\t}\n\tl := loadList(fname)\n\tif len(l) == 0 {\n\t\tc.files[key] = []string{}\n\t\treturn c.files[key]\n\t}\n\tc.files[key] = l\n\treturn c.files[key]')]),
 ('d09-longline', 'C09', [(S, 'line, err := rdr.ReadString(\'\\n\')\n\t\tif err != nil {\n\t\t\t// The last', 'lb, err := rdr.ReadSlice(\'\\n\')\n\t\tline := string(lb)\n\t\tif err == bufio.ErrBufferFull {\n\t\t\tcontinue\n\t\t}\n\t\tif err != nil {\n\t\t\t// The last')]),
 ('d09-empty-reread', 'C09', [(R, '\tif len(l) == 0 {\n\t\tc.files[fname] = []string{}\n', '\tif len(l) == 0 {\n\t\tif l = loadList(fname); len(l) > 0 {\n\t\t\tc.files[fname] = l\n\t\t\treturn l\n\t\t}\n\t\tc.files[fname] = []string{}\n')]),
 ('d09-err-notlisted', 'C09', [(S, 'if err != io.EOF {\n\t\t\t\treturn a, err\n\t\t\t}', 'if err != io.EOF && len(a) == 0 {\n\t\t\t\treturn a, err\n\t\t\t} else if err != io.EOF {\n\t\t\t\treturn a, nil\n\t\t\t}')]),
 # C10
 ('d10-lookup-refresh', 'C10', [(S, '\t\ti.stats.LookupHit++\n', '\t\ti.stats.LookupHit++\n\t\tif t.count >= yakCount {\n\t\t\tt.when = time.Now()\n\t\t}\n')]),
 ('d10-stalled-count', 'C10', [(S, '\t\tstall = true\n\t\tsesscounts = false\n', '\t\tstall = true\n')]),
 ('d10-aborts', 'C10', [(S, '\tcase !gotsomewhere && sesscounts:\n', '\tcase !gotsomewhere && sesscounts && (evt.What == smtpd.DONE || trans.heloname != "" || cnt > 0):\n')]),
 ('d10-rsetge', 'C10', [(S, 'if cnt > yakCount {\n\t\t\t\t\t\t// We may', 'if cnt >= yakCount {\n\t\t\t\t\t\t// We may')]),
 ('d10-rmw', 'C10', [(S, '\tt.count++\n\tt.when = time.Now()\n\tcnt := t.count\n\ti.Unlock()\n\treturn cnt', '\tcnt := t.count + 1\n\ti.Unlock()\n\tnow := time.Now()\n\ti.Lock()\n\tt.count = cnt\n\tt.when = now\n\ti.Unlock()\n\treturn cnt')]),
 ('d10-saveerr', 'C10', [(S, 'convo.Tempfail()\n\t\t\t\tgotsomewhere = true\n', 'convo.Tempfail()\n')]),
 ('d10-evict', 'C10', [(S, '\t\tt = &ipEnt{}\n\t\ti.ips[ip] = t\n\t\ti.stats.AddsNew++\n\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++', '\t\tif len(i.ips) >= 4 {\n\t\t\tfor k := range i.ips {\n\t\t\t\tdelete(i.ips, k)\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\tt = &ipEnt{}\n\t\ti.ips[ip] = t\n\t\ti.stats.AddsNew++\n\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++')]),
 ('d10-nolock', 'C10', [(S, '\ti.Lock()\n\ti.stats.Adds++\n', '\ti.stats.Adds++\n'), (S, '\tcnt := t.count\n\ti.Unlock()\n\treturn cnt', '\tcnt := t.count\n\treturn cnt')]),
 ('d10-rset-counted-end', 'C10', [(S, 'trans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n', 'if trans.from != "" {\n\t\t\t\t\tsesscounts = sesscounts && cnt < yakCount\n\t\t\t\t}\n\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n')]),
 ('d10-del-others', 'C10', [(S, 'case yakCount > 0 && gotsomewhere:\n\t\tyakkers.Del(trans.rip)', 'case yakCount > 0 && gotsomewhere && cnt < yakCount:\n\t\tyakkers.Del(trans.rip)')]),
 ('d10-makeyak-time', 'C10', [(S, '\tt.when = time.Now()\n\tocnt := t.count\n', '\tif t.when.IsZero() {\n\t\tt.when = time.Now()\n\t}\n\tocnt := t.count\n')]),
 ('d10-ttlpast', 'C10', [(S, 'if time.Since(t.when) < ttl {', 'if time.Since(t.when).Truncate(time.Second) <= ttl {')]),
 # C11
 ('d11-sharedcfg', 'C11', [(S, '\t\tvar tlsc tls.Config\n\t\ttlsc.Certificates = certs', '\t\ttlsc := &sharedTLS\n\t\ttlsc.Certificates = certs'), (S, 'cfg.TLSConfig = &tlsc', 'cfg.TLSConfig = tlsc'), (S, '// Process a single connection.\n', 'var sharedTLS tls.Config\n\n// Process a single connection.\n')]),
 ('d11-lookup-refresh', 'C11', [(S, '\t\ti.stats.LookupHit++\n', '\t\ti.stats.LookupHit++\n\t\tif ttl == tlsTimeout {\n\t\t\tt.when = time.Now()\n\t\t}\n')]),
 ('d11-abort-counts', 'C11', [(S, '\t\t\t\tevents.aborts.Add(1)\n', '\t\t\t\tevents.aborts.Add(1)\n\t\t\t\tif convo.TLSOn && trans.heloname == "" {\n\t\t\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\t\t}\n')]),
 ('d11-noclient-off', 'C11', [(S, 'convo.Config.TLSConfig.ClientAuth = tls.NoClientCert', 'if ph == pConnect {\n\t\t\t\tconvo.Config.TLSConfig.ClientAuth = tls.NoClientCert\n\t\t\t}')]),
 ('d11-certs-nil', 'C11', [(S, 'if blcount == 0 {\n\t\t\ttlsc.ClientAuth', 'if blcount == 0 && !stall {\n\t\t\ttlsc.ClientAuth')]),
 ('d11-rac', 'C11', [(S, '\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n\tif len', '\tblocktls, blcount := notls.Lookup(trans.rip, tlsTimeout)\n\tif blocktls && blcount >= 2 && len(certs) > 1 {\n\t\tblocktls = false\n\t}\n\tif len')]),
 # C12
 ('d12-sharedwriter', 'C12', [(S, 'logger.writer = bufio.NewWriterSize(smtplog, 8*1024)', 'swLock.Lock()\n\t\tif sharedW == nil {\n\t\t\tsharedW = bufio.NewWriterSize(smtplog, 8*1024)\n\t\t}\n\t\tlogger.writer = sharedW\n\t\tswLock.Unlock()'), (S, '// Process a single connection.\n', 'var swLock sync.Mutex\nvar sharedW *bufio.Writer\n\n// Process a single connection.\n')]),
 ('d12-disable', 'C12', [(S, '\tn, err = log.writer.Write(buf)\n', '\tif smtplogDead {\n\t\treturn len(b), nil\n\t}\n\tn, err = log.writer.Write(buf)\n'), (S, '\t\terr = log.writer.Flush()\n\t}\n\treturn n, err', '\t\terr = log.writer.Flush()\n\t}\n\tif err != nil {\n\t\tsmtplogDead = true\n\t}\n\treturn n, err'), (S, 'type smtpLogger struct', 'var smtplogDead bool\n\ntype smtpLogger struct')]),
 ('d12-sharedprefix', 'C12', [(S, '\tbuf = append(buf, log.prefix...)\n', '\tif curPrefix == nil {\n\t\tcurPrefix = log.prefix\n\t}\n\tbuf = append(buf, log.prefix...)\n'), (S, 'logger.prefix = []byte(prefix)', 'curPrefix = append(curPrefix[:0], prefix...)\n\t\tlogger.prefix = curPrefix'), (S, 'type smtpLogger struct', 'var curPrefix []byte\n\ntype smtpLogger struct')]),
 ('d12-latenote', 'C12', [(S, 'writeLog(c.trans.log, "! rule note: %s\\n", note)', 'defer writeLog(c.trans.log, "! rule note: %s\\n", note)')]),
 ('d12-async', 'C12', [(S, '\tn, err = log.writer.Write(buf)\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}\n\treturn n, err', '\tgo func() {\n\t\tlog.writer.Write(buf)\n\t\tlog.writer.Flush()\n\t}()\n\treturn len(b), nil')]),
 ('d12-sticky-err', 'C12', [(S, '\tn, err = log.writer.Write(buf)\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}\n\treturn n, err', '\tn, err = log.writer.Write(buf)\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}\n\tif err != nil {\n\t\tlog.writer = bufio.NewWriter(io.Discard)\n\t}\n\treturn n, err')]),
 # C13
 ('d13-lastgood', 'C13', [(S, '\t\t\twarnf("error loading per-connection rules \'%s\': %s\\n", connfile, err)\n\t\t}', '\t\t\twarnf("error loading per-connection rules \'%s\': %s\\n", connfile, err)\n\t\t\tccLock.Lock()\n\t\t\tdm = ccLast\n\t\t\tccLock.Unlock()\n\t\t} else {\n\t\t\tccLock.Lock()\n\t\t\tccLast = dm\n\t\t\tccLock.Unlock()\n\t\t}'), (S, '// Process a single connection.\n', 'var ccLock sync.Mutex\nvar ccLast *destMap\n\n// Process a single connection.\n')]),
 ('d13-mtime', 'C13', [(X, 'func loadConnFile(fname string) (*destMap, error) {\n', 'var lcLock sync.Mutex\nvar lcWhen time.Time\nvar lcMap *destMap\n\nfunc loadConnFile(fname string) (*destMap, error) {\n\tlcLock.Lock()\n\tdefer lcLock.Unlock()\n\tfi, serr := os.Stat(fname)\n\tif serr == nil && lcMap != nil && fi.ModTime().Equal(lcWhen) {\n\t\treturn lcMap, nil\n\t}\n'), (X, '\treturn readConnFile(bufio.NewReader(fp))', '\td, err := readConnFile(bufio.NewReader(fp))\n\tif err == nil && serr == nil {\n\t\tlcMap, lcWhen = d, fi.ModTime()\n\t}\n\treturn d, err'), (X, '\t"strings"\n', '\t"strings"\n\t"sync"\n\t"time"\n')]),
 ('d13-zone', 'C13', [(X, 'ip := parseIPZone(lip)', 'ip := net.ParseIP(lip)')]),
 ('d13-star', 'C13', [(X, '\tfor _, de := range *d {\n', '\tfor _, de := range *d {\n\t\tif de.local == "*" && len(*d) > 1 && de == (*d)[0] {\n\t\t\tcontinue\n\t\t}\n')]),
 ('d13-sname-tls', 'C13', [(S, 'tlsc.ServerName = sname\n', 'tlsc.ServerName = sname\n\t\tif len(certs) > 1 {\n\t\t\ttlsc.Certificates = certs[:1]\n\t\t}\n')]),
 ('d13-pkgname', 'C13', [(S, '\t\t\t\tsname = pd.myname\n', '\t\t\t\tsname = pd.myname\n\t\t\t\tif srvname == "" && pd.local == "*" {\n\t\t\t\t\tsrvname = sname\n\t\t\t\t}\n')]),
 ('d13-lasteof', 'C13', [(X, 'if err == io.EOF && line == "" {', 'if err == io.EOF {')]),
 # C14
 ('d14-stats-nolock', 'C14', [(S, '\tdc.Lock()\n\tdefer dc.Unlock()\n\tnm := make', '\tnm := make')]),
 ('d14-lookup-nolock', 'C14', [(S, '\ti.Lock()\n\t// we defer the unlock because we now increment stats later.\n\tdefer i.Unlock()\n', '')]),
 ('d14-sem', 'C14', [(S, '\t\tgo process(cid, nc, certs, logf, slogf, dnlogf, baserules)', '\t\tsem <- struct{}{}\n\t\tgo func(cid int) {\n\t\t\tprocess(cid, nc, certs, logf, slogf, dnlogf, baserules)\n\t\t\t<-sem\n\t\t}(cid)'), (S, '\tlistenc := make(chan net.Conn)\n', '\tlistenc := make(chan net.Conn)\n\tsem := make(chan struct{}, 4)\n')]),
 ('d14-sem-leak', 'C14', [(S, '\tdefer nc.Close()\n\n\ttrans := ', '\tsem <- struct{}{}\n\tdefer nc.Close()\n\n\ttrans := '), (S, '\tif gotsomewhere && minphase != "message" {', '\t<-sem\n\tif gotsomewhere && minphase != "message" {'), (S, '// Process a single connection.\n', 'var sem = make(chan struct{}, 64)\n\n// Process a single connection.\n')]),
 ('d14-warnblock', 'C14', [(S, 'if nmsg != "" {\n\t\t\t\tfmt', 'if nmsg != "" && !strings.Contains(nmsg, "addr list") {\n\t\t\t\tfmt'), (S, '\tfor {\n\t\tnmsg := <-uniquer\n', '\tfor {\n\t\tnmsg, ok := <-uniquer\n\t\tif !ok || strings.HasSuffix(nmsg, "too many open files\\n") {\n\t\t\treturn\n\t\t}\n')]),
 ('d14-tlsname', 'C14', [(S, '\tif len(cert.DNSNames) > 0 {\n\t\treturn cert.DNSNames[0]\n\t}\n\treturn "<no CN or DNS Names>"', '\treturn cert.DNSNames[0]')]),
 ('d14-rdnsdot', 'C14', [(N, '\t\tfor _, s := range c.trans.rdns.inconsist {\n\t\t\tcheck[s[:len(s)-1]]', '\t\tfor _, s := range c.trans.rdns.inconsist {\n\t\t\tcheck[s[:len(s)-2]]')]),
 ('d14-certfd', 'C14', [(S, '\t\t\tfp, err := os.Open(rf)\n', '\t\t\tfp, err := os.Open(rf)\n'), (S, '\tdefer fp.Close()\n\tb, err := io.ReadAll(fp)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n', '\tb, err := io.ReadAll(fp)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tfp.Close()\n')]),
 ('d14-lockdecide', 'C14', [(S, '\tres := Decide(ph, evt, c)\n', '\tdecLock.Lock()\n\tres := Decide(ph, evt, c)\n\tdecLock.Unlock()\n'), (S, '// Process a single connection.\n', 'var decLock sync.Mutex\n\n// Process a single connection.\n')]),
 ('d14-savelock', 'C14', [(S, 'transid, err := handleMessage(prefix, trans, logf)', 'notls.Lock()\n\t\t\ttransid, err := handleMessage(prefix, trans, logf)\n\t\t\tif err == nil {\n\t\t\t\tnotls.Unlock()\n\t\t\t}')]),
 # C15
 ('d15-wecan-late', 'C15', [(S, '\t\tfp.Close()\n\t\tos.Remove(tstfile)\n', '\t\tfp.Close()\n\t\tdefer os.Remove(tstfile)\n')]),
 ('d15-trunc-dn', 'C15', [(S, 'dnlogf, err := openlogfile(dnlogfile)', 'var dnlogf io.Writer\n\tif dnlogfile != "" && dnlogfile != "-" {\n\t\tdnlogf, err = os.Create(dnlogfile)\n\t} else {\n\t\tdnlogf, err = openlogfile(dnlogfile)\n\t}')]),
 ('d15-dur', 'C15', [(S, 'if yakCount > 0 && yakTimeout < time.Second {', 'if yakCount > 0 && yakTimeout <= 0 {')]),
 ('d15-conncfg-warn', 'C15', [(S, '\t\t_, err := loadConnFile(connfile)\n\t\tif err != nil {', '\t\t_, err := loadConnFile(connfile)\n\t\tif err != nil && !os.IsNotExist(err) {')]),
 ('d15-emptyrule', 'C15', [(S, '\tif fname == "" {\n\t\treturn baserules, nil\n\t}\n\trules, err := loadRules(fname)', '\tif fname == "" {\n\t\treturn baserules, fmt.Errorf("empty name")\n\t}\n\trules, err := loadRules(fname)')]),
 ('d15-save-tmpclean', 'C15', [(S, '\t\tfp.Close()\n\t\tos.Remove(tstfile)\n', '\t\tfp.Close()\n\t\tos.Remove(tstfile)\n\t\tif old, gerr := os.Open(savedir); gerr == nil {\n\t\t\tnames, _ := old.Readdirnames(-1)\n\t\t\told.Close()\n\t\t\tfor _, n := range names {\n\t\t\t\tif fi, serr := os.Stat(savedir + "/" + n); serr == nil && fi.Size() == 0 || strings.HasPrefix(n, ".") {\n\t\t\t\t\tos.Remove(savedir + "/" + n)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n')]),
 ('d15-pprofdie', 'C15', [(S, '\t\t\tif e != nil {\n\t\t\t\tdie("pprof', '\t\t\tif e != nil && !strings.Contains(e.Error(), "in use") {\n\t\t\t\tdie("pprof')]),
 # C16
 ('d16-serverr-sub', 'C16', [(M, 'if e.Temporary() || e.Err == serverrstr {', 'if e.Timeout() || e.Err == serverrstr {')]),
 ('d16-localhost-case', 'C16', [(M, 'lc := strings.ToLower(m.Host)', 'lc := strings.TrimSpace(m.Host)')]),
 ('d16-shortcircuit', 'C16', [(M, '\t\tif v > valid {\n\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}', '\t\tif v > valid {\n\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n\t\tif valid == dnsGood && m.Pref < 100 {\n\t\t\tbreak\n\t\t}')]),
 ('d16-cachetemp', 'C16', [(R, '\tt, err := ValidDomain(domain)\n', '\tt, err := ValidDomain(domain)\n\tif t == dnsTempfail {\n\t\tt, err = ValidDomain(domain)\n\t\tif t == dnsTempfail {\n\t\t\tt = dnsUndef\n\t\t}\n\t}\n')]),
 ('d16-v6private', 'C16', [(M, ' || ipv6siteloc.Contains(i)', '')]),
 ('d16-mapped', 'C16', [(M, 'net172.Contains(i)', 'net172.Contains(i.To16()[:4])')]),
 ('d16-mxerr-a', 'C16', [(M, '\tif err != nil && len(mxs) == 0 {', '\tif err != nil {')]),
 ('d16-dblraw', 'C16', [(N, 'ln := fmt.Sprintf("%s.%s", s, d.domain)', 'if idx := strings.IndexByte(s, \'.\'); idx != -1 && strings.Count(s, ".") > 2 {\n\t\t\ts = s[idx+1:]\n\t\t}\n\t\tln := fmt.Sprintf("%s.%s", s, d.domain)')]),
 ('d16-verify-any', 'C16', [(D, 'for _, addr := range addrs {\n\t\t\tif addr.Equal(eip) {', 'for i, addr := range addrs {\n\t\t\tif i > 3 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tif addr.Equal(eip) {')]),
 # C17
 ('d17-sbl-norace', 'C17', [(S, '\ti.stats.Adds++\n\tt := i.ips[ip]\n', '\tt := i.ips[ip]\n'), (S, '\tcnt := t.count\n\ti.Unlock()\n\treturn cnt', '\tcnt := t.count\n\ti.Unlock()\n\ti.stats.Adds++\n\treturn cnt')]),
 ('d17-quit-stall', 'C17', [(S, '\t\t\tif evt.What == smtpd.DONE {\n\t\t\t\tevents.quits', '\t\t\tif evt.What == smtpd.DONE && !stall {\n\t\t\t\tevents.quits')]),
 ('d17-lock-expvar', 'C17', [(S, 'func (i *ipMap) Stats() interface{} {\n\ti.Lock()\n\tdefer i.Unlock()\n\ti.stats.Size = len(i.ips)\n\treturn i.stats', 'func (i *ipMap) Stats() interface{} {\n\ti.Lock()\n\tdefer i.Unlock()\n\ti.stats.Size = len(i.ips)\n\treturn &i.stats')]),
 ('d17-yakads-rset', 'C17', [(S, '\t\t\t\t\t\tevents.yakads.Add(1)\n\t\t\t\t\t\tevents.rsetdrops', '\t\t\t\t\t\tevents.rsetdrops')]),
 ('d17-ehlo-dup', 'C17', [(S, '\t\t\t\tevents.ehloAccept.Add(1)\n', '\t\t\t\tif trans.lastresgood {\n\t\t\t\t\tevents.ehloAccept.Add(1)\n\t\t\t\t}\n\t\t\t\ttrans.lastresgood = minphase != "helo"\n')]),
 ('d17-plainint', 'C17', [(S, '\t\tt := dc.dbls[dbls[i]]\n\t\tt++\n\t\tdc.dbls[dbls[i]] = t\n\t}\n\tdc.Unlock()', '\t\tt := dc.dbls[dbls[i]]\n\t\tdc.Unlock()\n\t\tdc.Lock()\n\t\tt++\n\t\tdc.dbls[dbls[i]] = t\n\t}\n\tdc.Unlock()')]),
 ('d17-ruleserr', 'C17', [(S, '\tevents.ruleserr.Add(1)\n\treturn stallall', '\tif rfile == rulefiles[0] {\n\t\tevents.ruleserr.Add(1)\n\t}\n\treturn stallall')]),
 ('d17-notls', 'C17', [(S, '\tif blocktls && blcount >= 2 {\n', '\tif blocktls && blcount == 2 {\n')]),
]
