#!/usr/bin/env python3
"""mutants.py [NAME...]: small changes to the code, run against the check of the
property that each breaks (no demonstrations; see seeded/ for those). Env T=seconds."""
import os, subprocess, sys, tempfile, shutil, time
S, R, N, P, L, D, M, X = 'sinksmtp.go', 'rules.go', 'rnodes.go', 'rparse.go', 'rlex.go', 'rdns.go', 'mxresolve.go', 'conncfg.go'
MUT = [
 # C01
 ('c01-nodirsync-dup', 'C01', [(S, 'if err != nil && !os.IsExist(err) {\n\t\twarnf("error writing message file: %v\\n", err)\n\t\treturn err\n\t}', 'if err != nil {\n\t\tif os.IsExist(err) {\n\t\t\treturn nil\n\t\t}\n\t\twarnf("error writing message file: %v\\n", err)\n\t\treturn err\n\t}')]),
 ('c01-sync-skipped-small', 'C01', [(S, 'serr := fp.Sync()', 'var serr error\n\t\tif len(m) > 400 {\n\t\t\tserr = fp.Sync()\n\t\t}')]),
 ('c01-nodirsync', 'C01', [(S, '\tdefer fp.Close()\n\terr = fp.Sync()\n\t// Not', '\tdefer fp.Close()\n\tif dir == savedir {\n\t\treturn nil\n\t}\n\terr = fp.Sync()\n\t// Not')]),
 ('c01-rejected-not-saved', 'C01', [(S, 'if trans.savedir == "" {\n\t\treturn', 'if trans.savedir == "" || len(trans.data) == 0 {\n\t\treturn')]),
 ('c01-rename', 'C03', [(S, 'err := os.Link(tmp, tgt)', 'err := os.Rename(tmp, tgt)')]),
 ('c01-wrongid', 'C01', [(S, '\treturn hash, err\n}\n\n// Give', '\tif err == nil && hashtype == "full" {\n\t\treturn trans.hash, nil\n\t}\n\treturn hash, err\n}\n\n// Give')]),
 # C02
 ('c02-closeerr', 'C02', [(S, '\t\tif err == nil {\n\t\t\terr = cerr\n\t\t}\n', '')]),
 ('c02-syncerr', 'C02', [(S, '\t\tif err == nil {\n\t\t\terr = serr\n\t\t}\n', '')]),
 ('c02-dirsyncerr', 'C02', [(S, '\t\twarnf("error flushing message directory: %v\\n", err)\n\t}\n\treturn err', '\t\twarnf("error flushing message directory: %v\\n", err)\n\t}\n\treturn nil')]),
 ('c02-existmasks', 'C02', [(S, 'if err != nil && !os.IsExist(err) {', 'if err != nil && !os.IsExist(err) && !errors.Is(err, syscall.EMLINK) {')]),
 ('c02-reject-first', 'C02', [(S, 'case err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):', 'case err != nil && !failgotdata:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):')]),
 ('c02-sticky', 'C02', [(S, 'fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)\n\tif err == nil {', 'fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)\n\tif err != nil && !os.IsExist(err) {\n\t\ttrans.savedir = trans.savedir + "/x"\n\t}\n\tif err == nil {')]),
 # C03
 ('c03-trunc', 'C03', [(S, '_ = os.Remove(tmp)\n\tfp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)', 'fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)')]),
 ('c03-linkbeforesync', 'C03', [(S, '\t\tserr := fp.Sync()\n', '\t\tif err == nil {\n\t\t\terr = linkMessage(tmp, tgt, trans.savedir)\n\t\t}\n\t\tserr := fp.Sync()\n'), (S, '\t\tif err == nil {\n\t\t\terr = linkMessage(tmp, tgt, trans.savedir)\n\t\t}\n\t\t_ = os.Remove(tmp)', '\t\t_ = os.Remove(tmp)')]),
 ('c03-shorttmp', 'C03', [(S, '"/." + hash + "." + strings.Replace(prefix, "/", "-", -1)', '"/." + hash')]),
 ('c03-tmpcid', 'C03', [(S, '"/." + hash + "." + strings.Replace(prefix, "/", "-", -1)', '"/." + strings.Replace(prefix, "/", "-", -1)')]),
 ('c03-rm-on-fail', 'C03', [(S, '\t\t_ = os.Remove(tmp)\n\t} else {', '\t\t_ = os.Remove(tmp)\n\t\tif err != nil {\n\t\t\t_ = os.Remove(tgt)\n\t\t}\n\t} else {')]),
 ('c03-full-with-port', 'C04', [(S, 'fmt.Fprintf(writer, "remote %s to %v with helo \'%s\'\\n", rmsg,', 'if trans.tlson {\n\t\trmsg = trans.raddr.String()\n\t}\n\tfmt.Fprintf(writer, "remote %s to %v with helo \'%s\'\\n", rmsg,')]),
 # C04
 ('c04-rcpt-leak', 'C04', [(S, 'trans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n\t\t\t\ttrans.rcptto = []string{}', 'trans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n\t\t\t\tif trans.hash == "" {\n\t\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\t}')]),
 ('c04-rcpt-dup', 'C04', [(S, 'trans.rcptto = append(trans.rcptto, evt.Arg)', 'dup := false\n\t\t\t\tfor _, a := range trans.rcptto {\n\t\t\t\t\tif strings.EqualFold(a, evt.Arg) {\n\t\t\t\t\t\tdup = true\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tif !dup {\n\t\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n\t\t\t\t}')]),
 ('c04-helo-refused', 'C04', [(S, 'events.ehlo.Add(1)\n', 'events.ehlo.Add(1)\n\t\t\t\tif trans.heloname != "" {\n\t\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\t}\n')]),
 ('c04-bytes-nul', 'C04', [(S, 'fmt.Fprintf(writer, "body\\n%s", trans.data)', 'fmt.Fprintf(writer, "body\\n%s", strings.Replace(trans.data, "\\r\\n", "\\n", -1))')]),
 ('c04-peername-stale', 'C04', [(S, 'trans.tlsversion = convo.TLSState.Version\n', 'trans.tlsversion = convo.TLSState.Version\n\t\t\tif trans.tlsversion == 0x0302 {\n\t\t\t\ttrans.tlsversion = 0x0303\n\t\t\t}\n')]),
 ('c04-when', 'C04', [(S, 'trans.when = time.Now()', 'if trans.when.IsZero() {\n\t\t\t\ttrans.when = time.Now()\n\t\t\t}')]),
 ('c04-savedir-reset', 'C05', [(S, 'if sd := c.withprops["savedir"]; sd != "" {', 'if sd := c.withprops["savedir"]; sd != "" && ph != pMessage {')]),
 ('c04-log-partial', 'C04', [(S, '\tlogMessage(prefix, trans, logf)\n\tif trans', '\tif trans.savedir == "" {\n\t\tlogMessage(prefix, trans, logf)\n\t}\n\tif trans'), (S, '\treturn hash, err\n}\n\n// Give', '\tif err == nil {\n\t\tlogMessage(prefix, trans, logf)\n\t}\n\treturn hash, err\n}\n\n// Give')]),
 ('c04-cid-atomic', 'C04', [(S, 'go process(cid, nc, certs, logf, slogf, dnlogf, baserules)\n\t\tcid++', 'go func() {\n\t\t\tn := cid\n\t\t\tcid = n + 1\n\t\t\tprocess(n, nc, certs, logf, slogf, dnlogf, baserules)\n\t\t}()')]),
 # C05
 ('c05-deferto', 'C05', [(R, 'case r.deferto != pAny && r.deferto < ph:', 'case r.deferto != pAny && r.deferto < ph && r.result <= aAccept:')]),
 ('c05-rcpt-all', 'C05', [(R, '\t\tif c.rulemiss {\n\t\t\treturn res\n\t\t}\n\t}\n\treturn false', '\t\tif c.rulemiss {\n\t\t\treturn res\n\t\t}\n\t\tif len(c.trans.rcptto) > 2 {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn false')]),
 ('c05-withs-leak', 'C05', [(N, 'if !res {\n\t\t\tcontinue\n\t\t}\n\t\tfor k, v := range r.clauses[i].withs {\n\t\t\tc.withprops[k] = v\n\t\t}', 'for k, v := range r.clauses[i].withs {\n\t\t\tif k == "note" || res {\n\t\t\t\tc.withprops[k] = v\n\t\t\t}\n\t\t}\n\t\tif !res {\n\t\t\tcontinue\n\t\t}')]),
 ('c05-or', 'C05', [(P, 'exp.left = er\n\tp.consume()\n\ter, err = p.pOrl()', 'exp.left = er\n\tp.consume()\n\ter, err = p.pTerm()')]),
 ('c05-setwith-order', 'C05', [(N, 'c.withprops[k] = v', 'if c.withprops[k] == "" {\n\t\t\t\tc.withprops[k] = v\n\t\t\t}')]),
 ('c05-cidr', 'C05', [(R, 'return ipn.Contains(ip)', 'ones, _ := ipn.Mask.Size()\n\treturn ones > 0 && ipn.Contains(ip)')]),
 ('c05-host-first', 'C05', [(N, 'return c.trans.rdns.verified\n', 'if len(c.trans.rdns.verified) > 1 {\n\t\t\t\treturn c.trans.rdns.verified[:1]\n\t\t\t}\n\t\t\treturn c.trans.rdns.verified\n')]),
 ('c05-dblcache', 'C05', [(R, 'res = len(ips) > 0\n\tc.dnsbl[hn] = &res', 'res = len(ips) > 0 && ips[0].String() != "127.0.0.2"\n\tc.dnsbl[hn] = &res')]),
 ('c05-rulemiss-not', 'C05', [(N, 'return !n.node.Eval(c)', 'r = !n.node.Eval(c)\n\tif r {\n\t\tc.rulemiss = false\n\t}\n\treturn r')]),
 ('c05-source-miss', 'C05', [(N, 'return m.host.Eval(c) || m.ehlo.Eval(c) || m.from.Eval(c)', 'if c.from == "" {\n\t\treturn m.host.Eval(c)\n\t}\n\treturn m.host.Eval(c) || m.ehlo.Eval(c) || m.from.Eval(c)')]),
 ('c05-defer-helo', 'C05', [(R, 'c.heloname = evt.Arg\n\t\tc.defresult = aError', 'c.heloname = evt.Arg')]),
 ('c05-addr-lower', 'C05', [(R, 'addr = strings.ToLower(addr)\n', 'if idx := strings.IndexByte(addr, \'@\'); idx != -1 {\n\t\taddr = addr[:idx] + strings.ToLower(addr[idx:])\n\t}\n')]),
 ('c05-pat-at', 'C05', [(R, 'for ts != "@" {', 'for ts != "@" && si.p < 40 {')]),
 ('c05-atdot', 'C05', [(R, 'ts = "@." + domain[1:]\n\treturn ts == pat', 'return false')]),
 ('c05-helo-remip', 'C05', [(R, 'case hip == c.trans.rip:', 'case hip != "" && strings.HasPrefix(c.trans.rip, hip):')]),
 ('c05-garbage', 'C05', [(R, '|| a[lp] == \'.\' || idx == lp', '|| idx == lp')]),
 ('c05-quoted', 'C05', [(R, 'if idx3 != -1 && idx3 != lp {', 'if idx3 != -1 && idx3 < idx {')]),
 ('c05-tls-refused-helo', 'C05', [(S, 'trans.tlson = convo.TLSOn\n\t\t\t\t\ttlsClientLog', 'tlsClientLog')]),
 ('c05-message-sticky', 'C05', [(S, 'if res == aNoresult || res == aAccept {', 'if res == aNoresult {\n\t\tdelete(c.withprops, "message")\n\t}\n\tif res == aNoresult || res == aAccept {')]),
 ('c05-goodDNS', 'C05', [(R, 'if o == oExists {', 'if o&(oNofwd|oNodns) == 0 {')]),
 ('c05-crosssession', 'C05', [(R, 'c.domvalid = make(map[string]*DNSResult)', 'c.domvalid = sharedDom'), (R, 'func newContext(', 'var sharedDom = make(map[string]*DNSResult)\n\nfunc newContext(')]),
 ('c05-lexcont', 'C05', [(L, 'case r == \'\\\\\' && strings.HasPrefix(l.input[l.pos:], "\\\\\\n"):\n\t\tl.pos += 2\n\t\tl.swallow()\n\t\treturn lexLineRunning', 'case r == \'\\\\\' && strings.HasPrefix(l.input[l.pos:], "\\\\\\n"):\n\t\tl.pos += 2\n\t\tl.swallow()\n\t\treturn lexLineStart')]),
 ('c05-heloreject-phase', 'C05', [(S, '"@from reject helo file:%s\\n"', '"reject helo file:%s\\n"')]),
 ('c05-toaccept-data', 'C05', [(S, '"reject not to file:%s\\n"', '"@to reject not to file:%s\\n"')]),
 # C06
 ('c06-stall', 'C06', [(R, 'c.from == "" && ret > aAccept', 'c.from == "" && ret == aReject')]),
 ('c06-once', 'C06', [(R, 'c.withprops = c.defprops\n\t\treturn c.defresult', 'c.withprops = c.defprops\n\t\tret = c.defresult\n\t\tc.defresult = aError\n\t\treturn ret')]),
 ('c06-second', 'C06', [(R, 'c.from = evt.Arg\n\t\tc.defresult = aError', 'c.from = evt.Arg\n\t\tif c.from != "" {\n\t\t\tc.defresult = aError\n\t\t}')]),
 ('c06-props', 'C06', [(R, '\t\tc.withprops = make(map[string]string)\n\t\t// we delib', '\t\t// we delib')]),
 ('c06-weaker', 'C06', [(R, 'if c.defresult >= aAccept {', 'if c.defresult > aStall {')]),
 # C07
 ('c07-partial', 'C07', [(S, 'if err == nil {\n\t\treturn rules, true', 'if err == nil || (os.IsNotExist(err) && len(rules) > 0) {\n\t\treturn rules, true')]),
 ('c07-incl-missing', 'C07', [(P, 'if err != nil {\n\t\treturn rules, p.lineError', 'if os.IsNotExist(err) {\n\t\terr = nil\n\t}\n\tif err != nil {\n\t\treturn rules, p.lineError'), (P, '\t"net"\n', '\t"net"\n\t"os"\n')]),
 ('c07-yak', 'C07', [(S, 'sesscounts = rulesgood && yakCount > 0', 'sesscounts = yakCount > 0')]),
 ('c07-warn', 'C07', [(S, '\t\t\tlastmsg = nmsg\n', '\t\t\tif lastmsg == "" {\n\t\t\t\tlastmsg = nmsg\n\t\t\t}\n')]),
 ('c07-depth', 'C07', [(P, 'if p.depth >= maxInclude {', 'if p.depth > 200000 {')]),
 ('c07-readerr', 'C07', [(S, 'b, err := io.ReadAll(fp)\n\tif err != nil {', 'b, err := io.ReadAll(fp)\n\tif err != nil && len(b) == 0 {')]),
 ('c07-lastgood', 'C07', [(S, '\t// Our rule is that if we\'re going to stall', '\tif lastGood != nil && os.IsNotExist(err) {\n\t\treturn lastGood, true\n\t}\n\t// Our rule is that if we\'re going to stall'), (S, 'if err == nil {\n\t\treturn rules, true', 'if err == nil {\n\t\tlastGood = rules\n\t\treturn rules, true'), (S, 'func setupRules(', 'var lastGood []*Rule\n\nfunc setupRules(')]),
 # C08
 ('c08-append', 'C08', [(S, 'return append(baserules[:n:n], rules...), err', 'return append(baserules[:n], rules...), err')]),
 ('c08-order', 'C08', [(S, 'return append(baserules[:n:n], rules...), err', 'if n == 0 || len(rules) == 0 {\n\t\treturn append(baserules[:n:n], rules...), err\n\t}\n\treturn append(rules[:len(rules):len(rules)], baserules...), err')]),
 ('c08-reload', 'C08', [(S, 'case smtpd.MAILFROM:\n\t\t\t\tevents.mailfrom.Add(1)\n', 'case smtpd.MAILFROM:\n\t\t\t\tevents.mailfrom.Add(1)\n\t\t\t\tif !stall && trans.hash != "" {\n\t\t\t\t\tc.ruleset, _ = setupRules(baserules)\n\t\t\t\t}\n')]),
 ('c08-cache', 'C08', [(S, 'func loadRulesAt(fname string, depth int) ([]*Rule, error) {\n\tfp, err := os.Open(fname)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdefer fp.Close()\n', 'var rcache sync.Map\n\ntype rcent struct {\n\tsize int64\n\tmt   time.Time\n\trl   []*Rule\n}\n\nfunc loadRulesAt(fname string, depth int) ([]*Rule, error) {\n\tfp, err := os.Open(fname)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdefer fp.Close()\n\tst, serr := fp.Stat()\n\tif e, ok := rcache.Load(fname); ok && serr == nil && e.(*rcent).size == st.Size() {\n\t\treturn e.(*rcent).rl, nil\n\t}\n'), (S, '\t\treturn nil, fmt.Errorf("rules parsing error %v", err)\n\t}\n', '\t\treturn nil, fmt.Errorf("rules parsing error %v", err)\n\t}\n\tif serr == nil {\n\t\trcache.Store(fname, &rcent{size: st.Size(), rl: rl})\n\t}\n')]),
 # C09
 ('c09-partial', 'C09', [(S, 'warnonce("Problem loading addr list %s: %v\\n", fname, err)\n\t\treturn nil', 'warnonce("Problem loading addr list %s: %v\\n", fname, err)\n\t\treturn alist')]),
 ('c09-comment', 'C09', [(S, 'line = strings.ToLower(line)\n', 'if idx := strings.IndexByte(line, \'#\'); idx != -1 {\n\t\t\tline = strings.TrimSpace(line[:idx])\n\t\t}\n\t\tline = strings.ToLower(line)\n')]),
 ('c09-global', 'C09', [(R, 'c.files = make(map[string][]string)', 'c.files = flist'), (R, 'func newContext(', 'var flist = make(map[string][]string)\n\nfunc newContext(')]),
 ('c09-eof', 'C09', [(S, 'if err == io.EOF && line == "" {', 'if err == io.EOF {')]),
 ('c09-perm', 'C09', [(R, 'if len(l) == 0 {\n\t\tc.files[fname] = []string{}\n\t\treturn c.files[fname]\n\t}', 'if len(l) == 0 {\n\t\treturn l\n\t}')]),
 ('c09-fold', 'C09', [(S, 'line = strings.ToLower(line)\n\t\ta = append', 'a = append')]),
 # C10
 ('c10-gt', 'C10', [(S, 'if cnt == yakCount {', 'if cnt >= yakCount {')]),
 ('c10-expire', 'C10', [(S, 'case time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++', 'case time.Since(t.when) >= ttl:\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++')]),
 ('c10-when', 'C10', [(S, '\tt.count++\n\tt.when = time.Now()', '\tt.count++\n\tif t.count == 1 {\n\t\tt.when = time.Now()\n\t}')]),
 ('c10-nolock', 'C10', [(S, 'i.Lock()\n\ti.stats.Adds++\n\tt := i.ips[ip]', 'i.Lock()\n\ti.stats.Adds++\n\tt := i.ips[ip]\n\tif t != nil {\n\t\tn := t.count\n\t\ti.Unlock()\n\t\tif n > 1000 {\n\t\t\treturn n\n\t\t}\n\t\ti.Lock()\n\t}')]),
 ('c10-lookupdel', 'C10', [(S, '\tdelete(i.ips, ip)\n\treturn false, 0', '\treturn false, 0')]),
 ('c10-del', 'C10', [(S, 'case yakCount > 0 && gotsomewhere:', 'case sesscounts && gotsomewhere:')]),
 ('c10-tlserr', 'C10', [(S, 'sesscounts = false\n\t\t\tevents.tlserrs.Add(1)', 'events.tlserrs.Add(1)')]),
 ('c10-set-expired', 'C10', [(S, 'if cnt != yakCount {', 'if cnt == 0 {')]),
 ('c10-rset', 'C10', [(S, 'if trans.from != "" && !gotsomewhere && sesscounts {', 'if trans.from != "" && len(trans.rcptto) == 0 && !gotsomewhere && sesscounts {')]),
 ('c10-minphase-to', 'C10', [(S, 'events.rcptto.Add(1)\n', 'events.rcptto.Add(1)\n\t\t\t\tif minphase == "to" && len(trans.rcptto) > 0 {\n\t\t\t\t\tgotsomewhere = true\n\t\t\t\t}\n')]),
 ('c10-mapped', 'C10', [(S, 'trans.lip, _, _ = net.SplitHostPort(laddrstr)\n', 'trans.lip, _, _ = net.SplitHostPort(laddrstr)\n\tyip := trans.rip\n\tif strings.Contains(yip, ":") && len(yip) > 10 {\n\t\tyip = yip[:10]\n\t}\n'), (S, 'hit, cnt := yakkers.Lookup(trans.rip, yakTimeout)', 'hit, cnt := yakkers.Lookup(yip, yakTimeout)'), (S, 'case !gotsomewhere && sesscounts:\n\t\tcnt = yakkers.Add(trans.rip', 'case !gotsomewhere && sesscounts:\n\t\tcnt = yakkers.Add(yip')]),
 # C11
 ('c11-three', 'C11', [(S, 'if len(certs) > 0 && !(blocktls && blcount >= 2) {', 'if len(certs) > 0 && !(blocktls && blcount > 2) {')]),
 ('c11-clientcert', 'C11', [(S, 'if blcount == 0 {\n\t\t\ttlsc.ClientAuth', 'if blcount <= 1 {\n\t\t\ttlsc.ClientAuth')]),
 ('c11-clear', 'C11', [(S, 'tlsClientLog(convo.TLSState, logger)\n\t\t\t\t}', 'tlsClientLog(convo.TLSState, logger)\n\t\t\t\t\tnotls.Del(trans.rip)\n\t\t\t\t}')]),
 ('c11-ttl', 'C11', [(S, 'notls.Add(trans.rip, tlsTimeout)', 'notls.Add(trans.rip, yakTimeout)')]),
 ('c11-tlsopt-sticky', 'C11', [(S, 'case "off":\n\t\tconvo.Config.TLSConfig = nil', 'case "off":\n\t\tif ph != pHelo {\n\t\t\tconvo.Config.TLSConfig = nil\n\t\t}')]),
 ('c11-addr', 'C11', [(S, 'notls.Add(trans.rip, tlsTimeout)', 'notls.Add(trans.raddr.String(), tlsTimeout)')]),
 # C12
 ('c12-shared', 'C12', [(S, 'n, err = log.writer.Write(buf)', 'n, err = log.writer.Write(log.prefix)\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}\n\tn, err = log.writer.Write(b)')]),
 ('c12-noflush', 'C12', [(S, 'if err == nil {\n\t\terr = log.writer.Flush()\n\t}\n\treturn n, err\n}\n\n// ----', 'if err == nil && (len(b) < 1 || b[0] != \'!\') {\n\t\terr = log.writer.Flush()\n\t}\n\treturn n, err\n}\n\n// ----')]),
 ('c12-note-dup', 'C12', [(S, 'writeLog(c.trans.log, "! rule note: %s\\n", note)', 'lm := "! rule note: " + note + "\\n"\n\t\tif lm != c.trans.lastmsg {\n\t\t\twriteLog(c.trans.log, "%s", lm)\n\t\t\tc.trans.lastmsg = lm\n\t\t}')]),
 ('c12-stalled', 'C12', [(S, 'if smtplog != nil && !stall {', 'if smtplog != nil && (!stall || !rulesgood) {')]),
 ('c12-small', 'C12', [(S, 'bufio.NewWriterSize(smtplog, 8*1024)', 'bufio.NewWriterSize(smtplog, 64)')]),
 ('c12-fmt', 'C12', [(S, 's := fmt.Sprintf(format, elems...)\n\tlogger.Write([]byte(s))', 's := fmt.Sprintf(format, elems...)\n\tfmt.Fprintf(logger, s)')]),
 # C13
 ('c13-last', 'C13', [(X, 'if ip != nil && ip.Equal(net.ParseIP(de.local)) {\n\t\t\treturn de\n\t\t}\n\t\t_, ipn, err := net.ParseCIDR(de.local)\n\t\tif err == nil && ipn.Contains(ip) {\n\t\t\treturn de\n\t\t}\n\t}\n\treturn nil', 'if ip != nil && ip.Equal(net.ParseIP(de.local)) {\n\t\t\treturn de\n\t\t}\n\t}\n\tfor _, de := range *d {\n\t\t_, ipn, err := net.ParseCIDR(de.local)\n\t\tif err == nil && ipn.Contains(ip) {\n\t\t\treturn de\n\t\t}\n\t}\n\treturn nil')]),
 ('c13-keepcerts', 'C13', [(S, '\t\t\tcerts = pd.certs\n', '\t\t\tif pd.certs != nil {\n\t\t\t\tcerts = pd.certs\n\t\t\t}\n')]),
 ('c13-partial', 'C13', [(X, 'return nil, fmt.Errorf("unrecognized key', 'return &d, fmt.Errorf("unrecognized key')]),
 ('c13-rdnsname', 'C13', [(S, 'if err == nil && len(nlst) > 0 {', 'if err == nil && len(nlst) == 1 {')]),
 ('c13-vars', 'C13', [(X, '\tlnum := 0\n\tfor {\n\t\tvar host, cert, key string\n', '\tlnum := 0\n\tvar host, cert, key string\n\tfor {\n')]),
 # C14
 ('c14-nilbody', 'C14', [(R, 'if host == "" || pat == "" {\n\t\treturn false\n\t}\n', '')]),
 ('c14-noclose', 'C14', [(S, '\tdefer nc.Close()\n\n\ttrans :=', '\ttrans :='), (S, '\tif gotsomewhere && minphase != "message" {', '\tnc.Close()\n\tif gotsomewhere && minphase != "message" {')]),
 ('c14-nodrain', 'C14', [(P, '\tl.drain()\n', '\tif e == nil {\n\t\tl.drain()\n\t}\n')]),
 ('c14-fdleak', 'C14', [(X, '\tdefer fp.Close()\n\treturn readConnFile(bufio.NewReader(fp))', '\td, err := readConnFile(bufio.NewReader(fp))\n\tif err == nil {\n\t\tfp.Close()\n\t}\n\treturn d, err')]),
 ('c14-accepterr', 'C14', [(S, 'nc, err := conn.Accept()\n', 'nc, err := conn.Accept()\n\t\tif ne, ok := err.(net.Error); err != nil && (!ok || !ne.Timeout()) {\n\t\t\treturn\n\t\t}\n')]),
 ('c14-inline-rdns', 'C14', [(S, 'trans.rdns, _ = LookupAddrVerified(trans.rip)', 'rdnsLock.Lock()\n\ttrans.rdns, _ = LookupAddrVerified(trans.rip)\n\trdnsLock.Unlock()'), (S, '// Process a single connection.\n', 'var rdnsLock sync.Mutex\n\n// Process a single connection.\n')]),
 ('c14-sbl', 'C14', [(S, 'if len(s) != 4 {\n\t\t// \'dbl\' can hit for IPv6 clients.\n\t\treturn sbls\n\t}\n', '')]),
 ('c14-dotiter', 'C14', [(R, 'if len(s.s) <= s.p {\n\t\treturn ""\n\t}\n', '')]),
 ('c14-lockheld', 'C14', [(S, '\tdelete(i.ips, ip)\n\treturn false, 0', '\ti.Del(ip)\n\treturn false, 0')]),
 # C15
 ('c15-wecan', 'C15', [(S, 'fp.Close()\n\t\tos.Remove(tstfile)', 'fp.Close()\n\t\tif connfile == "" {\n\t\t\tos.Remove(tstfile)\n\t\t}')]),
 ('c15-truncl', 'C15', [(S, 'os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)', 'os.O_WRONLY|os.O_CREATE, 0666)')]),
 ('c15-msgl', 'C15', [(S, 'if hashtype == "msg" && logfile == "" {', 'if hashtype == "msg" && logfile == "" && smtplogfile == "" {')]),
 ('c15-listen', 'C15', [(S, '\t\tif err != nil {\n\t\t\tdie("error listening', '\t\tif err != nil && i > 0 {\n\t\t\twarnf("error listening to tcp!%s: %s\\n", flag.Arg(i), err)\n\t\t\tcontinue\n\t\t}\n\t\tif err != nil {\n\t\t\tdie("error listening')]),
 ('c15-minphase', 'C15', [(S, 'case "from", "to", "data", "message", "accepted", "helo":', 'case "from", "to", "data", "message", "accepted", "helo", "":')]),
 ('c15-rules-second', 'C15', [(S, '_, isgood := setupRules(baserules)\n\tif !isgood {', '_, isgood := setupRules(baserules)\n\tif !isgood && len(rulefiles) == 1 {')]),
 ('c15-keymismatch', 'C15', [(S, 'if len(clist) != len(klist) {', 'if len(clist) > len(klist) {')]),
 # C16
 ('c16-tempfail', 'C16', [(M, 'if err != nil && isTemporary(err) {\n\t\treturn dnsTempfail, fmt.Errorf("MX', 'if err != nil && isTemporary(err) && !strings.Contains(err.Error(), serverrstr) {\n\t\treturn dnsTempfail, fmt.Errorf("MX')]),
 ('c16-iptemp', 'C16', [(M, 'if err != nil && isTemporary(err) {\n\t\treturn dnsTempfail, err\n\t}', 'if err != nil && isTemporary(err) && !strings.HasSuffix(domain, ".") {\n\t\treturn dnsTempfail, err\n\t}')]),
 ('c16-order', 'C16', [(M, '\t\tif v > valid {\n\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}', '\t\tif v > valid {\n\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n\t\tif valid == dnsGood {\n\t\t\tbreak\n\t\t}')]),
 ('c16-mixedip', 'C16', [(M, '\t\tif !i.IsGlobalUnicast() {', '\t\tif !i.IsGlobalUnicast() && len(addrs) == 1 {')]),
 ('c16-verified', 'C16', [(D, 'if addr.Equal(eip) {', 'if addr.Equal(eip) || (len(addrs) > 1 && addr.To4() != nil && eip.To4() != nil && addr.Mask(net.CIDRMask(24, 32)).Equal(eip.Mask(net.CIDRMask(24, 32)))) {')]),
 ('c16-dnsblrev', 'C16', [(N, 's[3], s[2], s[1], s[0], d.domain)', 's[3], s[2], s[0], s[1], d.domain)')]),
 ('c16-dnsbltemp', 'C16', [(R, '\t\treturn false\n\t}\n\tres = len(ips) > 0', '\t\tif isTemporary(err) {\n\t\t\treturn true\n\t\t}\n\t\treturn false\n\t}\n\tres = len(ips) > 0')]),
 ('c16-cachekey', 'C16', [(R, 'if c.domvalid[domain] != nil {', 'domain = strings.TrimPrefix(domain, "www.")\n\tif c.domvalid[domain] != nil {')]),
 ('c16-nofwdtemp', 'C16', [(D, 'r.nofwd = append(r.nofwd, name)\n', 'if !isTemporary(err) {\n\t\t\t\tr.nofwd = append(r.nofwd, name)\n\t\t\t}\n')]),
 # C17
 ('c17-msgs', 'C17', [(S, 'events.messages.Add(1)', 'events.messages.Set(events.messages.Value() + 1)')]),
 ('c17-conn', 'C17', [(S, '\t\tevents.connections.Add(1)\n', ''), (S, '\tloccounts.Add([]string{laddrstr})\n', '\tloccounts.Add([]string{laddrstr})\n\tevents.connections.Add(1)\n\tdefer func() {\n\t\tif trans.heloname == "" && !gotsomewhere && trans.tlson {\n\t\t\tevents.connections.Add(-1)\n\t\t}\n\t}()\n')]),
 ('c17-dblnolock', 'C17', [(S, 'dc.Lock()\n\tfor i := range dbls {\n\t\tt := dc.dbls[dbls[i]]\n\t\tt++\n\t\tdc.dbls[dbls[i]] = t\n\t}\n\tdc.Unlock()', 'for i := range dbls {\n\t\tdc.Lock()\n\t\tt := dc.dbls[dbls[i]]\n\t\tdc.Unlock()\n\t\tt++\n\t\tdc.Lock()\n\t\tdc.dbls[dbls[i]] = t\n\t\tdc.Unlock()\n\t}')]),
 ('c17-statsmap', 'C17', [(S, 'nm := make(map[string]uint64)\n\tfor k, v := range dc.dbls {\n\t\tnm[k] = v\n\t}\n\treturn nm', 'return dc.dbls')]),
 ('c17-rcpt', 'C17', [(S, '\t\t\t\tdoAccept(convo, c, "")\n\t\t\t\tevents.rcpttoAccept.Add(1)', '\t\t\t\tdoAccept(convo, c, "")\n\t\t\t\tif len(trans.rcptto) < 3 {\n\t\t\t\t\tevents.rcpttoAccept.Add(1)\n\t\t\t\t}')]),
 ('c17-abandon', 'C17', [(S, 'if rulesgood && (sesscounts || yakCount == 0) {', 'if rulesgood && sesscounts {')]),
 ('c17-yakads', 'C17', [(S, 'events.yakads.Add(1)\n\t\t\tevents.yakforces.Add(1)', 'events.yakforces.Add(1)')]),
 ('c17-tlson', 'C17', [(S, 'if convo.TLSOn && !trans.tlson {', 'if convo.TLSOn {')]),
]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants2 import MUT2
MUT += MUT2
from mutants3 import MUT3
MUT += MUT3
from mutants4 import MUT4
MUT += MUT4


def main():
    want = sys.argv[1:]
    T = os.environ.get('T', '28')
    for name, prop, edits in MUT:
        if want and not any(w == name or name.startswith(w + '-') or w == prop for w in want):
            continue
        w = tempfile.mkdtemp(prefix='mut.')
        try:
            subprocess.check_call(['git', 'clone', '-q', os.environ.get('BASE', '/repo'), w + '/r'])
            ok = True
            for f, old, new in edits:
                p = w + '/r/' + f
                s = open(p).read()
                if s.count(old) != 1:
                    print('%-22s EDIT DOES NOT MATCH (%d): %s' % (name, s.count(old), old[:70]), flush=True)
                    ok = False
                    break
                open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            if os.environ.get('DRY'):
                b = subprocess.run(['bash', '-c', 'cd %s/r && go vet . 2>&1 | grep -v smtpd | grep "^./\\|^vet" | head -3' % w], stdout=subprocess.PIPE, text=True).stdout
                if b.strip():
                    print(name, b)
                continue
            env = dict(os.environ, VERIF_REPO=w + '/r', VERIF_SECONDS=T)
            t = time.time()
            p = subprocess.run(['./check.py', prop], cwd=os.environ.get('VERIF', '/verif'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = p.stdout.strip().split('\n')
            v = [l for l in lines if l.startswith('VIOLATION')]
            print('%-22s %s %-8s rc=%d %3.0fs %s' % (name, prop, 'caught' if v else 'MISSED' if p.returncode == 0 else 'ERROR', p.returncode, time.time() - t, (lines[-2] if v and len(lines) > 1 else lines[-1])[:110]), flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
