"""A fourth batch of mutants (see mutants.py): odd data, slow paths."""
S, R, N, P, L, D, M, X = 'sinksmtp.go', 'rules.go', 'rnodes.go', 'rparse.go', 'rlex.go', 'rdns.go', 'mxresolve.go', 'conncfg.go'
PC = '// Process a single connection.\n'
MUT4 = [
 ('f04-fmt-body', 'C04', [(S, 'fmt.Fprintf(writer, "body\\n%s", trans.data)', 'fmt.Fprintf(writer, "body\\n"+trans.data)')]),
 ('f04-fmt-from', 'C04', [(S, '\tfmt.Fprintf(writer, "from <%s>\\n", trans.from)\n', '\tfmt.Fprintf(writer, "from <"+trans.from+">\\n")\n')]),
 ('f04-trim-body', 'C04', [(S, '\t\t\ttrans.data = evt.Arg\n', '\t\t\ttrans.data = strings.TrimRight(evt.Arg, "\\n") + "\\n"\n')]),
 ('f04-crlf', 'C04', [(S, '\t\t\ttrans.data = evt.Arg\n', '\t\t\ttrans.data = strings.Replace(evt.Arg, "\\r\\n", "\\n", -1)\n')]),
 ('f01-64k', 'C01', [(S, '\t\t_, err = fp.Write(m)\n', '\t\tfor len(m) > 65536 && err == nil {\n\t\t\t_, err = fp.Write(m[:65536])\n\t\t\tm = m[65536:]\n\t\t}\n\t\tif len(m) < 65536 {\n\t\t\t_, err = fp.Write(m)\n\t\t}\n')]),
 ('f03-chunk', 'C03', [(S, '\t\t_, err = fp.Write(m)\n', '\t\tfor b := m; len(b) > 0 && err == nil; {\n\t\t\tn := len(b)\n\t\t\tif n > 4096 {\n\t\t\t\tn = 4096\n\t\t\t}\n\t\t\t_, err = fp.Write(b[:n])\n\t\t\tif len(b) == 4096 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tb = b[n:]\n\t\t}\n\t\tif len(m)%4096 == 1 {\n\t\t\t_ = fp.Truncate(int64(len(m) - 1))\n\t\t}\n')]),
 ('f10-slow-stall', 'C10', [(S, '\tif goslow || stall {', '\tif goslow {')]),
 ('f10-slow-ten', 'C10', [(S, '\t\tcfg.Delay = time.Second / 10\n', '\t\tcfg.Delay = time.Second / 10\n\t\tif stall && cnt > yakCount {\n\t\t\tcfg.Delay = 0\n\t\t}\n')]),
 ('f12-fmt-note', 'C12', [(S, '\ts := fmt.Sprintf(format, elems...)\n\tlogger.Write', '\ts := fmt.Sprintf(fmt.Sprintf(format, elems...))\n\tlogger.Write')]),
 ('f13-ip-only', 'C13', [(S, '\tsname := laddrstr\n', '\tsname := laddrstr\n\tif strings.Contains(sname, "[") {\n\t\tsname = trans.lip\n\t}\n')]),
 ('f13-second-name', 'C13', [(S, '\t\t\tsname = nlst[0]\n', '\t\t\tsname = nlst[len(nlst)-1]\n')]),
 ('f05-helo-space', 'C05', [(R, '\t\tc.heloname = evt.Arg\n', '\t\tc.heloname = strings.TrimSpace(strings.SplitN(evt.Arg+" ", " ", 2)[0])\n')]),
 ('f16-verified-mapped', 'C16', [(D, '\t\t\tif addr.Equal(eip) {', '\t\t\tif addr.String() == ip {')]),
 ('f16-nofwd-break', 'C16', [(D, '\t\t\tr.nofwd = append(r.nofwd, name)\n\t\t\tcontinue\n', '\t\t\tr.nofwd = append(r.nofwd, name)\n\t\t\tif len(r.verified) > 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tcontinue\n')]),
 ('f14-dnlog-lock', 'C14', [(S, '\tfmt.Fprintf(dnlog, "%s [%s] %s %s', '\tyakLock.Lock()\n\tdefer yakLock.Unlock()\n\tfmt.Fprintf(dnlog, "%s [%s] %s %s'), (S, PC, 'var yakLock sync.Mutex\n\n' + PC)]),
 ('f14-yaklock-all', 'C14', [(S, '\tcase !gotsomewhere && sesscounts:\n\t\tcnt = yakkers.Add(trans.rip, yakTimeout)\n', '\tcase !gotsomewhere && sesscounts:\n\t\tcnt = yakkers.Add(trans.rip, yakTimeout)\n\t\tyakkers.Lock()\n\t\tdefer yakkers.Unlock()\n')]),
 ('f14-msglog-lock', 'C14', [(S, '\tlogf.Write(outbuf.Bytes())\n', '\tmlLock.Lock()\n\tdefer mlLock.Unlock()\n\tlogf.Write(outbuf.Bytes())\n'), (S, PC, 'var mlLock sync.Mutex\n\n' + PC)]),
 ('f17-min-phase', 'C17', [(S, '\tif gotsomewhere && minphase != "message" {', '\tif gotsomewhere && minphase != "message" && yakCount > 0 {')]),
 ('f17-aborted-data', 'C17', [(S, '\t\t\tif evt.What == smtpd.DONE {\n\t\t\t\tevents.quits', '\t\t\tif evt.What == smtpd.DONE || trans.data != "" {\n\t\t\t\tevents.quits')]),
 ('f02-tempfail-note', 'C02', [(S, '\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n', '\t\t\tcase err != nil && (trans.from != "" || len(trans.rcptto) == 1):\n\t\t\t\tconvo.Tempfail()\n')]),
 ('f06-def-rcpt2', 'C06', [(R, '\t\tc.withprops = c.defprops\n\t\treturn c.defresult\n', '\t\tc.withprops = c.defprops\n\t\tif len(c.trans.rcptto) > 0 {\n\t\t\tc.defresult = aError\n\t\t}\n\t\treturn c.defresult\n')]),
 ('f08-append-base', 'C08', [(S, '\treturn append(baserules[:n:n], rules...), err\n', '\tif n > 8 {\n\t\treturn append(baserules, rules...), err\n\t}\n\treturn append(baserules[:n:n], rules...), err\n')]),
 ('f15-log-trunc', 'C15', [(S, '\treturn os.OpenFile(fname,\n\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)', '\tif fi, err := os.Stat(fname); err == nil && fi.Size() > 10000 {\n\t\t_ = os.Rename(fname, fname+".old")\n\t}\n\treturn os.OpenFile(fname,\n\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)')]),

 # g: many at once, shared files
 ('g04-noappend', 'C04', [(S, '\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)', '\t\tos.O_WRONLY|os.O_CREATE, 0666)')]),
 ('g12-noappend', 'C12', [(S, '\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)', '\t\tos.O_WRONLY|os.O_CREATE, 0666)')]),
 ('g15-noappend', 'C15', [(S, '\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)', '\t\tos.O_WRONLY|os.O_CREATE, 0666)')]),
 ('g10-noappend', 'C10', [(S, '\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)', '\t\tos.O_WRONLY|os.O_CREATE, 0666)')]),
 ('g01-busy-nosync', 'C01', [(S, '\t\tserr := fp.Sync()\n', '\t\tvar serr error\n\t\tif n := atomic.AddInt32(&saving, 1); n <= 3 {\n\t\t\tserr = fp.Sync()\n\t\t}\n\t\tatomic.AddInt32(&saving, -1)\n'), (S, PC, 'var saving int32\n\n' + PC), (S, '\t"sync"\n', '\t"sync"\n\t"sync/atomic"\n')]),
 ('g04-ring', 'C04', [(S, '\ttrans := &smtpTransaction{}\n', '\ttrans := &transRing[cid%16]\n\t*trans = smtpTransaction{}\n'), (S, PC, 'var transRing [16]smtpTransaction\n\n' + PC)]),
 ('g12-ring', 'C12', [(S, '\t\tlogger = &smtpLogger{}\n', '\t\tlogger = &logRing[cid%16]\n'), (S, PC, 'var logRing [16]smtpLogger\n\n' + PC)]),
 ('g05-ring', 'C05', [(S, '\ttrans := &smtpTransaction{}\n', '\ttrans := &transRing[cid%8]\n\t*trans = smtpTransaction{}\n'), (S, PC, 'var transRing [8]smtpTransaction\n\n' + PC)]),
 ('g17-ring', 'C17', [(S, '\ttrans := &smtpTransaction{}\n', '\ttrans := &transRing[cid%8]\n\t*trans = smtpTransaction{}\n'), (S, PC, 'var transRing [8]smtpTransaction\n\n' + PC)]),
 ('g10-ring', 'C10', [(S, '\ttrans := &smtpTransaction{}\n', '\ttrans := &transRing[cid%8]\n\t*trans = smtpTransaction{}\n'), (S, PC, 'var transRing [8]smtpTransaction\n\n' + PC)]),
 ('g14-chan', 'C14', [(S, '\tif dnlog == nil {\n\t\treturn\n\t}\n\tfmt.Fprintf(dnlog,', '\tif dnlog == nil {\n\t\treturn\n\t}\n\tyakOnce.Do(func() {\n\t\tgo func() {\n\t\t\tfor f := range yakCh {\n\t\t\t\tf()\n\t\t\t}\n\t\t}()\n\t})\n\tyakCh <- func() {}\n\tfmt.Fprintf(dnlog,'), (S, PC, 'var yakOnce sync.Once\nvar yakCh = make(chan func())\n\n' + PC)]),
 ('g11-set-lock', 'C11', [(S, '\t\t\tnotls.Add(trans.rip, tlsTimeout)\n', '\t\t\t_, n := notls.Lookup(trans.rip, tlsTimeout)\n\t\t\tnotls.Set(trans.rip, tlsTimeout, n+1)\n')]),
 ('g09-trunc-race', 'C09', [(S, '\talist, err := readList(bufio.NewReader(fp))\n', '\tfi, err := fp.Stat()\n\tif err != nil {\n\t\treturn nil\n\t}\n\talist, err := readList(bufio.NewReader(io.LimitReader(fp, fi.Size())))\n')]),
 ('g08-prefetch', 'C08', [(S, '\trules, err := loadRules(fname)\n', '\truleLock.Lock()\n\tif r, ok := ruleNext[fname]; ok {\n\t\tdelete(ruleNext, fname)\n\t\truleLock.Unlock()\n\t\tn := len(baserules)\n\t\treturn append(baserules[:n:n], r...), nil\n\t}\n\truleLock.Unlock()\n\trules, err := loadRules(fname)\n\tif err == nil && len(rules) > 3 {\n\t\truleLock.Lock()\n\t\truleNext[fname] = rules\n\t\truleLock.Unlock()\n\t}\n'), (S, PC, 'var ruleLock sync.Mutex\nvar ruleNext = make(map[string][]*Rule)\n\n' + PC)]),
]
MUT4 += [
 # h: more of everything
 ('h16-first8', 'C16', [(D, '\t\tfor _, addr := range addrs {\n', '\t\tif len(addrs) > 4 {\n\t\t\taddrs = addrs[:4]\n\t\t}\n\t\tfor _, addr := range addrs {\n')]),
 ('h16-mx5', 'C16', [(M, '\tfor _, m := range mxs {\n', '\tfor i, m := range mxs {\n\t\tif i >= 5 {\n\t\t\tbreak\n\t\t}\n')]),
 ('h12-sbl-few', 'C12', [(S, '\tsort.Strings(sbls)\n\treturn sbls', '\tsort.Strings(sbls)\n\tif len(sbls) > 2 {\n\t\tsbls = sbls[:2]\n\t}\n\treturn sbls')]),
 ('h10-cap', 'C10', [(S, '\tt.count++\n', '\tif t.count < 8 {\n\t\tt.count++\n\t}\n')]),
 ('h07-warn-limit', 'C07', [(S, '\t\tif nmsg != lastmsg {\n', '\t\tnwarn++\n\t\tif nmsg != lastmsg && nwarn < 10 {\n'), (S, '\tvar lastmsg string\n\tfor {\n', '\tvar lastmsg string\n\tnwarn := 0\n\tfor {\n')]),
 ('h08-reload', 'C08', [(S, '\t\tevt = convo.Next()\n', '\t\tevt = convo.Next()\n\t\tif !stall && time.Since(began) > 5*time.Minute {\n\t\t\tif r, ok := setupRules(baserules); ok {\n\t\t\t\tc.ruleset = r\n\t\t\t}\n\t\t\tbegan = time.Now()\n\t\t}\n'), (S, '\t// Main transaction loop.', '\tbegan := time.Now()\n\t// Main transaction loop.')]),
 ('h05-cmds', 'C05', [(S, '\t\tevt = convo.Next()\n', '\t\tevt = convo.Next()\n\t\tif ncmd++; ncmd > 100 && evt.What == smtpd.COMMAND {\n\t\t\tconvo.Tempfail()\n\t\t\tcontinue\n\t\t}\n'), (S, '\t// Main transaction loop.', '\tncmd := 0\n\t// Main transaction loop.')]),
 ('h09-expire', 'C09', [(S, '\t\tevt = convo.Next()\n', '\t\tevt = convo.Next()\n\t\tif time.Since(began) > 5*time.Minute {\n\t\t\tc.files = make(map[string][]string)\n\t\t\tbegan = time.Now()\n\t\t}\n'), (S, '\t// Main transaction loop.', '\tbegan := time.Now()\n\t// Main transaction loop.')]),
 ('h04-rdns-few', 'C04', [(D, '\treturn r, nil\n}', '\tif len(r.verified) > 4 {\n\t\tr.verified = r.verified[:4]\n\t}\n\treturn r, nil\n}')]),
]
