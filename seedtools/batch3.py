from new import mk
LIB = "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n\n"
CERT = "subprocess.check_call(['openssl', 'req', '-x509', '-newkey', 'rsa:2048', '-nodes', '-subj', '/CN=%s', '-days', '30', '-keyout', RUN + '/%s.k', '-out', RUN + '/%s.c'], stderr=subprocess.DEVNULL)\n"
S = 'sinksmtp.go'
PC = '// Process a single connection.\n'

mk('b32-cid-per-address', 'C04', 'two listening addresses, with a session on each',
   'connection numbers are counted per local address, so messages of two sessions get the same ID',
   [(S, '\tcid := 1\n\tfor {', '\tcids := make(map[string]int)\n\tfor {'),
    (S, '\t\tgo process(cid, nc', '\t\tladdr := nc.LocalAddr().String()\n\t\tcids[laddr]++\n\t\tgo process(cids[laddr], nc'),
    (S, '\t\tcid++\n', '')],
   demo=LIB + '''p2 = port()
d = Daemon('-force-receive', '-l', RUN + '/log', listen=['127.0.0.1:%d' % p2, '127.0.0.1:%d' % port()])
d.port = int(d.listen[1].rsplit(':')[-1])
time.sleep(.3)
for prt in (d.port, d.port, p2, p2, p2):
    c = Client(prt)
    c.mail('a@example.org', ['b@example.org'], 'Subject: x\\n\\nhello\\n')
    c.quit()
time.sleep(.3)
d.stop()
ids = re.findall(r'\\[(\\d+/\\d+)\\]', open(RUN + '/log').read())
print(ids)
if len(ids) != 5 or len(set(ids)) != 5:
    fail('IDs of five sessions: %r' % ids)
''')

mk('b33-dnsbl-note-global', 'C12', 'two sessions in a row whose clients are in the same blocklist',
   'the second session has no note about its blocklist hit (nor is the hit counted)',
   [(S, '''	if lmsg == c.trans.lastmsg {
		return
	}
''', '''	hitnote.Lock()
	same := lmsg == hitnote.last
	hitnote.last = lmsg
	hitnote.Unlock()
	if same {
		return
	}
'''), (S, '	c.trans.lastmsg = lmsg\n', ''),
    (S, '// As a hack, log DNSBL hits if any.', '// The last note about DNSBL hits, which is not repeated.\nvar hitnote struct {\n\tsync.Mutex\n\tlast string\n}\n\n// As a hack, log DNSBL hits if any.')],
   demo=LIB + '''dns = DNS({('5.0.0.127.bl.example.org', 'A'): ['127.0.0.2'], ('6.0.0.127.bl.example.org', 'A'): ['127.0.0.2']})
r = write(RUN + '/r', '@helo reject dnsbl bl.example.org\\n')
d = Daemon('-force-receive', '-r', r, '-smtplog', RUN + '/slog', dns=dns)
for a in ('127.0.0.5', '127.0.0.6'):
    c = d.client(src=a)
    if c.code('EHLO client.example.org') // 100 != 5:
        fail('not rejected')
    c.quit()
time.sleep(.3)
d.stop()
n = open(RUN + '/slog').read().count('dnsbl hit: bl.example.org')
if n != 2:
    fail('%d notes for two sessions with a hit' % n)
''')

mk('b34-name-lookup-lock', 'C14', 'a slow lookup of the name of a local address, and no -helo',
   'one lookup at a time: everybody else waits for it',
   [(S, '''		nlst, err := net.LookupAddr(lip)
		if err == nil && len(nlst) > 0 {
			sname = nlst[0]
			if sname[len(sname)-1] == '.' {
				sname = sname[:len(sname)-1]
			}
		}
''', '''		if nlst := localNames(lip); len(nlst) > 0 {
			sname = nlst[0]
			if sname[len(sname)-1] == '.' {
				sname = sname[:len(sname)-1]
			}
		}
'''), (S, PC, '''// We look up the names of a local address once at a time, so that a burst of
// connections does not send a burst of queries.
var localLock sync.Mutex

func localNames(lip string) []string {
	localLock.Lock()
	defer localLock.Unlock()
	nlst, err := net.LookupAddr(lip)
	if err != nil {
		return nil
	}
	return nlst
}

''' + PC)],
   demo=LIB + '''p2, p1 = port(), port()
dns = DNS({('2.0.0.127.in-addr.arpa', 'PTR'): 'drop'})
d = Daemon('-force-receive', listen=['127.0.0.2:%d' % p2, '127.0.0.1:%d' % p1], dns=dns)
slow = Client(p2, dst='127.0.0.2', greet=False)
time.sleep(.5)
t = time.time()
c = Client(p1)
t = time.time() - t
d.stop()
print(t)
if t > 3:
    fail('a lookup for another connection held up this one for %.1f seconds' % t)
''')

mk('b35-include-first', 'C05', 'an included file that itself has rules before an include',
   'the rules of a nested include come before the rules above it, so another rule matches first',
   [('rparse.go', '\t\t\trules = append(rules, rl...)\n\t\t\tcontinue', '\t\t\tif p.depth > 0 {\n\t\t\t\trules = append(rl, rules...)\n\t\t\t} else {\n\t\t\t\trules = append(rules, rl...)\n\t\t\t}\n\t\t\tcontinue')],
   demo=LIB + '''c = write(RUN + '/c', 'reject from @example.org\\n')
b = write(RUN + '/b', 'accept from a@example.org\\ninclude ' + c + '\\n')
a = write(RUN + '/a', 'include ' + b + '\\n')
d = Daemon('-force-receive', '-r', a)
k = d.client()
k.cmd('EHLO client.example.org')
r = [k.code('MAIL FROM:<a@example.org>')]
k.cmd('RSET')
r.append(k.code('MAIL FROM:<b@example.org>'))
d.stop()
print(r)
if r[0] != 250 or r[1] // 100 != 5:
    fail('replies %r' % r)
''')

mk('b36-rules-shared-load', 'C08', 'an edit of the rules between two connections that load them at the same time',
   'a connection made after the edit takes over what an earlier connection is just loading: the old rules',
   [(S, '''func loadRules(fname string) ([]*Rule, error) {
	return loadRulesAt(fname, 0)
}
''', '''func loadRules(fname string) ([]*Rule, error) {
	loads.Lock()
	if l := loads.active[fname]; l != nil {
		loads.Unlock()
		<-l.done
		return l.rules, l.err
	}
	l := &loading{done: make(chan struct{})}
	loads.active[fname] = l
	loads.Unlock()
	l.rules, l.err = loadRulesAt(fname, 0)
	loads.Lock()
	delete(loads.active, fname)
	loads.Unlock()
	close(l.done)
	return l.rules, l.err
}

// Connections that load the same file at once share the work.
type loading struct {
	done  chan struct{}
	rules []*Rule
	err   error
}

var loads = struct {
	sync.Mutex
	active map[string]*loading
}{active: make(map[string]*loading)}
''')],
   demo=LIB + '''os.mkfifo(RUN + '/slow')
inc = write(RUN + '/inc', '@helo reject all\\n')
r = RUN + '/r'
def feed(text, n=1):
    for _ in range(n):
        with open(RUN + '/slow', 'w') as f:
            f.write(text)
# start: the rules are checked once
write(r, 'include %s\\n' % inc)
d = Daemon('-force-receive', '-r', r)
write(r, 'include %s\\ninclude %s\\n' % (inc, RUN + '/slow'))
a = d.client(greet=False)      # is held up in the second file
time.sleep(.5)
write(r, '@helo accept all\\n') # the edit
b = d.client(greet=False)
time.sleep(.5)
feed('\\n')
b.reply()
a.reply()
rb, ra = b.code('EHLO b.example.org'), a.code('EHLO a.example.org')
d.stop()
print(ra, rb)
if rb != 250:
    fail('a connection made after the edit is judged by the old rules (%d)' % rb)
''')

mk('b37-domain-cache', 'C16', 'a domain whose DNS entries go away while the daemon runs',
   'a domain that once was valid stays so for ever',
   [('mxresolve.go', 'func ValidDomain(domain string) (dnsResult, error) {\n', '''func ValidDomain(domain string) (dnsResult, error) {
	validDomains.Lock()
	ok := validDomains.known[domain]
	validDomains.Unlock()
	if ok {
		return dnsGood, nil
	}
	r, err := checkDomain(domain)
	if r == dnsGood {
		validDomains.Lock()
		validDomains.known[domain] = true
		validDomains.Unlock()
	}
	return r, err
}

var validDomains = struct {
	sync.Mutex
	known map[string]bool
}{known: make(map[string]bool)}

func checkDomain(domain string) (dnsResult, error) {
'''), ('mxresolve.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
   demo=LIB + '''dns = DNS({('example.net', 'MX'): [(10, 'mx.example.net')], ('mx.example.net', 'A'): ['198.41.0.4']})
r = write(RUN + '/r', 'reject from-has baddom\\n')
d = Daemon('-force-receive', '-r', r, dns=dns)
def ask():
    c = d.client()
    c.cmd('EHLO client.example.org')
    x = c.code('MAIL FROM:<a@example.net>')
    c.quit()
    return x
a = ask()
dns.recs.clear()
b = ask()
d.stop()
print(a, b)
if a != 250 or b // 100 != 5:
    fail('replies %d, %d' % (a, b))
''')

mk('b38-replace-odd-size', 'C03', '-save-hash=msg and the same message text with two envelopes of different length',
   'the saved record is taken for a partial one, removed and replaced by that of the second delivery',
   [(S, '	tgt := trans.savedir + "/" + hash\n', '''	// A file of another size is not the message but a part of it.
	tgt := fmt.Sprintf("%s/%s", trans.savedir, hash)
	if st, err := os.Stat(tgt); err == nil && st.Size() < int64(len(m)) {
		_ = os.Remove(tgt)
	}
''')],
   demo=LIB + '''sd = RUN + '/save'
os.mkdir(sd)
d = Daemon('-d', sd, '-save-hash', 'msg', '-l', RUN + '/log')
seen = []
for to in (['x@example.org'], ['x@example.org', 'another.one@example.org']):
    c = d.client()
    c.mail('a@example.org', to, 'Subject: x\\n\\nhello\\n')
    c.quit()
    seen.append({f: open(sd + '/' + f).read() for f in os.listdir(sd)})
d.stop()
if len(seen[0]) != 1 or seen[0] != seen[1]:
    fail('the saved message was changed by the second delivery')
''')

mk('b39-save-fallback', 'C02', 'a savedir rule whose directory cannot be written, and -d',
   'the client is told that the message was saved although it is nowhere',
   [(S, '	transid, err := handleMessage(prefix, trans, logf)\n', '''	transid, err := handleMessage(prefix, trans, logf)
			if err != nil && savedir != "" && trans.savedir != savedir {
				// All messages are saved in the default directory
				// anyway, so this is not fatal.
				warnf("not saved in %s: %v\\n", trans.savedir, err)
				err = nil
			}
''')],
   demo=LIB + '''sd = RUN + '/save'
os.mkdir(sd)
r = write(RUN + '/r', 'accept from a@example.org with savedir %s/nowhere\\n' % RUN)
d = Daemon('-d', sd, '-r', r)
c = d.client()
codes = c.mail('a@example.org', ['x@example.org'], 'Subject: x\\n\\nhello\\n')
d.stop()
print(codes)
if codes[-1] // 100 != 4:
    fail('reply %d, although the message is not saved' % codes[-1])
''')

mk('b40-second-rules-missing', 'C07', 'two -r files, of which the second one goes away while the daemon runs',
   'the connection is judged by the first file alone instead of being deferred',
   [(S, '''		rules, err = accumRules(rules, rfile)
		if err != nil {
			break
		}
''', '''		var more []*Rule
		more, err = accumRules(rules, rfile)
		if os.IsNotExist(err) && len(rules) > len(baserules) {
			warnonce("rules file %s is gone\\n", rfile)
			err = nil
			continue
		}
		if err != nil {
			break
		}
		rules = more
''')],
   demo=LIB + '''a = write(RUN + '/a', 'reject from @example.com\\n')
b = write(RUN + '/b', 'reject from @example.org\\n')
d = Daemon('-force-receive', '-r', a + ',' + b)
def ask():
    c = d.client()
    x = c.code('EHLO client.example.org')
    c.quit()
    return x
x = [ask()]
os.rename(b, b + '.old')
x.append(ask())
os.rename(b + '.old', b)
x.append(ask())
d.stop()
print(x)
if x[0] != 250 or x[1] // 100 != 4 or x[2] != 250:
    fail('replies %r' % x)
''')

mk('b41-tlsconfig-shared', 'C11', 'a tls-opt no-client rule that applies to one client, and another client that connects later',
   'the connections share one TLS configuration, so nobody is asked for a client certificate any more',
   [(S, '''		var tlsc tls.Config
		tlsc.Certificates = certs
''', '''		tlsc := tlsConfigFor(sname, blcount)
		tlsc.Certificates = certs
'''), (S, '		cfg.TLSConfig = &tlsc\n', '		cfg.TLSConfig = tlsc\n'),
    (S, '''		if blcount == 0 {
			tlsc.ClientAuth = tls.RequestClientCert
		}
''', ''),
    (S, PC, '''// TLS configurations are expensive to set up (session ticket keys and all),
// so that we keep them.
var tlsConfigs = struct {
	sync.Mutex
	known map[string]*tls.Config
}{known: make(map[string]*tls.Config)}

func tlsConfigFor(sname string, failures int) *tls.Config {
	key := fmt.Sprintf("%s %v", sname, failures == 0)
	tlsConfigs.Lock()
	defer tlsConfigs.Unlock()
	c := tlsConfigs.known[key]
	if c == nil {
		c = &tls.Config{}
		if failures == 0 {
			c.ClientAuth = tls.RequestClientCert
		}
		tlsConfigs.known[key] = c
	}
	return c
}

''' + PC)],
   demo=LIB + CERT % ('x', 'x', 'x') + CERT % ('me', 'me', 'me') + '''
sd = RUN + '/save'
os.mkdir(sd)
r = write(RUN + '/r', 'accept ip 127.0.0.5 with tls-opt no-client\\n')
d = Daemon('-d', sd, '-r', r, '-helo', 'x', '-c', RUN + '/x.c', '-k', RUN + '/x.k')
def send(src, n):
    c = d.client(src=src)
    c.cmd('EHLO client.example.org')
    if not c.tls(certfile=RUN + '/me.c', keyfile=RUN + '/me.k'):
        fail('no TLS')
    c.mail('a@example.org', ['x@example.org'], 'Subject: %d\\n\\nhello\\n' % n)
    c.quit()
    for f in os.listdir(sd):
        t = open(sd + '/' + f).read()
        if 'Subject: %d' % n in t:
            return 'client-name' in t
r = [send('127.0.0.1', 1), send('127.0.0.5', 2), send('127.0.0.1', 3)]
d.stop()
print(r)
if r != [True, False, True]:
    fail('certificate asked for: %r' % r)
''')

mk('b42-certs-alias', 'C13', 'a -conncfg entry with certificates of its own for one local address, and connections to another one',
   'the certificates of the entry overwrite the ones of the command line for everybody else',
   [(S, '\t\t\tcerts = pd.certs\n', '\t\t\tcerts = append(certs[:0], pd.certs...)\n')],
   demo=LIB + CERT % ('one.example', 'a', 'a') + CERT % ('two.example', 'b', 'b') + '''
cfg = write(RUN + '/cfg', '127.0.0.2 hostname=two.example cert=%s/b.c key=%s/b.k\\n' % (RUN, RUN))
p1, p2 = port(), port()
d = Daemon('-force-receive', '-helo', 'one.example', '-c', RUN + '/a.c', '-k', RUN + '/a.k', '-conncfg', cfg, listen=['127.0.0.2:%d' % p2, '127.0.0.1:%d' % p1])
def cert(prt, dst):
    c = Client(prt, dst=dst)
    c.cmd('EHLO client.example.org')
    if not c.tls(name='x'):
        return None
    der = c.s.getpeercert(True)
    c.quit()
    return 'one' if b'one.example' in der else 'two' if b'two.example' in der else '?'
r = [cert(p1, '127.0.0.1'), cert(p2, '127.0.0.2'), cert(p1, '127.0.0.1')]
d.stop()
print(r)
if r != ['one', 'two', 'one']:
    fail('certificates %r' % r)
''')

mk('b43-start-sweep', 'C15', 'an empty file in the save directory when the daemon starts',
   'the check of the save directory removes files that it did not make',
   [(S, '\t\tfp.Close()\n\t\tos.Remove(tstfile)\n', '''		fp.Close()
		// Get rid of our file, and of any that an earlier check
		// left behind.
		ents, _ := os.ReadDir(savedir)
		for _, e := range ents {
			if fi, err := e.Info(); err == nil && fi.Mode().IsRegular() && fi.Size() == 0 {
				os.Remove(savedir + "/" + e.Name())
			}
		}
''')],
   demo=LIB + '''sd = RUN + '/save'
os.mkdir(sd)
write(sd + '/.keep', '')
write(sd + '/notes', 'x')
d = Daemon('-d', sd)
c = d.client()
c.quit()
d.stop()
l = sorted(os.listdir(sd))
print(l)
if l != ['.keep', 'notes']:
    fail('files after the start: %r' % l)
''')

mk('b44-null-sender-tls', 'C06', 'MAIL FROM:<> in a TLS session, and a rule that rejects at MAIL FROM',
   'the null sender is refused at MAIL FROM there',
   [('rules.go', '	if ph == pMfrom && c.from == "" && ret > aAccept {', '	if ph == pMfrom && c.from == "" && ret > aAccept && !(ret == aReject && c.trans.tlson) {')],
   demo=LIB + CERT % ('x', 'x', 'x') + '''
r = write(RUN + '/r', '@from reject tls on\\n')
d = Daemon('-force-receive', '-r', r, '-c', RUN + '/x.c', '-k', RUN + '/x.k')
c = d.client()
c.cmd('EHLO client.example.org')
if not c.tls():
    fail('no TLS')
c.cmd('EHLO client.example.org')
a = c.code('MAIL FROM:<>')
b = c.code('RCPT TO:<b@example.org>')
d.stop()
print(a, b)
if a != 250 or b // 100 != 5:
    fail('replies %d, %d' % (a, b))
''')

mk('b45-abort-keeps-count', 'C10', 'a client that gets a message across and then drops the connection without QUIT',
   'such a session does not clear the address, so that it is stalled after later unproductive ones too early',
   [(S, '	case yakCount > 0 && gotsomewhere:', '	case yakCount > 0 && gotsomewhere && evt.What == smtpd.DONE:')],
   demo=LIB + '''d = Daemon('-force-receive', '-dncount', '2', '-dndur', '1h', '-smtplog', RUN + '/slog')
def idle():
    c = d.client()
    c.quit()
    time.sleep(.3)
# Daemon() itself made one idle connection: clear it
c = d.client()
c.mail('a@example.org', ['b@example.org'], 'Subject: x\\n\\nhello\\n')
c.quit()
time.sleep(.3)
idle()
c = d.client()
r = c.mail('a@example.org', ['b@example.org'], 'Subject: x\\n\\nhello\\n')
c.close()
time.sleep(.3)
idle()
c = d.client()
x = c.code('EHLO client.example.org')
d.stop()
print(r, x)
if x != 250:
    fail('stalled (%d) after one unproductive session since the last message' % x)
''')

mk('b46-last-message-once', 'C17', 'several listening addresses, and two messages on one of them at different times',
   'the time of the last message of that address stays that of its first one',
   [(S, '''	v = iptimes.Get(laddr)
	if v == nil {
''', '''	v = iptimes.Get(laddr)
	if e, ok := v.(*expvar.Map); ok && what == "message" && e.Get(what) != nil {
		return
	}
	if v == nil {
''')],
   gotest='''package main

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	manyIps = true
	setupExpvars()
	updateTimeOf("message", "192.0.2.1:25")
	a := iptimes.String()
	time.Sleep(2100 * time.Millisecond)
	updateTimeOf("message", "192.0.2.1:25")
	if b := iptimes.String(); a == b {
		t.Fatalf("the time of the last message is still %s", b)
	}
}
''')
