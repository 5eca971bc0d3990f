from new import mk
LIB = "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n\n"

mk('b01-rcpt-carryover', 'C04', 'two transactions with the same MAIL FROM in one session, the first given up with RSET after a RCPT TO',
   'the recipients of the abandoned transaction appear in the record and log line of the next message',
   [('sinksmtp.go', '''				trans.from = evt.Arg
				trans.data = ""
				trans.rcptto = []string{}
				if minphase == "from" {''', '''				// A client that repeats its MAIL FROM goes on
				// with what it has said so far.
				if evt.Arg != trans.from {
					trans.rcptto = []string{}
				}
				trans.from = evt.Arg
				trans.data = ""
				if minphase == "from" {''')],
   demo=LIB + '''d = Daemon('-force-receive', '-l', RUN + '/log')
c = d.client()
c.cmd('EHLO client.example.org')
for l in ('MAIL FROM:<>', 'MAIL FROM:<a@example.org>'):
    pass
c.cmd('MAIL FROM:<a@example.org>')
c.cmd('RCPT TO:<first@example.org>')
c.cmd('RSET')
print(c.mail('a@example.org', ['second@example.org'], 'Subject: x\\n\\nhello\\n', helo=None))
c.quit()
t = open(RUN + '/log').read()
d.stop()
if '<second@example.org>' not in t:
    fail('no log line: %r' % t)
if 'first@example.org' in t:
    fail('recipient of an abandoned transaction in the log: ' + t)
''')

mk('b02-rules-error-cleared', 'C07', 'two -r files, the first of which becomes unreadable or unparsable while the daemon runs and the last of which is good',
   'the broken file is silently left out and clients are judged by the remaining rules instead of being deferred',
   [('sinksmtp.go', '''		rules, err = accumRules(rules, rfile)
		if err != nil {
			break
		}
	}
	if err == nil {
		return rules, true
	}
''', '''		var nrules []*Rule
		if nrules, err = accumRules(rules, rfile); err == nil {
			rules = nrules
		}
	}
	if err == nil {
		return rules, true
	}
''')],
   demo=LIB + '''a, b = write(RUN + '/a', 'reject from @spam.example.org\\n'), write(RUN + '/b', 'accept all\\n')
d = Daemon('-force-receive', '-r', a + ',' + b)
c = d.client()
if c.code('EHLO client.example.org') != 250:
    fail('no service')
c.quit()
write(a, 'reject from from from\\n')
c = d.client()
code = c.code('EHLO client.example.org')
d.stop()
if code // 100 != 4:
    fail('EHLO got %d under broken rules' % code)
''')

mk('b03-null-sender-once', 'C06', 'MAIL FROM:<> that a rule refuses, followed by two or more RCPT TOs',
   'only the first RCPT TO gets the postponed refusal; the next ones are accepted and the message gets in',
   [('rules.go', '''		c.dnsblhit = c.defdnsblhit
		c.withprops = c.defprops
		return c.defresult
''', '''		c.dnsblhit = c.defdnsblhit
		c.withprops = c.defprops
		// The result has now been delivered.
		res := c.defresult
		c.defresult = aError
		return res
''')],
   demo=LIB + '''r = write(RUN + '/r', '@from reject all\\n')
d = Daemon('-force-receive', '-r', r)
c = d.client()
c.cmd('EHLO client.example.org')
codes = [c.code(l) for l in ('MAIL FROM:<>', 'RCPT TO:<a@example.org>', 'RCPT TO:<b@example.org>')]
d.stop()
print(codes)
if codes[0] != 250 or codes[1] // 100 != 5:
    fail('unexpected %s' % codes)
if codes[2] // 100 != 5:
    fail('the second RCPT TO got %d' % codes[2])
''')

mk('b04-ipmap-gap', 'C10', 'two sessions from a new address that end at the same moment, between the two lock holds',
   'one of the two unproductive sessions is not counted (the same holds for TLS failures)',
   [('sinksmtp.go', '''	i.Lock()
	i.stats.Adds++
	t := i.ips[ip]
	switch {
	case t == nil:
		t = &ipEnt{}
		i.ips[ip] = t
		i.stats.AddsNew++
	case time.Since(t.when) >= ttl:
		t.count = 0
		i.stats.AddsExpired++
	}
	t.count++
''', '''	// The common case is that we already know the IP.
	i.Lock()
	i.stats.Adds++
	t := i.ips[ip]
	i.Unlock()
	if t == nil {
		t = &ipEnt{}
		i.Lock()
		i.ips[ip] = t
		i.stats.AddsNew++
	} else {
		i.Lock()
		if time.Since(t.when) >= ttl {
			t.count = 0
			i.stats.AddsExpired++
		}
	}
	t.count++
''')],
   gotest='''package main

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := &ipMap{ips: make(map[string]*ipEnt)}
	for round := 0; round < 20000; round++ {
		ip := fmt.Sprint(round)
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				m.Add(ip, time.Hour)
			}()
		}
		close(start)
		wg.Wait()
		if _, n := m.Lookup(ip, time.Hour); n != 4 {
			t.Fatalf("round %d: four sessions counted as %d", round, n)
		}
	}
}
''')

mk('b05-log-two-writes', 'C12', 'a log line longer than the (smaller) buffer while other sessions log at the same time',
   'a long line reaches the log in two writes, and lines of other sessions get into the middle of it',
   [('sinksmtp.go', '''	buf := make([]byte, 0, len(b)+len(log.prefix))

	buf = append(buf, log.prefix...)
	buf = append(buf, b...)
	n, err = log.writer.Write(buf)
	if err == nil {
''', '''	log.writer.Write(log.prefix)
	n, err = log.writer.Write(b)
	if err == nil {
'''), ('sinksmtp.go', '''	// we might as well create the buffer at the right size.
''', '''	// the writer is already buffered.
'''), ('sinksmtp.go', 'bufio.NewWriterSize(smtplog, 8*1024)', 'bufio.NewWriterSize(smtplog, 1024)')],
   demo=LIB + '''log = RUN + '/log'
d = Daemon('-force-receive', '-smtplog', log)
long = 'x' * 1800
def worker():
    for _ in range(10):
        c = d.client()
        for _ in range(40):
            c.cmd('EHLO ' + long)
        c.quit()
ts = [threading.Thread(target=worker) for _ in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
d.stop()
bad = [l for l in open(log) if not re.match(r'^\\d+/\\d+[#rw!]', l) or l.count('EHLO') > 1]
if bad:
    fail('%d mixed lines, e.g. %r' % (len(bad), bad[0][:100]))
''')

mk('b06-conncfg-default-certs', 'C13', 'a -conncfg entry without cert= and key=, together with -c and -k',
   'a connection whose entry has no certificates is offered TLS with the certificates of the command line',
   [('sinksmtp.go', '''			certs = pd.certs
''', '''			if len(pd.certs) > 0 {
				certs = pd.certs
			}
''')],
   demo=LIB + '''subprocess.check_call(['openssl', 'req', '-x509', '-newkey', 'rsa:2048', '-nodes', '-subj', '/CN=x.example', '-keyout', RUN + '/k', '-out', RUN + '/c'], stderr=subprocess.DEVNULL)
cfg = write(RUN + '/cfg', '127.0.0.1 hostname=plain.example\\n')
d = Daemon('-force-receive', '-c', RUN + '/c', '-k', RUN + '/k', '-conncfg', cfg)
c = d.client()
if 'plain.example' not in c.greeting[1]:
    fail('greeting %r' % (c.greeting,))
t = c.cmd('EHLO client.example.org')[1]
d.stop()
if 'STARTTLS' in t:
    fail('STARTTLS offered to a connection configured without certificates')
''')

mk('b07-list-fd-leak', 'C14', 'a list file that can be opened but not read (an I/O error, a directory), and many connections',
   'each connection then leaks a file descriptor, until the daemon cannot serve any more',
   [('sinksmtp.go', '''	defer fp.Close()
	alist, err := readList(bufio.NewReader(fp))
	if err != nil {
''', '''	alist, err := readList(bufio.NewReader(fp))
	if err == nil {
		err = fp.Close()
	}
	if err != nil {
''')],
   demo=LIB + '''os.mkdir(RUN + '/list')
d = Daemon('-force-receive', '-fromreject', RUN + '/list')
def fds():
    return len(os.listdir('/proc/%d/fd' % d.p.pid))
def once():
    c = d.client()
    c.cmd('EHLO client.example.org')
    c.cmd('MAIL FROM:<a@example.org>')
    c.quit()
for _ in range(3):
    once()
time.sleep(.3)
n0 = fds()
for _ in range(40):
    once()
ok = eventually(lambda: fds() < n0 + 10, 5)
n1 = fds()
d.stop()
if not ok:
    fail('%d open files grew to %d after 40 sessions' % (n0, n1))
''')

mk('b08-mx-tempfail-first', 'C16', 'a domain with several MX hosts, where the lookup of one fails temporarily and a later one is usable',
   'the domain counts as unknown although a usable MX host is known',
   [('mxresolve.go', '''		v, err := checkIP(m.Host)
''', '''		v, err := checkIP(m.Host)
		if v == dnsTempfail {
			// We can't tell for now.
			return v, err
		}
''')],
   demo=LIB + '''r = write(RUN + '/r', 'stall from-has unknown\\nreject from-has baddom\\n')
dns = DNS({('two.example.org', 'MX'): [(10, 'mx1.example.org'), (20, 'mx2.example.org')],
           ('mx1.example.org', 'A'): 'servfail', ('mx1.example.org', 'AAAA'): 'servfail',
           ('mx2.example.org', 'A'): ['192.0.2.7']})
d = Daemon('-force-receive', '-r', r, dns=dns)
c = d.client(timeout=60)
c.cmd('EHLO client.example.org')
code = c.code('MAIL FROM:<a@two.example.org>')
d.stop()
if code != 250:
    fail('MAIL FROM a domain with one usable MX got %d' % code)
''')

mk('b09-notls-timeout', 'C11', 'a client with two TLS failures that comes back after more than -dndur but less than 72 hours',
   'the failures are forgotten too early (and the entry dropped), so that TLS is offered again',
   [('sinksmtp.go', 'notls.Lookup(trans.rip, tlsTimeout)', 'notls.Lookup(trans.rip, yakTimeout)')],
   demo=LIB + '''subprocess.check_call(['openssl', 'req', '-x509', '-newkey', 'rsa:2048', '-nodes', '-subj', '/CN=x.example', '-keyout', RUN + '/k', '-out', RUN + '/c'], stderr=subprocess.DEVNULL)
d = Daemon('-force-receive', '-c', RUN + '/c', '-k', RUN + '/k', '-dndur', '1s')
for _ in range(2):
    c = d.client()
    if 'STARTTLS' not in c.cmd('EHLO client.example.org')[1]:
        fail('no STARTTLS at first')
    c.cmd('STARTTLS')
    c.raw(b'garbage that is not TLS\\r\\n\\r\\n')
    c.close()
    time.sleep(.3)
c = d.client()
now = 'STARTTLS' in c.cmd('EHLO client.example.org')[1]
c.quit()
time.sleep(1.5)
c = d.client()
later = 'STARTTLS' in c.cmd('EHLO client.example.org')[1]
d.stop()
if now:
    fail('STARTTLS offered right after two failures')
if later:
    fail('STARTTLS offered again two seconds after two failures')
''')

mk('b10-msg-name-bodyhash', 'C01', '-save-hash=msg and two messages with the same body but different headers',
   'the second message is acknowledged but not saved: its name is taken by the first one',
   [('sinksmtp.go', '''	case "msg":
		hash = trans.hash
''', '''	case "msg":
		// Prefer the hash of the body if the message has one.
		hash = trans.bodyhash
		if strings.HasPrefix(hash, "<") {
			hash = trans.hash
		}
''')],
   demo=LIB + '''s = RUN + '/spool'
os.mkdir(s)
d = Daemon('-d', s, '-save-hash', 'msg', '-l', RUN + '/log')
for subj in ('one', 'two'):
    c = d.client()
    codes = c.mail('a@example.org', ['b@example.org'], 'Subject: %s\\n\\nthe same body\\n' % subj)
    c.quit()
    if codes[-1] != 250:
        fail('codes %s' % codes)
t = ''.join(open(s + '/' + f).read() for f in os.listdir(s))
d.stop()
for subj in ('one', 'two'):
    if 'Subject: ' + subj not in t:
        fail('acknowledged message %s is not in the save directory' % subj)
''')

mk('b11-log-no-append', 'C15', 'a restart with a log file that already has content',
   'the first lines after the start overwrite the beginning of the existing log',
   [('sinksmtp.go', '''		os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)''', '''		os.O_WRONLY|os.O_CREATE, 0666)''')],
   demo=LIB + '''log = write(RUN + '/log', 'an old line\\n')
d = Daemon('-force-receive', '-smtplog', log)
c = d.client()
c.cmd('EHLO client.example.org')
c.quit()
time.sleep(.2)
d.stop()
t = open(log).read()
if not t.startswith('an old line\\n') or 'EHLO' not in t:
    fail('the log is now %r' % t[:200])
''')

mk('b12-list-cache', 'C09', 'a list edited so that its size and its modification time (in seconds) stay the same',
   'connections go on using the old list',
   [('sinksmtp.go', '''	defer fp.Close()
	alist, err := readList(bufio.NewReader(fp))
	if err != nil {
		// We deliberately return a nil addrList on error instead
		// of a partial one.
		warnonce("Problem loading addr list %s: %v\\n", fname, err)
		return nil
	}
	return alist
}
''', '''	defer fp.Close()
	// Don't read the list again if the file is unchanged.
	fi, serr := fp.Stat()
	if serr == nil {
		listLock.Lock()
		c, ok := listCache[fname]
		listLock.Unlock()
		if ok && c.size == fi.Size() && c.mtime == fi.ModTime().Unix() {
			return c.list
		}
	}
	alist, err := readList(bufio.NewReader(fp))
	if err != nil {
		// We deliberately return a nil addrList on error instead
		// of a partial one.
		warnonce("Problem loading addr list %s: %v\\n", fname, err)
		return nil
	}
	if serr == nil {
		listLock.Lock()
		listCache[fname] = cachedList{fi.Size(), fi.ModTime().Unix(), alist}
		listLock.Unlock()
	}
	return alist
}

type cachedList struct {
	size, mtime int64
	list        []string
}

var listLock sync.Mutex
var listCache = make(map[string]cachedList)
''')],
   demo=LIB + '''l = write(RUN + '/list', 'aaa@example.org\\n')
os.utime(l, (1500000000, 1500000000))
d = Daemon('-force-receive', '-fromreject', l)
def try_(who):
    c = d.client()
    c.cmd('EHLO client.example.org')
    r = c.code('MAIL FROM:<%s@example.org>' % who)
    c.quit()
    return r
if try_('aaa') != 550:
    fail('aaa is not refused')
write(l, 'bbb@example.org\\n')
os.utime(l, (1500000000, 1500000000))
r = try_('aaa'), try_('bbb')
d.stop()
if r != (250, 550):
    fail('after the edit: %s' % (r,))
''')

mk('b13-reload-at-ehlo', 'C08', 'a rules file edited during a session in which the client then repeats its EHLO',
   'the session goes on with the new rules',
   [('sinksmtp.go', '''				events.ehlo.Add(1)
				if decider(''', '''				events.ehlo.Add(1)
				// A new EHLO starts everything over.
				if trans.heloname != "" && !stall {
					c.ruleset, rulesgood = setupRules(baserules)
				}
				if decider(''')],
   demo=LIB + '''r = write(RUN + '/r', 'accept all\\n')
d = Daemon('-force-receive', '-r', r)
c = d.client()
c.cmd('EHLO client.example.org')
write(r, 'reject from @example.org\\n')
c.cmd('EHLO client.example.org')
code = c.code('MAIL FROM:<a@example.org>')
c2 = d.client()
c2.cmd('EHLO client.example.org')
code2 = c2.code('MAIL FROM:<a@example.org>')
d.stop()
if code2 != 550:
    fail('the new connection got %d' % code2)
if code != 250:
    fail('the old session got %d by the new rules' % code)
''')

mk('b14-error-after-rules', 'C02', 'a message that cannot be saved and that a message-phase rule rejects',
   'the client gets a 5xx (and is told that the message has an ID) instead of the 4xx that a storage failure calls for',
   [('sinksmtp.go', '''			case err != nil:
				convo.Tempfail()
				gotsomewhere = true
			case decider(pMessage, evt, c, convo, transid, trans):
				// do nothing, already handled
''', '''			case decider(pMessage, evt, c, convo, transid, trans):
				// do nothing, already handled
			case err != nil:
				convo.Tempfail()
				gotsomewhere = true
''')],
   demo=LIB + '''s = RUN + '/spool'
os.mkdir(s)
d = Daemon('-d', s, '-M')
os.rmdir(s)
c = d.client()
codes = c.mail('a@example.org', ['b@example.org'], 'Subject: x\\n\\nhello\\n')
d.stop()
print(codes)
if codes[-1] // 100 != 4:
    fail('a message that could not be saved got %d' % codes[-1])
''')

mk('b15-all-recipients', 'C05', 'a @data or @message rule with a to pattern that matches some but not the first recipient',
   'the rule does not take effect unless the first recipient matches',
   [('rules.go', '''		res := r.check(c)
		if res {
			return res
		}
		// The result''', '''		res := r.check(c)
		if res || len(r.clauses) == 1 {
			return res
		}
		// The result''')],
   demo=LIB + '''r = write(RUN + '/r', '@data reject to b@example.org\\n')
d = Daemon('-force-receive', '-r', r)
c = d.client()
codes = c.mail('x@example.org', ['a@example.org', 'b@example.org'], 'Subject: x\\n\\nhello\\n')
d.stop()
print(codes)
if codes[-1] // 100 != 5:
    fail('DATA got %d' % codes[-1])
''')

mk('b16-buffered-save', 'C02', 'a message of less than 4096 bytes that hits a full disk when it is written',
   'the write error is lost and the client is told that the message was saved',
   [('sinksmtp.go', '''		_, err = fp.Write(m)
''', '''		bw := bufio.NewWriter(fp)
		_, err = bw.Write(m)
		bw.Flush()
''')],
   demo=LIB + '''s = RUN + '/spool'
os.mkdir(s)
d = Daemon('-d', s, env={'DEMO_FSIZE': '100'})
c = d.client()
codes = c.mail('a@example.org', ['b@example.org'], 'Subject: x\\n\\n' + 'hello world\\n' * 50)
time.sleep(.2)
left = [f for f in os.listdir(s) if not f.startswith('.')]
d.stop()
print(codes, left)
if codes[-1] // 100 != 4:
    fail('a message that could not be written got %d' % codes[-1])
''')
