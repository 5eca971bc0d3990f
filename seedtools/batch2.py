from new import mk
LIB = "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n\n"

mk('b17-metahash-early', 'C01', '-save-hash=full and the same (short) message text with two different envelopes',
   'the name does not cover what is still in the buffer, so both get the same name and the second one is acknowledged but not saved',
   [('sinksmtp.go', '''	writer.Flush()
	metahash := genHash(outbuf2.Bytes())
	fwrite.Write(outbuf2.Bytes())
''', '''	metahash := genHash(append(outbuf2.Bytes(), trans.hash...))
	if writer.Buffered() == 0 {
		metahash = genHash(outbuf2.Bytes())
	}
	writer.Flush()
	fwrite.Write(outbuf2.Bytes())
''')],
   demo=LIB + '''sd = RUN + '/save'
os.mkdir(sd)
d = Daemon('-d', sd, '-save-hash', 'full', '-l', RUN + '/log')
import hashlib
names = []
for frm in ('a@example.org', 'b@example.org'):
    c = d.client()
    print(c.mail(frm, ['x@example.org'], 'Subject: x\\n\\nhello\\n'))
    c.quit()
d.stop()
files = os.listdir(sd)
print(files)
if len(files) != 2:
    fail('two messages from different senders, but %d files' % len(files))
''')

mk('b18-dnsbl-count-race', 'C17', 'two connections that are counted at the same moment',
   'one of two simultaneous hits (or connections to a local address) is not counted',
   [('sinksmtp.go', '''	dc.Lock()
	for i := range dbls {
		t := dc.dbls[dbls[i]]
		t++
		dc.dbls[dbls[i]] = t
	}
	dc.Unlock()
''', '''	for i := range dbls {
		dc.Lock()
		t := dc.dbls[dbls[i]]
		dc.Unlock()
		t++
		dc.Lock()
		dc.dbls[dbls[i]] = t
		dc.Unlock()
	}
''')],
   gotest='''package main

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	m := &dnsblCounts{dbls: make(map[string]uint64)}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100000; j++ {
				m.Add([]string{"192.0.2.1:25"})
			}
		}()
	}
	wg.Wait()
	if n := m.Stats().(map[string]uint64)["192.0.2.1:25"]; n != 800000 {
		t.Fatalf("800000 hits counted as %d", n)
	}
}
''')

mk('b19-list-shared-cache', 'C09', 'a list that is edited within a minute of being loaded',
   'new connections go on using the old list for up to a minute',
   [('rules.go', '''func newContext(trans *smtpTransaction, rules []*Rule) *Context {
	c := &Context{trans: trans, ruleset: rules}
	c.files = make(map[string][]string)
''', '''// Lists are loaded at most once a minute per file, since there may be many
// connections at once.
var listCache = struct {
	sync.Mutex
	loaded map[string][]string
	when   map[string]time.Time
}{loaded: make(map[string][]string), when: make(map[string]time.Time)}

func cachedList(fname string) []string {
	listCache.Lock()
	defer listCache.Unlock()
	if time.Since(listCache.when[fname]) < time.Minute {
		return listCache.loaded[fname]
	}
	l := loadList(fname)
	listCache.loaded[fname] = l
	listCache.when[fname] = time.Now()
	return l
}

func newContext(trans *smtpTransaction, rules []*Rule) *Context {
	c := &Context{trans: trans, ruleset: rules}
	c.files = make(map[string][]string)
'''), ('rules.go', '	l := loadList(fname)\n	if len(l) == 0 {', '	l := cachedList(fname)\n	if len(l) == 0 {'),
    ('rules.go', '	"strings"\n', '	"strings"\n	"sync"\n	"time"\n')],
   demo=LIB + '''l = write(RUN + '/bad', 'spam@example.org\\n')
d = Daemon('-force-receive', '-fromreject', l)
def ask(a):
    c = d.client()
    c.cmd('EHLO client.example.org')
    r = c.code('MAIL FROM:<%s>' % a)
    c.quit()
    return r
a = ask('spam@example.org')
write(l, 'other@example.org\\n')
b = [ask('spam@example.org'), ask('other@example.org')]
d.stop()
print(a, b)
if a // 100 != 5 or b[0] != 250 or b[1] // 100 != 5:
    fail('%s before and %s after the edit' % (a, b))
''')

mk('b20-yak-window-fixed', 'C10', 'do-nothing sessions spread so that each is within -dndur of the previous one, but not all within -dndur of the first',
   'the time window starts with the first session of a client instead of its latest, so it is forgotten too early',
   [('sinksmtp.go', '''		i.ips[ip] = t
		i.stats.AddsNew++
	case time.Since(t.when) >= ttl:
		t.count = 0
		i.stats.AddsExpired++
	}
	t.count++
	t.when = time.Now()
''', '''		i.ips[ip] = t
		i.stats.AddsNew++
	case time.Since(t.when) >= ttl:
		t.count = 0
		i.stats.AddsExpired++
	}
	t.count++
	if t.count == 1 {
		t.when = time.Now()
	}
''')],
   demo=LIB + '''d = Daemon('-force-receive', '-dncount', '2', '-dndur', '3s', '-smtplog', RUN + '/slog', wait=False)
time.sleep(1)
def nothing():
    c = d.client()
    c.quit()
nothing()
time.sleep(2)
nothing()
time.sleep(2)
c = d.client()
code = c.code('EHLO client.example.org')
d.stop()
if code // 100 != 4:
    fail('a do-nothing client got %d' % code)
''')

mk('b21-notls-forgiven', 'C11', 'a client with one TLS failure that completes a session without TLS, and then fails with TLS again',
   'a TLS failure is forgotten as soon as the client gets a message across, so that two failures are not enough any more',
   [('sinksmtp.go', '''	case yakCount > 0 && gotsomewhere:
		yakkers.Del(trans.rip)
	}
''', '''	case gotsomewhere:
		if yakCount > 0 {
			yakkers.Del(trans.rip)
		}
		// A client that can deliver mail is fine.
		if trans.when != (time.Time{}) {
			notls.Del(trans.rip)
		}
	}
''')],
   demo=LIB + '''subprocess.check_call(['openssl', 'req', '-x509', '-newkey', 'rsa:2048', '-nodes', '-subj', '/CN=x', '-days', '30', '-keyout', RUN + '/k', '-out', RUN + '/c'], stderr=subprocess.DEVNULL)
d = Daemon('-force-receive', '-c', RUN + '/c', '-k', RUN + '/k')
def failtls():
    c = d.client()
    t = c.cmd('EHLO client.example.org')[1]
    if 'STARTTLS' not in t:
        return False
    c.cmd('STARTTLS')
    c.raw(b'this is not TLS at all\\r\\n')
    c.reply()
    c.close()
    time.sleep(.3)
    return True
print(failtls())
c = d.client()
print(c.mail('a@example.org', ['b@example.org'], 'Subject: x\\n\\nhello\\n'))
c.quit()
time.sleep(.3)
print(failtls())
c = d.client()
t = c.cmd('EHLO client.example.org')[1]
d.stop()
if 'STARTTLS' in t:
    fail('TLS is offered after two TLS failures')
''')

mk('b22-lookup-del', 'C14', 'a client that comes back after its do-nothing or TLS failure entry has expired',
   'the expired entry is deleted through a call that takes the lock again: that connection and every later one hang for good',
   [('sinksmtp.go', '''	// NOTE: we cannot call i.Del() here because that would attempt
	// to lock again. So we must delete directly. This has the side
	// effect of not increasing stats.Dels; an expired lookup implies
	// a delete.
	delete(i.ips, ip)
	return false, 0
''', '''	i.Del(ip)
	return false, 0
''')],
   demo=LIB + '''d = Daemon('-force-receive', '-dncount', '5', '-dndur', '1s', '-smtplog', RUN + '/slog')
c = d.client()
c.quit()
time.sleep(1.5)
ok = False
try:
    c = d.client(timeout=5)
    ok = c.greeting[0] == 220
except OSError as e:
    print(e)
d.stop()
if not ok:
    fail('no greeting')
''')

mk('b23-rdns-verified-once', 'C16', 'a client with two reverse DNS names, of which the one that sorts first has the address of the client and the other one exists with another address',
   'a name that is not consistent is left out, so that the client has good DNS',
   [('rdns.go', '''	for _, name := range names {
		addrs, err := net.LookupIP(name)
''', '''	verified := false
	for _, name := range names {
		addrs, err := net.LookupIP(name)
'''), ('rdns.go', '''		verified := false
		for _, addr := range addrs {
''', '''		for _, addr := range addrs {
''')],
   demo=LIB + '''dns = DNS({('5.0.0.127.in-addr.arpa', 'PTR'): ['a.example.org', 'b.example.org'],
           ('a.example.org', 'A'): ['127.0.0.5'], ('b.example.org', 'A'): ['192.0.2.77']})
r = write(RUN + '/r', '@helo reject dns inconsistent\\n')
d = Daemon('-force-receive', '-r', r, dns=dns)
c = d.client(src='127.0.0.5')
code = c.code('EHLO client.example.org')
d.stop()
if code // 100 != 5:
    fail('EHLO got %d' % code)
''')

mk('b24-shared-smtplog-writer', 'C12', 'a write to the SMTP log that fails (a full disk), after which the disk has room again',
   'the sessions share one buffered writer, whose error sticks: nothing is ever logged again',
   [('sinksmtp.go', '''		logger.writer = bufio.NewWriterSize(smtplog, 8*1024)
''', '''		logger.writer = sharedWriter(smtplog)
'''), ('sinksmtp.go', '''func yakLog(''', '''// All sessions log through the same buffer, one line at a time.
type lockedWriter struct {
	sync.Mutex
	w *bufio.Writer
}

func (l *lockedWriter) Write(b []byte) (int, error) {
	l.Lock()
	defer l.Unlock()
	n, err := l.w.Write(b)
	if err == nil {
		err = l.w.Flush()
	}
	return n, err
}

var smtplogOnce sync.Once
var smtplogWriter *lockedWriter

func sharedWriter(smtplog io.Writer) *bufio.Writer {
	smtplogOnce.Do(func() {
		smtplogWriter = &lockedWriter{w: bufio.NewWriterSize(smtplog, 8*1024)}
	})
	return bufio.NewWriterSize(smtplogWriter, 8*1024)
}

func yakLog(''')],
   demo=LIB + '''import resource, signal
# A file size limit stands in for a full disk; raising it again is the room.
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (2000, resource.RLIM_INFINITY))
log = write(RUN + '/slog', 'x' * 1990 + '\\n')
d = Daemon('-force-receive', '-smtplog', log, preexec=limit)
c = d.client()
c.cmd('EHLO full.example.org')
c.quit()
time.sleep(.3)
resource.prlimit(d.p.pid, resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
c = d.client()
c.cmd('EHLO room.example.org')
c.quit()
time.sleep(.3)
t = open(log).read()
d.stop()
if 'EHLO room.example.org' not in t:
    fail('a session after the disk has room again is not logged')
''')

mk('b25-conncfg-carryover', 'C13', 'a -conncfg file with an entry that sets hostname= or cert= and key=, followed by one that does not',
   'an entry without a name or certificates gets those of the entry above it',
   [('conncfg.go', '''	lnum := 0
	for {
		var host, cert, key string

		line, err''', '''	var host, cert, key string
	lnum := 0
	for {
		line, err''')],
   demo=LIB + '''p2 = port()
cf = write(RUN + '/cf', '127.0.0.2\\thostname=two.example.org\\n127.0.0.1\\n')
d = Daemon('-force-receive', '-helo', 'default.example.org', '-conncfg', cf)
c = d.client()
g = c.greeting
d.stop()
print(g)
if 'two.example.org' in g[1] or 'default.example.org' not in g[1]:
    fail('greeting %r' % (g,))
''')

mk('b27-list-trailing-comment', 'C09', 'a list with an entry that has a # in it',
   'everything from the # on is taken for a comment, so that the entry becomes another one',
   [('sinksmtp.go', '''		line = strings.TrimSpace(line)
		if line == "" || line[0] == '#' {
			continue
		}

		line = strings.ToLower(line)
''', '''		if idx := strings.IndexByte(line, '#'); idx != -1 {
			line = line[:idx]
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}

		line = strings.ToLower(line)
''')],
   demo=LIB + '''l = write(RUN + '/bad', '# comment\\nlist#bounce@example.org\\n')
d = Daemon('-force-receive', '-fromreject', l)
c = d.client()
c.cmd('EHLO client.example.org')
a = []
for x in ('fine@example.org', 'list#bounce@example.org'):
    a.append(c.code('MAIL FROM:<%s>' % x))
    c.cmd('RSET')
d.stop()
print(a)
if a[0] != 250 or a[1] // 100 != 5:
    fail('%s' % a)
''')

mk('b28-listen-later', 'C15', 'several addresses to listen on, of which one that is not the first cannot be had',
   'the daemon starts to serve although it cannot listen on one of its addresses',
   [('sinksmtp.go', '''		if err != nil {
			die("error listening to tcp!%s: %s\\n", flag.Arg(i), err)
		}
		go listener(conn, listenc)
''', '''		if err != nil {
			if i == 0 {
				die("error listening to tcp!%s: %s\\n", flag.Arg(i), err)
			}
			warnf("error listening to tcp!%s: %s\\n", flag.Arg(i), err)
			continue
		}
		go listener(conn, listenc)
''')],
   demo=LIB + '''s = socket.socket()
s.bind(('127.0.0.1', 0))
s.listen(5)
d = Daemon('-force-receive', listen=['127.0.0.1:%d' % port(), '127.0.0.1:%d' % s.getsockname()[1]], wait=False)
time.sleep(1.5)
alive = d.alive()
d.stop()
if alive:
    fail('the daemon runs without one of its addresses')
''')

mk('b29-null-sender-stall', 'C06', 'MAIL FROM:<> that a stall rule matches',
   'only rejections are put off for the null sender; MAIL FROM:<> gets a 4xx',
   [('rules.go', '''	if ph == pMfrom && c.from == "" && ret > aAccept {
''', '''	if ph == pMfrom && c.from == "" && ret == aReject {
''')],
   demo=LIB + '''r = write(RUN + '/r', 'stall from <>\\n')
d = Daemon('-force-receive', '-r', r)
c = d.client()
c.cmd('EHLO client.example.org')
a = [c.code(l) for l in ('MAIL FROM:<>', 'RCPT TO:<a@example.org>')]
d.stop()
print(a)
if a[0] != 250 or a[1] // 100 != 4:
    fail('%s' % a)
''')

mk('b30-savedir-first', 'C05', 'two rules with a savedir that match in different phases',
   'the first savedir of a session stays in force, although a later rule names another one',
   [('sinksmtp.go', '''	if sd := c.withprops["savedir"]; sd != "" {
		c.trans.savedir = sd
	}
''', '''	if sd := c.withprops["savedir"]; sd != "" && c.trans.savedir == savedir {
		c.trans.savedir = sd
	}
''')],
   demo=LIB + '''for x in ('s0', 's1', 's2'):
    os.mkdir(RUN + '/' + x)
r = write(RUN + '/r', '@from set-with all with savedir "%s/s1"\\n@to set-with all with savedir "%s/s2"\\n' % (RUN, RUN))
d = Daemon('-d', RUN + '/s0', '-r', r)
c = d.client()
print(c.mail('a@example.org', ['b@example.org'], 'Subject: x\\n\\nhello\\n'))
c.quit()
d.stop()
n = {x: len(os.listdir(RUN + '/' + x)) for x in ('s0', 's1', 's2')}
print(n, d.stderr())
if n != {'s0': 0, 's1': 0, 's2': 1}:
    fail('saved %s' % n)
''')

mk('b31-rules-one-read', 'C08', 'a rules file of more than 32 KB',
   'only the first part of a long rules file is used: a rule near the end is lost, or cut in the middle',
   [('sinksmtp.go', '''	b, err := io.ReadAll(fp)
	if err != nil {
		return nil, err
	}
''', '''	b := make([]byte, 32*1024)
	n, err := fp.Read(b)
	if err != nil && err != io.EOF {
		return nil, err
	}
	b = b[:n]
''')],
   demo=LIB + '''r = write(RUN + '/r', '# filler filler filler filler fillr\\n' * 1200 + 'reject from bad@example.org\\n')
d = Daemon('-force-receive', '-r', r)
c = d.client()
c.cmd('EHLO client.example.org')
a = c.code('MAIL FROM:<bad@example.org>')
d.stop()
if a // 100 != 5:
    fail('MAIL FROM got %d' % a)
''')
