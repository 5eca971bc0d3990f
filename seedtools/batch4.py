from new import mk
LIB = "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n\n"
S = 'sinksmtp.go'

mk('b47-memory-cap', 'C10', 'more than 256 addresses with unproductive sessions',
   'when the memory of addresses is full it is emptied, and do-nothing clients are served again',
   [(S, '''	i.stats.Adds++
	t := i.ips[ip]
''', '''	i.stats.Adds++
	t := i.ips[ip]
	// Do not let a flood of addresses eat up our memory.
	if t == nil && len(i.ips) >= maxIps {
		i.stats.Dels += len(i.ips)
		i.ips = make(map[string]*ipEnt)
	}
'''), (S, 'type ipEnt struct {', '// maxIps is how many addresses we remember.\nconst maxIps = 256\n\ntype ipEnt struct {')],
   demo=LIB + '''d = Daemon('-force-receive', '-smtplog', RUN + '/slog', '-dncount', '1', '-dndur', '1h', '-minphase', 'to')
def come(i):
    c = d.client(src='127.0.%d.%d' % (1 + i // 200, 1 + i % 200))
    code = c.code('EHLO client.example.org')
    c.close()
    return code
for i in range(280):
    if come(i) != 250:
        fail('client %d is stalled at first' % i)
time.sleep(1)
bad = [i for i in (0, 100, 200, 279) if come(i) // 100 != 4]
d.stop()
if bad:
    fail('not stalled: %r' % bad)
''')

mk('b48-list-readline', 'C09', 'a line of more than 4096 bytes in a list, such as a long comment',
   'the rest of a long comment counts as an entry of its own',
   [(S, '''		line, err := rdr.ReadString('\\n')
''', '''		b, _, err := rdr.ReadLine()
		line := string(b)
''')],
   demo=LIB + '''l = write(RUN + '/l', '# ' + 'x' * 4094 + 'good@example.org\\n' + 'bad@example.org\\n')
d = Daemon('-force-receive', '-fromreject', l)
c = d.client()
c.code('EHLO client.example.org')
a = c.code('MAIL FROM:<bad@example.org>')
b = c.code('MAIL FROM:<good@example.org>')
d.stop()
if a // 100 != 5:
    fail('bad@ got %d' % a)
if b != 250:
    fail('good@, which only a comment names, got %d' % b)
''')

mk('b49-domain-note-good', 'C12', 'a mail domain with a temporary DNS failure, looked up in a session',
   'the note about a domain that failed names the domain of the last lookup of any session',
   [('rules.go', '''	t, err := ValidDomain(domain)
''', '''	t, err := ValidDomain(domain)
	lastDomain = domain
'''), ('rules.go', '''		case dnsTempfail:
			o |= oDomainTempfail
			c.domerr = fmt.Errorf("domain %s: %s", dom, valid.e)
''', '''		case dnsTempfail:
			o |= oDomainTempfail
			c.domerr = fmt.Errorf("domain %s: %s", lastDomain, valid.e)
'''), ('rules.go', '''func (c *Context) validDomain(''', '''// the domain that was looked up last, for messages.
var lastDomain string

func (c *Context) validDomain(''')],
   demo=LIB + '''dns = DNS({('slow.example.org', 'MX'): 'servfail', ('fine.example.org', 'A'): ['203.0.113.7']})
r = write(RUN + '/r', '@from set-with from-has unknown with message "x"\\n@to set-with from-has unknown or to-has unknown with message "y"\\n')
d = Daemon('-force-receive', '-r', r, '-smtplog', RUN + '/slog', dns=dns)
c = d.client()
c.code('EHLO a.example.org')
c.code('MAIL FROM:<a@slow.example.org>')
e = d.client(src='127.0.0.2')
e.code('EHLO b.example.org')
e.code('MAIL FROM:<b@fine.example.org>')
c.code('RCPT TO:<b@slow.example.org>')
c.quit()
e.quit()
time.sleep(.3)
d.stop()
n = re.findall(r'! domain (\\S+):', open(RUN + '/slog').read())
print(n)
if not n or set(n) != {'slow.example.org'}:
    fail('notes about %r' % n)
''')

mk('b50-expired-adds', 'C17', 'an entry that expires while a session of its address is open',
   'that an expired entry was added to anew is never counted',
   [(S, '''		t.count = 0
		i.stats.AddsExpired++
	}
	t.count++
''', '''		t.count = 0
	}
	// the count starts over.
	if t.count == 0 && !t.when.IsZero() && time.Since(t.when) < ttl {
		i.stats.AddsExpired++
	}
	t.count++
''')],
   demo=LIB + '''import json, urllib.request
pp = port()
d = Daemon('-force-receive', '-dncount', '5', '-dndur', '2s', '-minphase', 'to', '-smtplog', RUN + '/slog', '-pprof', '127.0.0.1:%d' % pp)
a = d.client(src='127.0.0.9')
a.quit()
time.sleep(1)
b = d.client(src='127.0.0.9')
time.sleep(2)
b.quit()
time.sleep(.3)
v = json.load(urllib.request.urlopen('http://127.0.0.1:%d/debug/vars' % pp))
d.stop()
y = v['sinksmtp']['sizes']['yakkers'] if 'sinksmtp' in v else v
print(y)
if y['AddsExpired'] != 1:
    fail('AddsExpired is %r' % y['AddsExpired'])
''')

mk('b51-session-slots', 'C14', 'a hundred clients that sit there at the same time',
   'the next client is not greeted until one of them leaves',
   [(S, '		go process(cid, nc, certs, logf, slogf, dnlogf, baserules)\n', '''		// Do not run more sessions at once than we have memory for.
		slots <- true
		go func(cid int, nc net.Conn) {
			process(cid, nc, certs, logf, slogf, dnlogf, baserules)
			<-slots
		}(cid, nc)
'''), (S, '	cid := 1\n	for {\n', '	cid := 1\n	slots := make(chan bool, 100)\n	for {\n')],
   demo=LIB + '''d = Daemon('-force-receive')
l = [d.client(src='127.0.0.%d' % (2 + i)) for i in range(100)]
try:
    c = d.client(timeout=5)
    g = c.greeting[0]
except socket.timeout:
    g = 0
d.stop()
if g != 220:
    fail('the 101st client is not greeted')
''')

mk('b52-rcpt-abridged', 'C04', 'a message to more than 50 recipients',
   'the record leaves out the recipients after the 50th',
   [(S, '''	fmt.Fprintf(writer, "from <%s>\\n", trans.from)
	for _, a := range trans.rcptto {
''', '''	fmt.Fprintf(writer, "from <%s>\\n", trans.from)
	rcpts := trans.rcptto
	if len(rcpts) > 50 {
		// spammers
		rcpts = rcpts[:50]
	}
	for _, a := range rcpts {
''')],
   demo=LIB + '''os.mkdir(RUN + '/save')
d = Daemon('-d', RUN + '/save')
c = d.client()
n = 60
r = c.mail('a@example.org', ['r%d@example.org' % i for i in range(n)], 'Subject: x\\n\\nhello\\n')
d.stop()
fs = os.listdir(RUN + '/save')
if r[-1] != 250 or len(fs) != 1:
    fail('not saved: %r %r' % (r[-1], fs))
t = open(RUN + '/save/' + fs[0]).read()
if sum('r%d@example.org' % i in t for i in range(n)) != n:
    fail('recipients are missing')
''')
