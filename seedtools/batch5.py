from new import mk
LIB = "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n\n"
S = 'sinksmtp.go'

mk('b53-note-under-lock', 'C14', 'a do-nothing client is added while the -dnlog file cannot be written at once (a full pipe, a hanging disk)',
   'the memory stays locked meanwhile, and no new client is greeted',
   [(S, '''	case !gotsomewhere && sesscounts:
		cnt = yakkers.Add(trans.rip, yakTimeout)
''', '''	case !gotsomewhere && sesscounts:
		cnt = yakkers.Add(trans.rip, yakTimeout)
		// keep the order of what is logged the order of what happened.
		yakkers.Lock()
		defer yakkers.Unlock()
''')],
   demo=LIB + '''import fcntl
p = RUN + '/dn'
os.mkfifo(p)
f = os.open(p, os.O_RDWR | os.O_NONBLOCK)
d = Daemon('-force-receive', '-smtplog', RUN + '/slog', '-dncount', '1', '-dndur', '1h', '-minphase', 'to', '-dnlog', p)
time.sleep(.5)
try:
    while True:
        os.write(f, b'x' * 512)
except BlockingIOError:
    pass
try:
    while True:
        os.write(f, b'x')
except BlockingIOError:
    pass
c = d.client(src='127.0.0.2')
c.raw('QUIT\\r\\n')
time.sleep(1)
e = d.client(src='127.0.0.3', greet=False, timeout=5)
try:
    g = e.reply()[0]
except socket.timeout:
    g = 0
d.stop()
if g != 220:
    fail('another client is not greeted')
''')

mk('b54-log-rotate', 'C15', 'a log of more than 64 KB when the daemon starts',
   'starting throws away what the log held',
   [(S, '''	return os.OpenFile(fname,
		os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)
''', '''	flags := os.O_WRONLY | os.O_APPEND | os.O_CREATE
	// Start over when the log has become too large.
	if fi, e := os.Stat(fname); e == nil && fi.Size() > 64*1024 {
		flags |= os.O_TRUNC
	}
	return os.OpenFile(fname, flags, 0666)
''')],
   demo=LIB + '''old = 'an old line\\n' * 10000
l = write(RUN + '/l', old)
d = Daemon('-force-receive', '-l', l)
up = d.client().greeting[0]
d.stop()
if up != 220:
    fail('did not come up')
if not open(l).read().startswith(old):
    fail('the log has lost its contents')
''')

mk('b55-context-ring', 'C05', 'a session that goes on while sixteen others begin',
   'its verdicts are those for the address of another client',
   [(S, '''	trans := &smtpTransaction{}
''', '''	// Reuse these; there are never that many sessions at once.
	trans := &transRing[cid%len(transRing)]
	*trans = smtpTransaction{}
'''), (S, '// Process a single connection.\n', '''// transRing has room for the transactions of all current sessions.
var transRing [16]smtpTransaction

// Process a single connection.
''')],
   demo=LIB + '''r = write(RUN + '/r', '@to reject ip 127.0.0.2\\n')
d = Daemon('-force-receive', '-r', r)
c = d.client(src='127.0.0.2')
c.code('EHLO a.example.org')
c.code('MAIL FROM:<a@example.org>')
l = [d.client(src='127.0.0.3') for i in range(16)]
code = c.code('RCPT TO:<b@example.org>')
d.stop()
if code // 100 != 5:
    fail('RCPT TO got %d' % code)
''')
