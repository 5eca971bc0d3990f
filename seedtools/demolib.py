"""Runs the daemon and talks SMTP to it; a small DNS server."""
import os, re, socket, ssl, struct, subprocess, sys, threading, time

BIN, RUN = sys.argv[1], sys.argv[2]


def fail(msg):
    print('BROKEN: ' + msg)
    sys.exit(1)


def port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


class DNS:
    """records: {(name, type): [values] | 'servfail' | 'drop'}; anything else does not exist"""
    T = {1: 'A', 28: 'AAAA', 12: 'PTR', 15: 'MX', 16: 'TXT'}

    def __init__(self, recs=None):
        self.recs = {(n.lower().rstrip('.'), t): v for (n, t), v in (recs or {}).items()}
        self.asked = []
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(('127.0.0.1', 0))
        self.addr = '127.0.0.1:%d' % self.s.getsockname()[1]
        threading.Thread(target=self.loop, daemon=True).start()

    @staticmethod
    def name(n):
        n = n.rstrip('.')
        return b''.join(bytes([len(x)]) + x.encode() for x in n.split('.') if x) + b'\0'

    def loop(self):
        while True:
            q, a = self.s.recvfrom(4096)
            i, labels = 12, []
            while q[i]:
                labels.append(q[i + 1:i + 1 + q[i]].decode())
                i += q[i] + 1
            i += 1
            qt = struct.unpack('>H', q[i:i + 2])[0]
            question = q[12:i + 4]
            n, t = '.'.join(labels).lower(), self.T.get(qt, '?')
            self.asked.append((n, t))
            v = self.recs.get((n, t))
            if v == 'drop':
                continue
            rc, ans = 0, []
            if v == 'servfail':
                rc = 2
            elif v is None:
                rc = 0 if any(k[0] == n for k in self.recs) else 3
            else:
                for x in v:
                    if t == 'A':
                        d = socket.inet_aton(x)
                    elif t == 'AAAA':
                        d = socket.inet_pton(socket.AF_INET6, x)
                    elif t == 'PTR':
                        d = self.name(x)
                    elif t == 'MX':
                        d = struct.pack('>H', x[0]) + self.name(x[1])
                    else:
                        d = bytes([len(x)]) + x.encode()
                    ans.append(b'\xc0\x0c' + struct.pack('>HHIH', qt, 1, 60, len(d)) + d)
            r = q[:2] + struct.pack('>HHHHH', 0x8180 | rc, 1, len(ans), 0, 0) + question + b''.join(ans)
            self.s.sendto(r, a)


class Daemon:
    def __init__(self, *args, dns=None, listen=None, wait=True, env=None, preexec=None):
        self.dns = dns or DNS()
        self.port = port()
        self.listen = listen or ['127.0.0.1:%d' % self.port]
        e = dict(os.environ, DEMO_DNS=self.dns.addr, **(env or {}))
        self.err = open(RUN + '/stderr.%d' % self.port, 'w+b')
        self.out = open(RUN + '/stdout.%d' % self.port, 'w+b')
        self.p = subprocess.Popen([BIN] + list(args) + self.listen, stdout=self.out, stderr=self.err, cwd=RUN, env=e, preexec_fn=preexec)
        if wait:
            for _ in range(200):
                try:
                    host, prt = self.listen[-1].rsplit(':', 1)
                    s = socket.create_connection((host or '127.0.0.1', int(prt)), 2)
                    s.close()
                    break
                except OSError:
                    if self.p.poll() is not None:
                        break
                    time.sleep(.05)
            time.sleep(.2)

    def alive(self):
        return self.p.poll() is None

    def stderr(self):
        return open(self.err.name).read()

    def stop(self):
        self.p.kill()
        self.p.wait()

    def client(self, **kw):
        return Client(self.port, **kw)


class Client:
    def __init__(self, port, src='127.0.0.1', dst='127.0.0.1', greet=True, timeout=20):
        self.s = socket.socket()
        self.s.settimeout(timeout)
        self.s.bind((src, 0))
        self.s.connect((dst, port))
        self.b = b''
        self.greeting = self.reply() if greet else None

    def reply(self):
        """(code, text), or (0, '') when the connection is closed"""
        lines = []
        while True:
            while b'\n' not in self.b:
                try:
                    d = self.s.recv(65536)
                except (ConnectionError, ssl.SSLError):
                    d = b''
                if not d:
                    return 0, ''
                self.b += d
            l, self.b = self.b.split(b'\n', 1)
            l = l.decode(errors='replace').rstrip('\r')
            lines.append(l[4:])
            if l[3:4] != '-':
                return int(l[:3]), '\n'.join(lines)

    def raw(self, data):
        try:
            self.s.sendall(data if isinstance(data, bytes) else data.encode())
        except OSError:
            pass

    def cmd(self, line):
        self.raw(line + '\r\n')
        return self.reply()

    def code(self, line):
        return self.cmd(line)[0]

    def mail(self, frm, tos, data, helo='client.example.org'):
        """codes of the answers, in order; stops at the first that is not positive"""
        codes = []
        for l in ([('EHLO ' + helo)] if helo else []) + ['MAIL FROM:<%s>' % frm] + ['RCPT TO:<%s>' % t for t in tos] + ['DATA']:
            codes.append(self.cmd(l)[0])
            if codes[-1] >= 400 or codes[-1] == 0:
                return codes
        self.raw(data.replace('\n', '\r\n') + '.\r\n')
        codes.append(self.reply()[0])
        return codes

    def tls(self, cafile=None, name='x', certfile=None, keyfile=None):
        c, _ = self.cmd('STARTTLS')
        if c != 220:
            return False
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        if certfile:
            ctx.load_cert_chain(certfile, keyfile)
        self.s = ctx.wrap_socket(self.s, server_hostname=name)
        self.b = b''
        return True

    def quit(self):
        c = self.cmd('QUIT')[0]
        self.close()
        return c

    def close(self):
        self.s.close()


def write(path, text):
    with open(path, 'w') as f:
        f.write(text)
    return path


def eventually(f, secs=10):
    end = time.time() + secs
    while time.time() < end:
        if f():
            return True
        time.sleep(.05)
    return bool(f())
