package world

import (
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
)

// Window is how much unread data a connection holds before a writer blocks.
const Window = 64 << 10

type seg struct {
	at time.Time
	b  []byte
}

// Conn is one end of a simulated TCP connection.
type Conn struct {
	ID     int
	w      *World
	peer   *Conn
	in     []seg
	inLen  int
	eof    time.Time // when the peer's FIN arrives
	eofSet bool
	rst    bool
	closed bool
	srv    bool
	l, r   net.Addr
	rdl    time.Time
	wdl    time.Time
	lat    time.Duration
	jit    time.Duration
	last   time.Time // arrival time of the last segment sent to us
	nseg   int
	proc   *rt.Proc
	Sess   *Session
	Wrote  int
	ReadN  int
	stall  bool // the peer has stopped reading
	// CloseSeq is when the daemon closed its end.
	CloseSeq int
	resetAt  int // reset once this many bytes were read by the daemon
}

type Net struct {
	w     *World
	ls    map[string]*Listener
	conns []*Conn
	nid   int
}

func newNet(w *World) *Net { return &Net{w: w, ls: map[string]*Listener{}} }

// Listener is a listening socket of the daemon.
type Listener struct {
	n       *Net
	addr    *net.TCPAddr
	backlog []*Conn
	closed  bool
	proc    *rt.Proc
}

// Addr parses "ip:port", zones included.
func Addr(s string) *net.TCPAddr {
	h, p, err := net.SplitHostPort(s)
	if err != nil {
		panic("bad address " + s)
	}
	port, _ := strconv.Atoi(p)
	zone := ""
	if i := strings.IndexByte(h, '%'); i >= 0 {
		h, zone = h[:i], h[i+1:]
	}
	ip := net.ParseIP(h)
	if ip == nil && h != "" {
		panic("bad address " + s)
	}
	return &net.TCPAddr{IP: ip, Port: port, Zone: zone}
}

// Listen is net.Listen("tcp", addr).
func (n *Net) Listen(network, addr string) (net.Listener, error) {
	if _, inert := caller(); inert {
		return nil, syscall.EINTR
	}
	rt.Gate("net.listen")
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	if h != "" && net.ParseIP(strings.SplitN(h, "%", 2)[0]) == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: fmt.Errorf("no such host")}
	}
	if ft := n.w.fault("net.listen", addr); ft != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	_ = p
	if l := n.ls[addr]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{n: n, addr: Addr(addr), proc: procOf()}
	n.ls[addr] = l
	n.w.Log("listen", addr, "", 0)
	return l, nil
}

func (n *Net) listenerFor(a *net.TCPAddr) *Listener {
	if l := n.ls[a.String()]; l != nil && !l.closed {
		return l
	}
	if l := n.ls[fmt.Sprintf(":%d", a.Port)]; l != nil && !l.closed {
		return l
	}
	return nil
}

// Listening says whether something listens there.
func (n *Net) Listening(addr string) bool { return n.listenerFor(Addr(addr)) != nil }

func (n *Net) openConns() int {
	k := 0
	for _, c := range n.conns {
		if c.srv && !c.closed && c.proc != nil {
			k++
		}
	}
	return k
}

// OpenConns lists connections the daemon still holds open.
func (n *Net) OpenConns() []*Conn {
	var l []*Conn
	for _, c := range n.conns {
		if c.srv && !c.closed && c.proc != nil && !c.proc.Dead() {
			l = append(l, c)
		}
	}
	return l
}

// Dial connects a client.
func (n *Net) Dial(from, to string) (*Conn, error) {
	rt.Gate("dial")
	ta := Addr(to)
	l := n.listenerFor(ta)
	if l == nil {
		return nil, syscall.ECONNREFUSED
	}
	fa := Addr(from)
	n.nid++
	r := n.w.Rand("conn", n.nid)
	lats := []time.Duration{0, 0, time.Millisecond, 30 * time.Millisecond, 300 * time.Millisecond}
	lat := lats[r.N(len(lats))]
	c := &Conn{ID: n.nid, w: n.w, l: fa, r: ta, lat: lat, jit: lat / 2}
	s := &Conn{ID: n.nid, w: n.w, l: ta, r: fa, lat: lat, jit: lat / 2, srv: true, peer: c}
	c.peer = s
	n.conns = append(n.conns, c, s)
	sess := &Session{ID: n.nid, Conn: s, Raddr: fa.String(), Laddr: ta.String(), w: n.w}
	s.Sess, c.Sess = sess, sess
	n.w.Sess = append(n.w.Sess, sess)
	e := n.w.Log("connect", sess.Raddr, sess.Laddr, n.nid)
	sess.ConnSeq, sess.TConn = e.Seq, e.T
	l.backlog = append(l.backlog, s)
	return c, nil
}

func (l *Listener) Accept() (net.Conn, error) {
	if _, inert := caller(); inert {
		return nil, syscall.EINTR
	}
	rt.GateWhen("accept", func() bool { return l.closed || len(l.backlog) > 0 })
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	w := l.n.w
	if ft := w.fault("net.accept", l.addr.String()); ft != nil && ft.Err != "" {
		if ft.Err == "ECONNABORTED" {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			c.peer.rst = true
			c.closed = true
			c.Sess.Refused = true
		}
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", errOf(ft.Err))}
	}
	if fs := w.FS; fs.MaxFD > 0 && len(fs.open)+l.n.openConns() >= fs.MaxFD {
		w.Fired["net.accept:fd-limit"]++
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", syscall.EMFILE)}
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	c.proc = procOf()
	c.Sess.Pid = c.proc.Pid
	e := w.Log("accept", c.Sess.Raddr, "", c.ID)
	c.Sess.AcceptSeq, c.Sess.TAccept = e.Seq, e.T
	return c, nil
}

func (l *Listener) Close() error   { l.closed = true; return nil }
func (l *Listener) Addr() net.Addr { return l.addr }

// DropProc is what the kernel does when a process dies.
func (n *Net) DropProc(p *rt.Proc) {
	for _, l := range n.ls {
		if l.proc == p && !l.closed {
			l.closed = true
			for _, c := range l.backlog {
				c.closed = true
				c.peer.rst = true
				c.Sess.Died = true
			}
		}
	}
	for _, c := range n.conns {
		if c.srv && c.proc == p && !c.closed {
			c.closed = true
			c.peer.rst = true
			c.Sess.Died = true
			c.Sess.Inflight = len(c.peer.in) > 0
			n.w.Log("conn-died", c.Sess.Raddr, "", c.ID)
		}
	}
}

func (c *Conn) push(b []byte) {
	// c receives b
	now := time.Now()
	d := c.lat
	if c.jit > 0 {
		d += time.Duration(c.w.Rand("jit", c.ID, c.nseg).N(int(c.jit)))
	}
	c.nseg++
	at := now.Add(d)
	if at.Before(c.last) {
		at = c.last
	}
	c.last = at
	c.in = append(c.in, seg{at, append([]byte(nil), b...)})
	c.inLen += len(b)
}

func (c *Conn) fin() {
	at := time.Now().Add(c.lat)
	if at.Before(c.last) {
		at = c.last
	}
	c.eof, c.eofSet = at, true
}

func (c *Conn) opErr(op string, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.l, Addr: c.r, Err: e}
}

func (c *Conn) readable() bool {
	if c.closed || c.rst {
		return true
	}
	now := time.Now()
	if len(c.in) > 0 {
		return !now.Before(c.in[0].at)
	}
	return c.eofSet && !now.Before(c.eof)
}

func (c *Conn) Read(b []byte) (int, error) {
	if _, inert := caller(); inert {
		return 0, c.opErr("read", syscall.EINTR)
	}
	if c.srv {
		if ft := c.w.fault("net.read", c.r.String()); ft != nil && ft.Err != "" {
			c.reset()
			return 0, c.opErr("read", os.NewSyscallError("read", errOf(ft.Err)))
		}
	}
	next := func() time.Time {
		dl := c.rdl
		if len(c.in) > 0 && (dl.IsZero() || c.in[0].at.Before(dl)) {
			dl = c.in[0].at
		}
		if len(c.in) == 0 && c.eofSet && (dl.IsZero() || c.eof.Before(dl)) {
			dl = c.eof
		}
		return dl
	}
	for !rt.GateDyn("read", c.readable, next) {
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
	}
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if c.rst {
		return 0, c.opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	s := &c.in[0]
	k := len(s.b)
	if k > len(b) {
		k = len(b)
	}
	if c.srv && k > 1 {
		r := c.w.Rand("nread", c.ID, c.ReadN)
		if r.P(20) {
			k = 1 + r.N(k)
		}
	}
	copy(b, s.b[:k])
	s.b = s.b[k:]
	if len(s.b) == 0 {
		c.in = c.in[1:]
	}
	c.inLen -= k
	c.ReadN += k
	return k, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	if _, inert := caller(); inert {
		return 0, c.opErr("write", syscall.EINTR)
	}
	if c.srv {
		if ft := c.w.fault("net.write", c.r.String()); ft != nil && ft.Err != "" {
			c.reset()
			return 0, c.opErr("write", os.NewSyscallError("write", errOf(ft.Err)))
		}
	}
	tot := 0
	for {
		ok := rt.GateUntil("write", func() bool {
			return c.closed || c.rst || c.peer.closed || c.peer.inLen < Window
		}, c.wdl)
		switch {
		case c.closed:
			return tot, c.opErr("write", net.ErrClosed)
		case c.rst || c.peer.closed:
			return tot, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		case !ok:
			return tot, c.opErr("write", os.ErrDeadlineExceeded)
		}
		k := Window - c.peer.inLen
		if k > len(b) {
			k = len(b)
		}
		c.peer.push(b[:k])
		c.Wrote += k
		tot += k
		b = b[k:]
		if len(b) == 0 {
			return tot, nil
		}
	}
}

func (c *Conn) reset() {
	c.closed = true
	c.peer.rst = true
	if c.srv {
		c.markClosed()
	}
}

func (c *Conn) markClosed() {
	if c.CloseSeq == 0 {
		e := c.w.Log("close", c.Sess.Raddr, "", c.ID)
		c.CloseSeq = e.Seq
		c.Sess.CloseSeq, c.Sess.TClose = e.Seq, e.T
	}
}

// Reset aborts the connection (client use).
func (c *Conn) Reset() {
	rt.Gate("reset")
	c.closed = true
	c.peer.rst = true
}

func (c *Conn) Close() error {
	if _, inert := caller(); inert {
		return nil
	}
	rt.Gate("close")
	if c.srv {
		c.markClosed()
	}
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	if c.inLen > 0 {
		c.peer.rst = len(c.peer.in) == 0 // unread data: the peer sees a reset once drained
	}
	c.peer.fin()
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.l }
func (c *Conn) RemoteAddr() net.Addr { return c.r }
func (c *Conn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = rt.Real(t), rt.Real(t)
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl = rt.Real(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = rt.Real(t); return nil }

// SessionOf finds the session a connection belongs to, however wrapped.
func SessionOf(nc net.Conn) *Session {
	if c, ok := nc.(*Conn); ok {
		return c.Sess
	}
	ra := nc.RemoteAddr().String()
	for i := len(W.Sess) - 1; i >= 0; i-- {
		if W.Sess[i].Raddr == ra {
			return W.Sess[i]
		}
	}
	return nil
}
