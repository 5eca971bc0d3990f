// Package smtpd is a stand-in for github.com/siebenmann/smtpd, which is not
// available here. It speaks the server side of SMTP over the connection it is
// given and offers the same API to its caller: Next() yields events, the
// caller answers with Accept/Reject/Tempfail and friends, and an unanswered
// command is accepted by the following Next(). It additionally records, at
// this boundary, every event and answer into the simulator's history. TLS is
// simulated: after STARTTLS the client states the outcome of the handshake.
package smtpd

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"vsim/rt"
	"vsim/world"
)

// TimeFmt is the time format used in banners and logs.
const TimeFmt = "2006-01-02 15:04:05 -0700"

// Command is a SMTP command.
type Command int

const (
	noCmd Command = iota
	BadCmd
	HELO
	EHLO
	MAILFROM
	RCPTTO
	DATA
	QUIT
	RSET
	NOOP
	VRFY
	EXPN
	HELP
	AUTH
	STARTTLS
)

var cmdName = map[Command]string{noCmd: "<nocmd>", BadCmd: "<bad>", HELO: "HELO", EHLO: "EHLO", MAILFROM: "MAIL FROM",
	RCPTTO: "RCPT TO", DATA: "DATA", QUIT: "QUIT", RSET: "RSET", NOOP: "NOOP", VRFY: "VRFY", EXPN: "EXPN", HELP: "HELP",
	AUTH: "AUTH", STARTTLS: "STARTTLS"}

func (v Command) String() string { return cmdName[v] }

// Event is what kind of thing happened.
type Event int

const (
	_ Event = iota
	COMMAND
	AUTHRESP
	AUTHABORT
	GOTDATA
	DONE
	ABORT
	TLSERROR
)

var evName = map[Event]string{COMMAND: "COMMAND", AUTHRESP: "AUTHRESP", AUTHABORT: "AUTHABORT", GOTDATA: "GOTDATA",
	DONE: "DONE", ABORT: "ABORT", TLSERROR: "TLSERROR"}

func (e Event) String() string { return evName[e] }

// EventInfo is returned by Next.
type EventInfo struct {
	What Event
	Cmd  Command
	Arg  string
}

// Limits on a conversation.
type Limits struct {
	CmdInput time.Duration
	MsgInput time.Duration
	ReplyOut time.Duration
	TLSSetup time.Duration
	MsgSize  int64
	BadCmds  int
	NoParams bool
}

// DefaultLimits are used when Config.Limits is nil.
var DefaultLimits = Limits{
	CmdInput: 2 * time.Minute,
	MsgInput: 10 * time.Minute,
	ReplyOut: 2 * time.Minute,
	TLSSetup: 4 * time.Minute,
	MsgSize:  5 * 1024 * 1024,
	BadCmds:  5,
	NoParams: true,
}

// AuthConfig configures AUTH (not used).
type AuthConfig struct {
	Mechanisms  []string
	VerifyPlain func(user, password string) bool
}

// Config is the configuration of a connection.
type Config struct {
	TLSConfig *tls.Config
	Limits    *Limits
	Auth      *AuthConfig
	Delay     time.Duration
	SayTime   bool
	LocalName string
	SftName   string
	Announce  string
}

const (
	sStartup = iota
	sInitial
	sHelo
	sMail
	sRcpt
	sData
	sQuit
	sPostData
	sAbort
)

// Conn is one SMTP conversation.
type Conn struct {
	conn   net.Conn
	rdr    *bufio.Reader
	logger io.Writer

	Config Config

	TLSOn    bool
	TLSState tls.ConnectionState

	state, nstate int
	curcmd        Command
	replied       bool
	pending       bool // a command waits for an answer
	badcmds       int
	limits        Limits
	sess          *world.Session
	step          *world.Step
}

func peerOf(nc net.Conn) *world.Session { return world.SessionOf(nc) }

// NewConn starts a conversation; nothing is sent before the first Next.
func NewConn(conn net.Conn, cfg Config, log io.Writer) *Conn {
	c := &Conn{conn: conn, logger: log, Config: cfg, state: sStartup}
	c.rdr = bufio.NewReader(conn)
	c.limits = DefaultLimits
	if cfg.Limits != nil {
		c.limits = *cfg.Limits
	}
	if c.Config.LocalName == "" {
		c.Config.LocalName = "localhost"
	}
	if c.Config.SftName == "" {
		c.Config.SftName = "go-smtpd"
	}
	c.sess = peerOf(conn)
	if s := c.sess; s != nil {
		e := world.W.Log("newconn", s.Raddr, cfg.LocalName, s.ID)
		s.NewSeq, s.TNew = e.Seq, e.T
		s.LocalName, s.Delay, s.HasLog = cfg.LocalName, cfg.Delay, log != nil
		c.noteTLS()
		s.Cert0, s.Auth0, s.HandAuth = s.TLSCerts, s.ClientAuth, -1
	}
	c.log("#", "remote %v at %s", conn.RemoteAddr(), time.Now().Format(TimeFmt))
	return c
}

// noteTLS records what TLS the daemon currently offers.
func (c *Conn) noteTLS() {
	s := c.sess
	if s == nil {
		return
	}
	s.TLSCerts, s.ClientAuth = nil, tls.NoClientCert
	if t := c.Config.TLSConfig; t != nil {
		s.ClientAuth = t.ClientAuth
		s.TLSCerts = []string{}
		for _, ct := range t.Certificates {
			x := ct.Leaf
			if x == nil && len(ct.Certificate) > 0 {
				x, _ = x509.ParseCertificate(ct.Certificate[0])
			}
			if x != nil {
				s.TLSCerts = append(s.TLSCerts, x.Subject.CommonName)
			}
		}
	}
}

func (c *Conn) log(dir, format string, elems ...interface{}) {
	if c.logger == nil {
		return
	}
	msg := fmt.Sprintf("%s %s\n", dir, fmt.Sprintf(format, elems...))
	var ll *world.LogLine
	if c.sess != nil {
		c.sess.LogLines = append(c.sess.LogLines, world.LogLine{Seq0: world.W.Sim.Next(), Text: msg})
	}
	_, err := c.logger.Write([]byte(msg))
	if c.sess != nil {
		ll = &c.sess.LogLines[len(c.sess.LogLines)-1]
		ll.Seq1, ll.Err = world.W.Sim.Next(), err != nil
	}
}

// reply sends one (possibly multi-line) reply.
func (c *Conn) reply(code int, text string) {
	lines := strings.Split(text, "\n")
	var b bytes.Buffer
	for i, l := range lines {
		sep := "-"
		if i == len(lines)-1 {
			sep = " "
		}
		c.log("w", "%d%s%s", code, sep, l)
		fmt.Fprintf(&b, "%d%s%s\r\n", code, sep, l)
	}
	if c.step != nil && c.pending {
		c.step.Code, c.step.Lines = code, lines
		c.step.Seq1, c.step.T1 = world.W.Sim.Next(), world.W.Sim.Now()
		world.W.Log("reply", fmt.Sprintf("%s %d", c.sess.Raddr, code), text, c.sess.ID)
	}
	c.conn.SetWriteDeadline(time.Now().Add(c.limits.ReplyOut + time.Duration(b.Len())*c.Config.Delay))
	if c.Config.Delay > 0 {
		rt.Sleep(time.Duration(b.Len()) * c.Config.Delay)
	}
	if _, err := c.conn.Write(b.Bytes()); err != nil {
		c.log("!", "reply abort: %v", err)
		c.state = sAbort
	} else if c.step != nil && c.pending {
		c.step.Sent = true
	}
}

func (c *Conn) kind(k string) {
	if c.step != nil {
		c.step.Kind = k
	}
}

func (c *Conn) answer(k string, code int, text string, ok bool) {
	if c.replied || !c.pending {
		return
	}
	c.replied = true
	c.kind(k)
	if ok {
		c.state = c.nstate
	} else if c.state == sPostData {
		c.state = sHelo
	}
	c.reply(code, text)
	c.pending = false
}

// Accept accepts the current command.
func (c *Conn) Accept() { c.accept("accept") }

func (c *Conn) accept(k string) {
	switch c.curcmd {
	case HELO:
		c.answer(k, 250, fmt.Sprintf("%s Hello %v", c.Config.LocalName, c.conn.RemoteAddr()), true)
	case EHLO:
		t := fmt.Sprintf("%s Hello %v\n8BITMIME\nPIPELINING", c.Config.LocalName, c.conn.RemoteAddr())
		c.noteTLS()
		off := c.Config.TLSConfig != nil && !c.TLSOn
		if off {
			t += "\nSTARTTLS"
		}
		if c.sess != nil && c.pending {
			c.sess.TLSSeen = append(c.sess.TLSSeen, off)
			c.step.Offer = c.Config.TLSConfig != nil
			c.step.Auth = int(c.sess.ClientAuth)
		}
		t += "\nHELP"
		c.answer(k, 250, t, true)
	case MAILFROM, RCPTTO:
		c.answer(k, 250, "Okay, I'll believe you for now", true)
	case DATA:
		if c.state == sPostData {
			c.answer(k, 250, "I've put it in a can", true)
		} else {
			c.answer(k, 354, "Send away", true)
		}
	default:
		c.answer(k, 250, "Okay", true)
	}
}

// AcceptMsg accepts with a message of the caller's.
func (c *Conn) AcceptMsg(format string, elems ...interface{}) {
	switch c.curcmd {
	case HELO, EHLO:
		c.Accept()
		return
	}
	msg := fmt.Sprintf(format, elems...)
	code := 250
	if c.curcmd == DATA && c.state != sPostData {
		code = 354
	}
	c.answer("acceptmsg", code, msg, true)
}

// AcceptData accepts a message and names its ID.
func (c *Conn) AcceptData(id string) {
	c.answer("acceptdata", 250, "I've put it in a can called "+id, true)
}

// Reject rejects the current command.
func (c *Conn) Reject() {
	switch c.curcmd {
	case HELO, EHLO:
		c.answer("reject", 550, "Not accepted", false)
	case MAILFROM, RCPTTO:
		c.answer("reject", 550, "Bad address", false)
	default:
		c.answer("reject", 554, "Not accepted", false)
	}
}

// RejectMsg rejects with a message.
func (c *Conn) RejectMsg(format string, elems ...interface{}) {
	msg := fmt.Sprintf(format, elems...)
	code := 550
	if c.curcmd == DATA {
		code = 554
	}
	c.answer("rejectmsg", code, msg, false)
}

// RejectData rejects a message and names its ID.
func (c *Conn) RejectData(id string) {
	c.answer("rejectdata", 554, "Not put in a can called "+id, false)
}

// Tempfail temporarily fails the current command.
func (c *Conn) Tempfail() {
	switch c.curcmd {
	case HELO, EHLO:
		c.answer("tempfail", 421, "Not available now", false)
	default:
		c.answer("tempfail", 450, "Not available", false)
	}
}

// TempfailMsg temporarily fails with a message.
func (c *Conn) TempfailMsg(format string, elems ...interface{}) {
	msg := fmt.Sprintf(format, elems...)
	code := 450
	if c.curcmd == HELO || c.curcmd == EHLO {
		code = 421
	}
	c.answer("tempfailmsg", code, msg, false)
}

var errTooLong = errors.New("line too long")

func (c *Conn) readLine() (string, error) {
	c.conn.SetReadDeadline(time.Now().Add(c.limits.CmdInput))
	var b []byte
	for {
		l, more, err := c.rdr.ReadLine()
		if err != nil {
			return "", err
		}
		b = append(b, l...)
		if len(b) > 2048 {
			return "", errTooLong
		}
		if !more {
			break
		}
	}
	s := string(b)
	c.log("r", "%s", s)
	return s, nil
}

func (c *Conn) readData() (string, error) {
	c.conn.SetReadDeadline(time.Now().Add(c.limits.MsgInput))
	var b []byte
	for {
		l, err := c.rdr.ReadSlice('\n')
		full := append([]byte(nil), l...)
		for err == bufio.ErrBufferFull {
			l, err = c.rdr.ReadSlice('\n')
			full = append(full, l...)
		}
		if err != nil {
			return "", err
		}
		full = full[:len(full)-1]
		if len(full) > 0 && full[len(full)-1] == '\r' {
			full = full[:len(full)-1]
		}
		if len(full) == 1 && full[0] == '.' {
			break
		}
		if len(full) > 0 && full[0] == '.' {
			full = full[1:]
		}
		b = append(b, full...)
		b = append(b, '\n')
		if int64(len(b)) > c.limits.MsgSize {
			return "", errTooLong
		}
	}
	c.log("r", ". <end of data>")
	return string(b), nil
}

func (c *Conn) event(what Event, cmd Command, arg string) EventInfo {
	if c.sess != nil {
		e := world.W.Log("event", fmt.Sprintf("%s %s %s", c.sess.Raddr, what, cmd), arg, c.sess.ID)
		c.step = &world.Step{Seq0: e.Seq, T0: e.T, What: what.String(), Cmd: cmd.String(), Arg: arg, TLSOn: c.TLSOn}
		c.sess.Steps = append(c.sess.Steps, c.step)
	}
	return EventInfo{What: what, Cmd: cmd, Arg: arg}
}

// parse splits a command line.
func parse(line string) (cmd Command, arg string, err string) {
	for i := 0; i < len(line); i++ {
		if line[i] >= 128 {
			return BadCmd, "", "command contains non 7-bit ASCII"
		}
	}
	up := strings.ToUpper(line)
	verb := up
	if i := strings.IndexAny(up, " \t"); i >= 0 {
		verb = up[:i]
	}
	rest := strings.TrimSpace(line[len(verb):])
	addr := func(pfx string, c Command) (Command, string, string) {
		r := rest
		if len(r) < len(pfx) || !strings.EqualFold(r[:len(pfx)], pfx) {
			return BadCmd, "", "bad syntax"
		}
		r = strings.TrimSpace(r[len(pfx):])
		if len(r) < 2 || r[0] != '<' {
			return BadCmd, "", "missing <"
		}
		i := strings.LastIndexByte(r, '>')
		if i < 0 {
			return BadCmd, "", "missing >"
		}
		return c, r[1:i], ""
	}
	switch verb {
	case "HELO":
		return HELO, rest, ""
	case "EHLO":
		return EHLO, rest, ""
	case "MAIL":
		return addr("FROM:", MAILFROM)
	case "RCPT":
		c, a, e := addr("TO:", RCPTTO)
		if e == "" && a == "" {
			return BadCmd, "", "null recipient"
		}
		return c, a, e
	case "DATA":
		if rest != "" {
			return BadCmd, "", "unexpected argument"
		}
		return DATA, "", ""
	case "QUIT":
		return QUIT, "", ""
	case "RSET":
		return RSET, "", ""
	case "NOOP":
		return NOOP, "", ""
	case "VRFY":
		return VRFY, rest, ""
	case "EXPN":
		return EXPN, rest, ""
	case "HELP":
		return HELP, rest, ""
	case "AUTH":
		return AUTH, rest, ""
	case "STARTTLS":
		return STARTTLS, "", ""
	}
	return BadCmd, "", "unrecognized command"
}

func (c *Conn) abort(err error) EventInfo {
	if err != io.EOF {
		c.log("!", "abort: %v", err)
	} else {
		c.log("!", "abort: EOF")
	}
	c.state = sAbort
	return c.event(ABORT, noCmd, err.Error())
}

// Next answers the previous event if the caller has not, then waits for the
// next one.
func (c *Conn) Next() EventInfo {
	if c.step != nil && c.step.EndSeq == 0 {
		c.step.EndSeq = world.W.Sim.Next()
	}
	if c.pending && !c.replied {
		c.accept("implicit")
	}
	c.step = nil
	c.pending = false
	if c.state == sStartup {
		c.state = sInitial
		if c.sess != nil {
			e := world.W.Log("next", c.sess.Raddr, "", c.sess.ID)
			c.sess.NextSeq, c.sess.TNext = e.Seq, e.T
			c.noteTLS()
		}
		msg := fmt.Sprintf("%s %s", c.Config.LocalName, c.Config.SftName)
		if c.Config.SayTime {
			msg += " " + time.Now().Format(time.RFC1123Z)
		}
		if c.Config.Announce != "" {
			msg += "\n" + c.Config.Announce
		}
		c.reply(220, msg)
		if c.state != sAbort && c.sess != nil {
			c.sess.Greeted = true
		}
	}
	for {
		switch c.state {
		case sAbort:
			return c.event(ABORT, noCmd, "aborted")
		case sQuit:
			return c.event(DONE, noCmd, "")
		case sData:
			d, err := c.readData()
			if err != nil {
				return c.abort(err)
			}
			c.state, c.nstate = sPostData, sHelo
			c.curcmd = DATA
			c.replied, c.pending = false, true
			return c.event(GOTDATA, DATA, d)
		}
		line, err := c.readLine()
		if err != nil {
			return c.abort(err)
		}
		cmd, arg, perr := parse(line)
		if cmd == BadCmd {
			c.badcmds++
			if c.badcmds > c.limits.BadCmds {
				c.reply(554, "Too many bad commands")
				c.state = sAbort
				continue
			}
			c.reply(501, "Bad: "+perr)
			continue
		}
		next := -1
		switch cmd {
		case HELO, EHLO:
			if c.state == sInitial || c.state == sHelo {
				next = sHelo
			}
		case MAILFROM:
			if c.state == sHelo {
				next = sMail
			}
		case RCPTTO:
			if c.state == sMail || c.state == sRcpt {
				next = sRcpt
			}
		case DATA:
			if c.state == sRcpt {
				next = sData
			}
		case QUIT:
			c.reply(221, "Goodbye")
			c.state = sQuit
			continue
		case RSET:
			if c.state > sHelo {
				c.state = sHelo
			}
			c.reply(250, "Okay")
			continue
		case NOOP:
			c.reply(250, "Okay")
			continue
		case HELP:
			c.reply(214, "No help here")
			continue
		case STARTTLS:
			if c.Config.TLSConfig == nil || c.TLSOn || c.state == sInitial {
				c.reply(502, "Not supported")
				continue
			}
			c.reply(220, "Ready to start TLS")
			if c.state == sAbort {
				continue
			}
			if err := c.handshake(); err != nil {
				c.log("!", "TLS setup failed: %v", err)
				c.state = sAbort
				if c.sess != nil {
					c.sess.TLSFails++
				}
				return c.event(TLSERROR, noCmd, err.Error())
			}
			c.log("!", "TLS negotiated with cipher 0x%04x", c.TLSState.CipherSuite)
			c.state = sInitial
			continue
		default:
			c.reply(502, "Not supported")
			continue
		}
		if next < 0 {
			c.reply(503, "Out of sequence command")
			continue
		}
		c.nstate = next
		c.curcmd = cmd
		c.replied, c.pending = false, true
		return c.event(COMMAND, cmd, arg)
	}
}

// handshake reads the client's statement of how the handshake went:
// "SIMTLS ok|fail sni=NAME cert=NAME ver=HEX cipher=HEX".
func (c *Conn) handshake() error {
	if c.sess != nil {
		c.sess.HandAuth = int(c.Config.TLSConfig.ClientAuth)
	}
	c.conn.SetReadDeadline(time.Now().Add(c.limits.TLSSetup))
	l, err := c.rdr.ReadString('\n')
	if err != nil {
		return err
	}
	f := strings.Fields(l)
	if len(f) < 2 || f[0] != "SIMTLS" {
		return errors.New("tls: first record does not look like a TLS handshake")
	}
	if f[1] != "ok" {
		return errors.New("tls: " + f[1])
	}
	st := tls.ConnectionState{HandshakeComplete: true, Version: 0x0303, CipherSuite: 0xc02f}
	for _, kv := range f[2:] {
		i := strings.IndexByte(kv, '=')
		if i < 0 {
			return errors.New("tls: garbage")
		}
		k, v := kv[:i], kv[i+1:]
		switch k {
		case "sni":
			st.ServerName = v
		case "ver":
			n, _ := strconv.ParseUint(v, 16, 16)
			st.Version = uint16(n)
		case "cipher":
			n, _ := strconv.ParseUint(v, 16, 16)
			st.CipherSuite = uint16(n)
		case "cert":
			if v != "" && c.Config.TLSConfig.ClientAuth != tls.NoClientCert {
				for _, n := range strings.Split(v, "+") { // the client's own first
					st.PeerCertificates = append(st.PeerCertificates, world.Cert(n))
				}
			}
		}
	}
	c.TLSOn = true
	c.TLSState = st
	if c.sess != nil {
		c.sess.TLS = &st
		world.W.Log("tlson", c.sess.Raddr, st.ServerName, c.sess.ID)
	}
	return nil
}
