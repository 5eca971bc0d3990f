package world

import (
	"crypto/tls"
	"time"
)

// Step is one event the SMTP library handed to the daemon and what the
// daemon answered.
type Step struct {
	Seq0, Seq1 int
	T0, T1     time.Duration
	What       string // COMMAND, GOTDATA, DONE, ABORT, TLSERROR
	Cmd        string
	Arg        string
	Kind       string // accept, acceptmsg, acceptdata, reject, rejectmsg, rejectdata, tempfail, tempfailmsg, implicit
	Code       int
	Lines      []string
	Sent       bool // written to the socket without error
	TLSOn      bool
	EndSeq     int  // Next() called again (or the session ended)
	Offer      bool // TLS on offer in the reply to EHLO
	Auth       int  // client certificate policy then
}

// Session is the recorded history of one connection.
type Session struct {
	ID         int
	w          *World
	Conn       *Conn
	Client     int
	Raddr      string
	Laddr      string
	Pid        int
	ConnSeq    int
	TConn      time.Duration
	AcceptSeq  int
	TAccept    time.Duration
	NewSeq     int // NewConn called
	TNew       time.Duration
	NextSeq    int // first Next call
	TNext      time.Duration
	CloseSeq   int
	TClose     time.Duration
	Died       bool // the daemon died under it
	Inflight   bool
	Refused    bool
	LocalName  string
	Delay      time.Duration
	TLSCerts   []string // names offered, nil if TLS not offered
	ClientAuth tls.ClientAuthType
	TLSSeen    []bool   // TLS availability at each EHLO
	Cert0      []string // what NewConn was given
	Auth0      tls.ClientAuthType
	HandAuth   int // client certificate policy at the handshake, -1 none
	HasLog     bool
	LogLines   []LogLine
	Steps      []*Step
	TLS        *tls.ConnectionState
	TLSFails   int
	Greeted    bool
}

// LogLine is one line the SMTP library wrote to the session's logger.
type LogLine struct {
	Seq0, Seq1 int
	Text       string
	Err        bool
}
