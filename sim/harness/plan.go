// Package harness generates simulated runs of the daemon, executes them,
// judges their histories and minimises failures.
package harness

import (
	"fmt"
	"strings"
	"time"

	"vsim/rt"
	"vsim/world"
)

// Flags is the daemon's command line.
type Flags struct {
	M          bool     `json:"M,omitempty"`
	S          bool     `json:"S,omitempty"`
	Force      bool     `json:"force,omitempty"`
	NoStd      bool     `json:"nostd,omitempty"`
	Pprof      bool     `json:"pprof,omitempty"`
	PprofAt    string   `json:"pprofat,omitempty"`
	PerIP      bool     `json:"perip,omitempty"`
	Helo       string   `json:"helo,omitempty"`
	Smtplog    string   `json:"smtplog,omitempty"`
	Dnlog      string   `json:"dnlog,omitempty"`
	Log        string   `json:"l,omitempty"`
	Dir        string   `json:"d,omitempty"`
	SaveHash   string   `json:"savehash,omitempty"`
	FromReject string   `json:"fromreject,omitempty"`
	ToAccept   string   `json:"toaccept,omitempty"`
	HeloReject string   `json:"heloreject,omitempty"`
	MinPhase   string   `json:"minphase,omitempty"`
	ConnCfg    string   `json:"conncfg,omitempty"`
	Certs      []string `json:"certs,omitempty"`
	Rules      []string `json:"rules,omitempty"`
	DnCount    int      `json:"dncount,omitempty"`
	DnDur      int      `json:"dndur,omitempty"` // seconds
	CertRaw    string   `json:"certraw,omitempty"`
	KeyRaw     string   `json:"keyraw,omitempty"`
	Raw        []string `json:"raw,omitempty"` // extra literal arguments
}

func certArgs(names []string) (string, string) {
	var c, k []string
	for _, n := range names {
		c = append(c, "/cfg/"+n+".crt")
		k = append(k, "/cfg/"+n+".key")
	}
	return strings.Join(c, ","), strings.Join(k, ",")
}

// Args renders the command line.
func (f *Flags) Args(listen []string) []string {
	a := []string{"sinksmtp"}
	b := func(on bool, n string) {
		if on {
			a = append(a, n)
		}
	}
	s := func(v, n string) {
		if v != "" {
			a = append(a, n, v)
		}
	}
	b(f.M, "-M")
	b(f.S, "-S")
	b(f.Force, "-force-receive")
	b(f.NoStd, "-nostdrules")
	b(f.PerIP, "-statsperip")
	if f.Pprof {
		at := f.PprofAt
		if at == "" {
			at = "127.0.0.1:6060"
		}
		s(at, "-pprof")
	}
	s(f.Helo, "-helo")
	s(f.Smtplog, "-smtplog")
	s(f.Dnlog, "-dnlog")
	s(f.Log, "-l")
	s(f.Dir, "-d")
	s(f.SaveHash, "-save-hash")
	s(f.FromReject, "-fromreject")
	s(f.ToAccept, "-toaccept")
	s(f.HeloReject, "-heloreject")
	if f.MinPhase == emptyPhase {
		a = append(a, "-minphase", "")
	} else {
		s(f.MinPhase, "-minphase")
	}
	s(f.ConnCfg, "-conncfg")
	if len(f.Certs) > 0 {
		c, k := certArgs(f.Certs)
		s(c, "-c")
		s(k, "-k")
	}
	s(f.CertRaw, "-c")
	s(f.KeyRaw, "-k")
	s(strings.Join(f.Rules, ","), "-r")
	if f.DnCount > 0 {
		s(fmt.Sprint(f.DnCount), "-dncount")
	}
	if f.DnDur > 0 {
		s(fmt.Sprintf("%ds", f.DnDur), "-dndur")
	}
	a = append(a, f.Raw...)
	return append(a, listen...)
}

// emptyPhase stands for an empty -minphase.
const emptyPhase = "<empty>"

// Act is one client action.
type Act struct {
	K string `json:"k"`           // cmd, msg, raw, sleep, tls, close, reset
	T string `json:"t,omitempty"` // text
	N int    `json:"n,omitempty"` // milliseconds
}

// Connection is one connection of a client.
type Connection struct {
	Wait int    `json:"wait,omitempty"` // ms before connecting
	From string `json:"from"`
	To   string `json:"to"`
	Acts []Act  `json:"acts"`
}

// Client makes connections one after the other.
type Client struct {
	Name  string       `json:"name"`
	Conns []Connection `json:"conns"`
}

// Op is one thing the operator or the machine does.
type Op struct {
	At   int    `json:"at"` // ms since the daemon was ready
	K    string `json:"k"`  // put, del, skew, crash, power
	Path string `json:"path,omitempty"`
	Text string `json:"text,omitempty"`
	Rule *RFile `json:"rule,omitempty"`
	N    int    `json:"n,omitempty"`    // skew in seconds
	Keep bool   `json:"keep,omitempty"` // the file keeps its modification time
}

// File is an initial file.
type File struct {
	Path string `json:"path"`
	Text string `json:"text,omitempty"`
	Rule *RFile `json:"rule,omitempty"`
	Cert string `json:"cert,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
}

// Plan is everything about a run; a run is a pure function of its plan and
// the code under test.
type Plan struct {
	Prop    string         `json:"prop"`
	Seed    uint64         `json:"seed"`
	Sched   rt.Sched       `json:"sched"`
	Flags   Flags          `json:"flags"`
	Listen  []string       `json:"listen"`
	Zone    world.Zone     `json:"zone"`
	Zone2   *world.Zone    `json:"zone2,omitempty"` // DNS as it is for the late clients
	Files   []File         `json:"files,omitempty"`
	Clients []Client       `json:"clients"`
	Late    []Client       `json:"late,omitempty"` // run after everything else
	Ops     []Op           `json:"ops,omitempty"`
	Faults  []*world.Fault `json:"faults,omitempty"`
	MaxFD   int            `json:"maxfd,omitempty"`
	DirMode string         `json:"dirmode,omitempty"`
	NoBoot  bool           `json:"noboot,omitempty"`  // the daemon is expected not to come up
	Eager   bool           `json:"eager,omitempty"`   // clients do not wait until all is up
	Calm    bool           `json:"calm,omitempty"`    // faults stop before the late clients
	EndPow  bool           `json:"endpow,omitempty"`  // power loss at the end
	Stats   bool           `json:"stats,omitempty"`   // read the counters at the end
	SamePid bool           `json:"samepid,omitempty"` // every life of the daemon has the same process ID
	Reboot  int            `json:"reboot,omitempty"`  // ms until a dead daemon is restarted
}

func (f *File) text() string {
	switch {
	case f.Rule != nil:
		return f.Rule.Text()
	case f.Cert != "":
		return string(world.PEM(f.Cert))
	}
	return f.Text
}

func (o *Op) text() string {
	if o.Rule != nil {
		return o.Rule.Text()
	}
	return o.Text
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }
