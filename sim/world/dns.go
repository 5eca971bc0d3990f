package world

import (
	"context"
	"net"
	"sort"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
)

// MX is one mail exchanger record.
type MX struct {
	Host string `json:"host"`
	Pref uint16 `json:"pref"`
}

// Zone is the DNS data of a run. Names are lower case with a final dot.
type Zone struct {
	PTR  map[string][]string `json:"ptr,omitempty"`
	A    map[string][]string `json:"a,omitempty"`
	MX   map[string][]MX     `json:"mx,omitempty"`
	TXT  map[string][]string `json:"txt,omitempty"`
	Fail map[string]string   `json:"fail,omitempty"` // "A name." -> kind, for good
	Slow map[string]int      `json:"slow,omitempty"` // name -> ms
}

// DNSAnswer is one answer given to the daemon.
type DNSAnswer struct {
	Seq  int
	Kind string // A, MX, PTR, TXT
	Name string
	Res  string // ok, nx, temp
	N    int
}

type DNS struct {
	w    *World
	Zone Zone
	till map[*rt.G]time.Time
}

// Until makes the lookups that f does fail at the deadline of ctx, if any.
func (d *DNS) Until(ctx context.Context, f func()) {
	if t, ok := ctx.Deadline(); ok {
		g := rt.Cur()
		d.till[g] = t
		defer delete(d.till, g)
	}
	f()
}

func newDNS(w *World) *DNS { return &DNS{w: w, till: map[*rt.G]time.Time{}} }

// Norm normalises a DNS name.
func Norm(n string) string {
	n = strings.ToLower(n)
	if n == "" {
		return n
	}
	if n[len(n)-1] != '.' {
		n += "."
	}
	return n
}

func (d *DNS) query(kind, name string) error {
	if _, inert := caller(); inert {
		return &net.DNSError{Err: "operation was canceled", Name: name}
	}
	rt.Gate("dns." + kind)
	if ms := d.Zone.Slow[name] + d.Zone.Slow[kind+" "+name]; ms > 0 {
		wait := time.Duration(ms) * time.Millisecond
		if t, ok := d.till[rt.Cur()]; ok && time.Until(t) < wait {
			rt.Sleep(time.Until(t))
			d.saw(kind, name, "temp", 0)
			return &net.DNSError{Err: "i/o timeout", Name: name, Server: "127.0.0.53:53", IsTimeout: true, IsTemporary: true}
		}
		rt.Sleep(wait)
	}
	fail := d.Zone.Fail[kind+" "+name]
	if ft := d.w.fault("dns."+kind, name); ft != nil && ft.Err != "" {
		fail = ft.Err
	}
	switch fail {
	case "":
		return nil
	case "SERVFAIL":
		d.saw(kind, name, "temp", 0)
		return &net.DNSError{Err: "server misbehaving", Name: name, Server: "127.0.0.53:53", IsTemporary: true}
	case "SERVFAIL0":
		// what older resolvers return
		d.saw(kind, name, "temp", 0)
		return &net.DNSError{Err: "server misbehaving", Name: name, Server: "127.0.0.53:53"}
	case "TIMEOUT":
		d.saw(kind, name, "temp", 0)
		return &net.DNSError{Err: "i/o timeout", Name: name, Server: "127.0.0.53:53", IsTimeout: true, IsTemporary: true}
	case "NX":
		d.saw(kind, name, "nx", 0)
		return d.nx(name)
	default:
		d.saw(kind, name, "temp", 0)
		return &net.DNSError{Err: "dial udp 127.0.0.53:53: " + syscall.EMFILE.Error(), Name: name, IsTemporary: true}
	}
}

func (d *DNS) nx(name string) error {
	return &net.DNSError{Err: "no such host", Name: name, Server: "127.0.0.53:53", IsNotFound: true}
}

func (d *DNS) saw(kind, name, res string, n int) {
	e := d.w.Log("dns", kind+" "+name, res, n)
	d.w.DNSSeen = append(d.w.DNSSeen, DNSAnswer{e.Seq, kind, name, res, n})
}

// LookupIP is an address lookup by the daemon.
func (d *DNS) LookupIP(host string) ([]net.IP, error) {
	if ip := net.ParseIP(host); ip != nil {
		return []net.IP{ip}, nil
	}
	if !ValidName(host) {
		return nil, d.nx(host)
	}
	n := Norm(host)
	if err := d.query("A", n); err != nil {
		return nil, err
	}
	l := d.Zone.A[n]
	if len(l) == 0 {
		d.saw("A", n, "nx", 0)
		return nil, d.nx(host)
	}
	d.saw("A", n, "ok", len(l))
	var res []net.IP
	r := d.w.Rand("rotate", n, d.w.Sim.Seq)
	off := r.N(len(l))
	for i := range l {
		res = append(res, net.ParseIP(l[(i+off)%len(l)]))
	}
	return res, nil
}

// LookupMX is a mail exchanger lookup.
func (d *DNS) LookupMX(host string) ([]*net.MX, error) {
	if !ValidName(host) {
		return nil, d.nx(host)
	}
	n := Norm(host)
	if err := d.query("MX", n); err != nil {
		return nil, err
	}
	l := d.Zone.MX[n]
	if len(l) == 0 {
		d.saw("MX", n, "nx", 0)
		return nil, d.nx(host)
	}
	d.saw("MX", n, "ok", len(l))
	var res []*net.MX
	for _, m := range l {
		if ValidName(m.Host) {
			res = append(res, &net.MX{Host: m.Host, Pref: m.Pref})
		}
	}
	r := d.w.Rand("rotate", n, d.w.Sim.Seq)
	for i := len(res) - 1; i > 0; i-- {
		j := r.N(i + 1)
		res[i], res[j] = res[j], res[i]
	}
	sort.SliceStable(res, func(i, j int) bool { return res[i].Pref < res[j].Pref })
	if len(res) < len(l) {
		return res, malformed(host)
	}
	return res, nil
}

// LookupAddr is a reverse lookup.
func (d *DNS) LookupAddr(ip string) ([]string, error) {
	pip := ip
	if i := strings.IndexByte(pip, '%'); i >= 0 {
		pip = pip[:i]
	}
	if net.ParseIP(pip) == nil {
		return nil, &net.DNSError{Err: "unrecognized address", Name: ip}
	}
	if err := d.query("PTR", ip); err != nil {
		return nil, err
	}
	l := d.Zone.PTR[ip]
	if len(l) == 0 {
		d.saw("PTR", ip, "nx", 0)
		return nil, d.nx(ip)
	}
	d.saw("PTR", ip, "ok", len(l))
	r := d.w.Rand("rotate", ip, d.w.Sim.Seq)
	off := r.N(len(l))
	var res []string
	for i := range l {
		if nm := l[(i+off)%len(l)]; ValidName(nm) {
			res = append(res, nm)
		}
	}
	if len(res) < len(l) {
		return res, malformed(ip)
	}
	return res, nil
}

// malformed is the error that net returns next to the usable records of an
// answer with malformed names.
func malformed(name string) error {
	return &net.DNSError{Err: "DNS response contained records which contain invalid names", Name: name}
}

// ValidName is net's idea of a well-formed domain name (isDomainName).
func ValidName(s string) bool {
	if s == "." {
		return true
	}
	l := len(s)
	if l == 0 || l > 254 || l == 254 && s[l-1] != '.' {
		return false
	}
	last := byte('.')
	nonNumeric := false
	partlen := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		default:
			return false
		case 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_':
			nonNumeric = true
			partlen++
		case '0' <= c && c <= '9':
			partlen++
		case c == '-':
			if last == '.' {
				return false
			}
			partlen++
			nonNumeric = true
		case c == '.':
			if last == '.' || last == '-' {
				return false
			}
			if partlen > 63 || partlen == 0 {
				return false
			}
			partlen = 0
		}
		last = c
	}
	if last == '-' || partlen > 63 {
		return false
	}
	return nonNumeric
}

// LookupTXT is a TXT lookup.
func (d *DNS) LookupTXT(host string) ([]string, error) {
	if !ValidName(host) {
		return nil, d.nx(host)
	}
	n := Norm(host)
	if err := d.query("TXT", n); err != nil {
		return nil, err
	}
	l := d.Zone.TXT[n]
	if len(l) == 0 {
		d.saw("TXT", n, "nx", 0)
		return nil, d.nx(host)
	}
	d.saw("TXT", n, "ok", len(l))
	return append([]string(nil), l...), nil
}
