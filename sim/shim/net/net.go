// Package net replaces the parts of net that reach the network.
package net

import (
	"context"
	"errors"
	rnet "net"
	"net/netip"
	"time"
	"vsim/world"
)

func Listen(network, addr string) (rnet.Listener, error) { return world.W.Net.Listen(network, addr) }

func LookupIP(host string) ([]rnet.IP, error)  { return world.W.DNS.LookupIP(host) }
func LookupMX(name string) ([]*rnet.MX, error) { return world.W.DNS.LookupMX(name) }
func LookupAddr(a string) ([]string, error)    { return world.W.DNS.LookupAddr(a) }
func LookupTXT(name string) ([]string, error)  { return world.W.DNS.LookupTXT(name) }
func LookupNS(name string) ([]*rnet.NS, error) {
	return nil, &rnet.DNSError{Err: "no such host", Name: name, IsNotFound: true}
}
func LookupCNAME(name string) (string, error) { return world.Norm(name), nil }
func LookupHost(host string) ([]string, error) {
	ips, err := world.W.DNS.LookupIP(host)
	var l []string
	for _, i := range ips {
		l = append(l, i.String())
	}
	return l, err
}
func Dial(network, addr string) (rnet.Conn, error) {
	return nil, errors.New("network is unreachable")
}
func DialTimeout(network, addr string, d time.Duration) (rnet.Conn, error) {
	return nil, errors.New("network is unreachable")
}

// Resolver stands in for net.Resolver.
type Resolver struct {
	PreferGo     bool
	StrictErrors bool
	Dial         func(ctx context.Context, network, address string) (rnet.Conn, error)
}

var DefaultResolver = &Resolver{}

func (*Resolver) LookupAddr(ctx context.Context, a string) (l []string, err error) {
	world.W.DNS.Until(ctx, func() { l, err = LookupAddr(a) })
	return
}
func (*Resolver) LookupMX(ctx context.Context, n string) (l []*rnet.MX, err error) {
	world.W.DNS.Until(ctx, func() { l, err = LookupMX(n) })
	return
}
func (*Resolver) LookupTXT(ctx context.Context, n string) (l []string, err error) {
	world.W.DNS.Until(ctx, func() { l, err = LookupTXT(n) })
	return
}
func (*Resolver) LookupHost(ctx context.Context, n string) (l []string, err error) {
	world.W.DNS.Until(ctx, func() { l, err = LookupHost(n) })
	return
}
func (*Resolver) LookupIP(ctx context.Context, network, n string) (l []rnet.IP, err error) {
	world.W.DNS.Until(ctx, func() { l, err = LookupIP(n) })
	if network != "ip" && err == nil {
		var o []rnet.IP
		for _, ip := range l {
			if (ip.To4() != nil) == (network == "ip4") {
				o = append(o, ip)
			}
		}
		if l = o; len(l) == 0 {
			err = &rnet.DNSError{Err: "no such host", Name: n, IsNotFound: true}
		}
	}
	return
}
func (r *Resolver) LookupIPAddr(ctx context.Context, n string) ([]rnet.IPAddr, error) {
	ips, err := r.LookupIP(ctx, "ip", n)
	var l []rnet.IPAddr
	for _, i := range ips {
		l = append(l, rnet.IPAddr{IP: i})
	}
	return l, err
}
func (r *Resolver) LookupNetIP(ctx context.Context, network, n string) ([]netip.Addr, error) {
	ips, err := r.LookupIP(ctx, network, n)
	var l []netip.Addr
	for _, i := range ips {
		a, _ := netip.AddrFromSlice(i)
		l = append(l, a)
	}
	return l, err
}
func (*Resolver) LookupNS(ctx context.Context, n string) ([]*rnet.NS, error) { return LookupNS(n) }
func (*Resolver) LookupCNAME(ctx context.Context, n string) (string, error)  { return LookupCNAME(n) }
