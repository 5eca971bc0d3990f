// Package http replaces the monitoring server: it listens, may fail to, and
// once it serves it never returns.
package http

import (
	rnet "net"
	rhttp "net/http"
	"vsim/rt"
	"vsim/world"
)

func ListenAndServe(addr string, h rhttp.Handler) error {
	l, err := world.W.Net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	return Serve(l, h)
}

func Serve(l rnet.Listener, h rhttp.Handler) error {
	rt.Park("http")
	return nil
}
