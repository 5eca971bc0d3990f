// Package tls reads certificates from the simulated file system.
package tls

import (
	rtls "crypto/tls"
	sos "vsim/shim/os"
	"vsim/world"
)

func LoadX509KeyPair(cf, kf string) (rtls.Certificate, error) {
	c, err := sos.ReadFile(cf)
	if err != nil {
		return rtls.Certificate{}, err
	}
	k, err := sos.ReadFile(kf)
	if err != nil {
		return rtls.Certificate{}, err
	}
	return world.KeyPair(c, k)
}
