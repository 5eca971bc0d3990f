package harness

import (
	"crypto/x509"
	"sort"

	"vsim/world"
)

type worldSession = world.Session
type wfault = world.Fault

func sortStrings(l []string) { sort.Strings(l) }

func leafName(der []byte) string {
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic("judge: " + err.Error())
	}
	return x.Subject.CommonName
}
