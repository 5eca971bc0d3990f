package world

import (
	"crypto/tls"
	"crypto/x509"
	"embed"
	"encoding/pem"
	"os"
	"sync"
)

var (
	kpMu    sync.Mutex
	kpCache = map[string]tls.Certificate{}
)

// KeyPair is tls.X509KeyPair with a cache: parsing is pure.
func KeyPair(c, k []byte) (tls.Certificate, error) {
	key := string(c) + "\x00" + string(k)
	kpMu.Lock()
	defer kpMu.Unlock()
	if v, ok := kpCache[key]; ok {
		return v, nil
	}
	v, err := tls.X509KeyPair(c, k)
	if err == nil {
		kpCache[key] = v
	}
	return v, err
}

//go:embed pem
var pemFS embed.FS

// PEM returns an embedded certificate or key file.
func PEM(name string) []byte {
	b, err := pemFS.ReadFile("pem/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

// The only certificate authority that the daemon's machine trusts is ours.
func init() {
	f, err := os.CreateTemp("", "vsim-ca")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	f.Write(PEM("ca.crt"))
	f.Close()
	os.Setenv("SSL_CERT_FILE", f.Name())
	os.Setenv("SSL_CERT_DIR", f.Name()+".none")
	if _, err := x509.SystemCertPool(); err != nil { // this reads it
		panic(err)
	}
}

var certCache = map[string]*x509.Certificate{}

// Cert returns an embedded certificate, parsed.
func Cert(name string) *x509.Certificate {
	if c := certCache[name]; c != nil {
		return c
	}
	b, _ := pem.Decode(PEM(name + ".crt"))
	c, err := x509.ParseCertificate(b.Bytes)
	if err != nil {
		panic(err)
	}
	certCache[name] = c
	return c
}
