// Package ioutil replaces io/ioutil's file functions.
package ioutil

import (
	ros "os"
	sos "vsim/shim/os"
	"vsim/world"
)

func ReadFile(name string) ([]byte, error) { return sos.ReadFile(name) }
func WriteFile(name string, data []byte, perm ros.FileMode) error {
	return sos.WriteFile(name, data, perm)
}
func TempFile(dir, pat string) (*world.File, error) { return sos.CreateTemp(dir, pat) }
