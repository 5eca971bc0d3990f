// Package os replaces the parts of os that reach the machine.
package os

import (
	"fmt"
	"io"
	ros "os"
	"sort"
	"strings"
	"vsim/rt"
	"vsim/world"
)

type File = world.File

var (
	Stdout = &File{}
	Stderr = &File{}
	Stdin  = &File{}
	Args   []string
)

// Boot prepares the process-wide variables of a new simulated process.
func boot(args []string) {
	Stdout = world.W.FS.Std("<stdout>", &world.W.Stdout)
	Stderr = world.W.FS.Std("<stderr>", &world.W.Stderr)
	Stdin = world.W.FS.Std("<stdin>", nil)
	Args = args
}

func init() { world.BootOS = boot }

func Open(name string) (*File, error) { return world.W.FS.OpenFile(name, ros.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return world.W.FS.OpenFile(name, ros.O_RDWR|ros.O_CREATE|ros.O_TRUNC, 0666)
}
func OpenFile(name string, flag int, perm ros.FileMode) (*File, error) {
	return world.W.FS.OpenFile(name, flag, perm)
}
func Remove(name string) error                   { return world.W.FS.Remove(name) }
func RemoveAll(name string) error                { return world.W.FS.RemoveAll(name) }
func Rename(a, b string) error                   { return world.W.FS.Rename(a, b) }
func Link(a, b string) error                     { return world.W.FS.Link(a, b) }
func Stat(name string) (ros.FileInfo, error)     { return world.W.FS.Stat("stat", name) }
func Lstat(name string) (ros.FileInfo, error)    { return world.W.FS.Stat("lstat", name) }
func Mkdir(name string, perm ros.FileMode) error { return world.W.FS.MkdirCall(name, false) }
func MkdirAll(name string, perm ros.FileMode) error {
	return world.W.FS.MkdirCall(name, true)
}
func ReadDir(name string) ([]ros.DirEntry, error) { return world.W.FS.ReadDir(name) }
func Symlink(a, b string) error {
	return &ros.LinkError{Op: "symlink", Old: a, New: b, Err: ros.ErrPermission}
}
func Chmod(name string, m ros.FileMode) error { return nil }
func Truncate(name string, sz int64) error {
	f, err := OpenFile(name, ros.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(sz)
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, data []byte, perm ros.FileMode) error {
	f, err := OpenFile(name, ros.O_WRONLY|ros.O_CREATE|ros.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func CreateTemp(dir, pat string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	for i := 0; i < 1000; i++ {
		world.W.NTemp++
		n := fmt.Sprintf("%08d", rt.Hash(world.W.Seed, "temp", world.W.NTemp)%100000000)
		nm := pat + n
		if j := strings.LastIndex(pat, "*"); j >= 0 {
			nm = pat[:j] + n + pat[j+1:]
		}
		f, err := OpenFile(dir+"/"+nm, ros.O_RDWR|ros.O_CREATE|ros.O_EXCL, 0600)
		if ros.IsExist(err) {
			continue
		}
		return f, err
	}
	return nil, ros.ErrExist
}

func Getpid() int {
	if g := rt.Cur(); g != nil && g.Proc != nil {
		return g.Proc.Pid
	}
	return 1
}
func Getppid() int                      { return 1 }
func Getuid() int                       { return 1000 }
func Geteuid() int                      { return 1000 }
func Getgid() int                       { return 1000 }
func Exit(code int)                     { rt.ExitProc(code) }
func Hostname() (string, error)         { return "sink.example.org", nil }
func Getwd() (string, error)            { return "/cwd", nil }
func Chdir(string) error                { return nil }
func TempDir() string                   { return "/tmp" }
func Getenv(k string) string            { return world.W.Env[k] }
func Setenv(k, v string) error          { world.W.Env[k] = v; return nil }
func Unsetenv(k string) error           { delete(world.W.Env, k); return nil }
func LookupEnv(k string) (string, bool) { v, ok := world.W.Env[k]; return v, ok }
func Environ() []string {
	var l []string
	for k, v := range world.W.Env {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return l
}
