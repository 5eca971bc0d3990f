// Package filepath replaces the functions of path/filepath that touch files.
package filepath

import (
	"path"
	"sort"
	"vsim/world"
)

func Glob(pat string) ([]string, error) {
	var l []string
	for _, n := range world.W.FS.List(path.Dir(pat)) {
		if ok, err := path.Match(path.Base(pat), n); err != nil {
			return nil, err
		} else if ok {
			l = append(l, path.Join(path.Dir(pat), n))
		}
	}
	sort.Strings(l)
	return l, nil
}
func Abs(p string) (string, error) {
	if p != "" && p[0] == '/' {
		return path.Clean(p), nil
	}
	return path.Join("/cwd", p), nil
}
func EvalSymlinks(p string) (string, error) { return path.Clean(p), nil }
