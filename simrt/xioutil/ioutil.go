// Package ioutil is the simulated io/ioutil.
package ioutil

import (
	"io/fs"

	"github.com/iomz/gosstrak/verif/simrt"
	xos "github.com/iomz/gosstrak/verif/simrt/xos"
)

func ReadFile(name string) ([]byte, error)                        { return xos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error  { return xos.WriteFile(name, data, perm) }
func TempFile(dir, pattern string) (*simrt.File, error)           { return xos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)                 { return xos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := xos.ReadDir(name)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
