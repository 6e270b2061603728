// Package os is the simulated os.
package os

import (
	"fmt"
	"io"
	"io/fs"
	"strings"

	std "os"

	"github.com/iomz/gosstrak/verif/simrt"
)

type File = simrt.File

var (
	Stdin  = simrt.Std(0)
	Stdout = simrt.Std(1)
	Stderr = simrt.Std(2)
)

// Args is what every instrumented reading of os.Args becomes.
func Args_() *[]string {
	p := simrt.Cur()
	if p == nil {
		return &noArgs
	}
	return &p.Args
}

var noArgs = []string{"program"}

func Exit(code int) { simrt.ExitProc(code, "os.Exit") }

func Open(name string) (*File, error)   { return simrt.OpenFile(name, std.O_RDONLY, 0) }
func Create(name string) (*File, error) { return simrt.OpenFile(name, std.O_RDWR|std.O_CREATE|std.O_TRUNC, 0666) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return simrt.OpenFile(name, flag, perm)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, std.O_WRONLY|std.O_CREATE|std.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (FileInfo, error)             { return simrt.Stat(name) }
func Lstat(name string) (FileInfo, error)            { return simrt.Stat(name) }
func Mkdir(name string, perm FileMode) error         { return simrt.Mkdir(name, false) }
func MkdirAll(name string, perm FileMode) error      { return simrt.Mkdir(name, true) }
func Remove(name string) error                       { return simrt.Remove(name) }
func RemoveAll(name string) error                    { return simrt.RemoveAll(name) }
func Rename(a, b string) error                       { return simrt.Rename(a, b) }
func ReadDir(name string) ([]DirEntry, error)        { return simrt.ReadDir(name) }
func Chmod(name string, m FileMode) error            { return nil }
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, std.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	r := fmt.Sprintf("%06d", simrt.Choose(1000000))
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return dir + "/" + pattern[:i] + r + pattern[i+1:]
	}
	return dir + "/" + pattern + r
}

func CreateTemp(dir, pattern string) (*File, error) {
	for {
		f, err := OpenFile(tempName(dir, pattern), std.O_RDWR|std.O_CREATE|std.O_EXCL, 0600)
		if err != nil && IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func TempDir() string               { return "/tmp" }
func Getwd() (string, error)        { return "/work", nil }
func Chdir(string) error            { return nil }
func Getenv(string) string          { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Environ() []string             { return nil }
func Setenv(k, v string) error      { return nil }
func Unsetenv(k string) error       { return nil }
func Hostname() (string, error)     { return "sim", nil }
func Getpid() int                   { return 4242 }
func UserHomeDir() (string, error)  { return "/work", nil }
func UserCacheDir() (string, error) { return "/work/.cache", nil }
func Executable() (string, error)   { return "/work/program", nil }

var _ fs.FileInfo
