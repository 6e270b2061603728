// Package fmt is the simulated fmt (console output only).
package fmt

import (
	std "fmt"

	"github.com/iomz/gosstrak/verif/simrt"
)

func Print(a ...any) (int, error)            { return out(std.Sprint(a...)) }
func Printf(f string, a ...any) (int, error) { return out(std.Sprintf(f, a...)) }
func Println(a ...any) (int, error)          { return out(std.Sprintln(a...)) }

func out(s string) (int, error) {
	simrt.Console(false, []byte(s))
	return len(s), nil
}
