// Package log is the simulated log.
package log

import (
	"fmt"
	"io"

	std "log"

	"github.com/iomz/gosstrak/verif/simrt"
)

// Logger mirrors log.Logger.
type Logger struct {
	prefix string
	flags  int
	w      io.Writer
}

var deflt = &Logger{flags: std.LstdFlags}

func (l *Logger) line(s string) {
	if l.w != nil {
		if len(s) == 0 || s[len(s)-1] != '\n' {
			s += "\n"
		}
		io.WriteString(l.w, l.prefix+s)
		return
	}
	simrt.LogLine(l.prefix + s)
}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{prefix, flag, w} }
func Default() *Logger                                 { return deflt }

func (l *Logger) Print(v ...any)            { l.line(fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...any) { l.line(fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...any)          { l.line(fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...any)            { s := fmt.Sprint(v...); l.line(s); simrt.ExitProc(1, "log.Fatal: "+s) }
func (l *Logger) Fatalf(f string, v ...any) { l.Fatal(fmt.Sprintf(f, v...)) }
func (l *Logger) Fatalln(v ...any)          { l.Fatal(fmt.Sprintln(v...)) }
func (l *Logger) Panic(v ...any)            { s := fmt.Sprint(v...); l.line(s); panic(s) }
func (l *Logger) Panicf(f string, v ...any) { l.Panic(fmt.Sprintf(f, v...)) }
func (l *Logger) Panicln(v ...any)          { l.Panic(fmt.Sprintln(v...)) }
func (l *Logger) Output(n int, s string) error { l.line(s); return nil }
func (l *Logger) SetFlags(n int)            { l.flags = n }
func (l *Logger) Flags() int                { return l.flags }
func (l *Logger) SetPrefix(p string)        { l.prefix = p }
func (l *Logger) Prefix() string            { return l.prefix }
func (l *Logger) SetOutput(w io.Writer)     { l.w = w }
func (l *Logger) Writer() io.Writer         { return l.w }

func Print(v ...any)            { deflt.Print(v...) }
func Printf(f string, v ...any) { deflt.Printf(f, v...) }
func Println(v ...any)          { deflt.Println(v...) }
func Fatal(v ...any)            { deflt.Fatal(v...) }
func Fatalf(f string, v ...any) { deflt.Fatalf(f, v...) }
func Fatalln(v ...any)          { deflt.Fatalln(v...) }
func Panic(v ...any)            { deflt.Panic(v...) }
func Panicf(f string, v ...any) { deflt.Panicf(f, v...) }
func Panicln(v ...any)          { deflt.Panicln(v...) }
func Output(n int, s string) error { return deflt.Output(n, s) }
// the default logger is shared by all simulated processes of all runs, so its
// settings are not kept
func SetFlags(n int)        {}
func Flags() int            { return std.LstdFlags }
func SetPrefix(p string)    {}
func Prefix() string        { return "" }
func SetOutput(w io.Writer) {}
func Writer() io.Writer     { return simrt.Std(2) }
