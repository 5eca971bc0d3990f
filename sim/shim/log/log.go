// Package log replaces the logging package: what it locks is simulated, and
// the standard logger writes to the simulated standard error.
package log

import (
	"fmt"
	"io"
	rlog "log"
	"strings"

	"vsim/shim/os"
	"vsim/shim/sync"
	"vsim/shim/time"
)

// Logger is a log.Logger.
type Logger struct {
	mu     sync.Mutex
	prefix string
	flag   int
	out    io.Writer
}

var std = &Logger{flag: rlog.LstdFlags}

// Reset brings the standard logger back for a new process.
func Reset() { std = &Logger{flag: rlog.LstdFlags} }

func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{out: out, prefix: prefix, flag: flag}
}
func Default() *Logger { return std }

func (l *Logger) Output(depth int, s string) error {
	var b strings.Builder
	if l.flag&rlog.Lmsgprefix == 0 {
		b.WriteString(l.prefix)
	}
	t := time.Now()
	if l.flag&rlog.LUTC != 0 {
		t = t.UTC()
	}
	if l.flag&rlog.Ldate != 0 {
		b.WriteString(t.Format("2006/01/02 "))
	}
	if l.flag&rlog.Lmicroseconds != 0 {
		b.WriteString(t.Format("15:04:05.000000 "))
	} else if l.flag&rlog.Ltime != 0 {
		b.WriteString(t.Format("15:04:05 "))
	}
	if l.flag&rlog.Lmsgprefix != 0 {
		b.WriteString(l.prefix)
	}
	b.WriteString(s)
	if !strings.HasSuffix(s, "\n") {
		b.WriteByte('\n')
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	out := l.out
	if out == nil {
		out = os.Stderr
	}
	_, err := out.Write([]byte(b.String()))
	return err
}

func (l *Logger) Print(v ...interface{})            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...interface{})            { l.Output(2, fmt.Sprint(v...)); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)); os.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)); os.Exit(1) }
func (l *Logger) Panic(v ...interface{})            { s := fmt.Sprint(v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...interface{}) {
	s := fmt.Sprintf(f, v...)
	l.Output(2, s)
	panic(s)
}
func (l *Logger) Panicln(v ...interface{}) { s := fmt.Sprintln(v...); l.Output(2, s); panic(s) }
func (l *Logger) Flags() int               { return l.flag }
func (l *Logger) SetFlags(f int)           { l.flag = f }
func (l *Logger) Prefix() string           { return l.prefix }
func (l *Logger) SetPrefix(p string)       { l.prefix = p }
func (l *Logger) Writer() io.Writer        { return l.out }
func (l *Logger) SetOutput(w io.Writer)    { l.out = w }

func Output(depth int, s string) error  { return std.Output(depth, s) }
func Print(v ...interface{})            { std.Print(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }
func Panicln(v ...interface{})          { std.Panicln(v...) }
func Flags() int                        { return std.Flags() }
func SetFlags(f int)                    { std.SetFlags(f) }
func Prefix() string                    { return std.Prefix() }
func SetPrefix(p string)                { std.SetPrefix(p) }
func Writer() io.Writer                 { return std.Writer() }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
