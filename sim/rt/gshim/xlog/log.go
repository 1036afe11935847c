// Package log is the simulated counterpart of the standard package, for the generators.
package log

import (
	"fmt"
	"io"
	"log"

	"github.com/fredbi/go-typeset/zsim/gshim/gworld"
)

// Logger says nothing; Fatal ends the process.
type Logger struct{ prefix string }

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

var std = &Logger{}

func New(_ io.Writer, prefix string, _ int) *Logger { return &Logger{prefix} }
func Default() *Logger                              { return std }

func (l *Logger) Print(...any)              {}
func (l *Logger) Printf(string, ...any)     {}
func (l *Logger) Println(...any)            {}
func (l *Logger) Fatal(...any)              { gworld.Exit(1) }
func (l *Logger) Fatalf(string, ...any)     { gworld.Exit(1) }
func (l *Logger) Fatalln(...any)            { gworld.Exit(1) }
func (l *Logger) Panic(v ...any)            { panic(fmt.Sprint(v...)) }
func (l *Logger) Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }
func (l *Logger) Panicln(v ...any)          { panic(fmt.Sprintln(v...)) }
func (l *Logger) SetFlags(int)              {}
func (l *Logger) SetPrefix(p string)        { l.prefix = p }
func (l *Logger) Prefix() string            { return l.prefix }
func (l *Logger) SetOutput(io.Writer)       {}
func (l *Logger) Writer() io.Writer         { return io.Discard }
func (l *Logger) Output(int, string) error  { return nil }
func (l *Logger) Flags() int                { return 0 }

func Print(v ...any)            { std.Print(v...) }
func Printf(f string, v ...any) { std.Printf(f, v...) }
func Println(v ...any)          { std.Println(v...) }
func Fatal(v ...any)            { std.Fatal(v...) }
func Fatalf(f string, v ...any) { std.Fatalf(f, v...) }
func Fatalln(v ...any)          { std.Fatalln(v...) }
func Panic(v ...any)            { std.Panic(v...) }
func Panicf(f string, v ...any) { std.Panicf(f, v...) }
func Panicln(v ...any)          { std.Panicln(v...) }
func SetFlags(int)              {}
func SetPrefix(string)          {}
func SetOutput(io.Writer)       {}
func Writer() io.Writer         { return io.Discard }
func Flags() int                { return 0 }
func Prefix() string            { return "" }
