// Package flag is the simulated counterpart of the standard package, for the generators: a command line without flags.
package flag

import (
	"flag"
	"io"
	"time"
)

type (
	FlagSet       = flag.FlagSet
	Flag          = flag.Flag
	Value         = flag.Value
	Getter        = flag.Getter
	ErrorHandling = flag.ErrorHandling
)

const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

var (
	ErrHelp     = flag.ErrHelp
	CommandLine = flag.NewFlagSet("generator", flag.ContinueOnError)
	Usage       = func() {}
)

func NewFlagSet(name string, h ErrorHandling) *FlagSet {
	f := flag.NewFlagSet(name, h)
	f.SetOutput(io.Discard)
	return f
}

func p[T any](v T) *T { return &v }

func Bool(_ string, v bool, _ string) *bool                             { return p(v) }
func Int(_ string, v int, _ string) *int                                { return p(v) }
func Int64(_ string, v int64, _ string) *int64                          { return p(v) }
func Uint(_ string, v uint, _ string) *uint                             { return p(v) }
func Uint64(_ string, v uint64, _ string) *uint64                       { return p(v) }
func Float64(_ string, v float64, _ string) *float64                    { return p(v) }
func String(_, v, _ string) *string                                     { return p(v) }
func Duration(_ string, v time.Duration, _ string) *time.Duration       { return p(v) }
func BoolVar(x *bool, _ string, v bool, _ string)                       { *x = v }
func IntVar(x *int, _ string, v int, _ string)                          { *x = v }
func Int64Var(x *int64, _ string, v int64, _ string)                    { *x = v }
func UintVar(x *uint, _ string, v uint, _ string)                       { *x = v }
func Uint64Var(x *uint64, _ string, v uint64, _ string)                 { *x = v }
func Float64Var(x *float64, _ string, v float64, _ string)              { *x = v }
func StringVar(x *string, _, v, _ string)                               { *x = v }
func DurationVar(x *time.Duration, _ string, v time.Duration, _ string) { *x = v }
func Var(Value, string, string)                                         {}
func Func(_, _ string, _ func(string) error)                            {}
func BoolFunc(_, _ string, _ func(string) error)                        {}
func Parse()                                                            {}
func Parsed() bool                                                      { return true }
func Args() []string                                                    { return nil }
func Arg(int) string                                                    { return "" }
func NArg() int                                                         { return 0 }
func NFlag() int                                                        { return 0 }
func PrintDefaults()                                                    {}
func Set(_, _ string) error                                             { return nil }
func Lookup(string) *Flag                                               { return nil }
func Visit(func(*Flag))                                                 {}
func VisitAll(func(*Flag))                                              {}
