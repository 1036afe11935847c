// Package os is the simulated counterpart of the standard package, for the library: the environment of the process is drawn.
package os

import (
	"fmt"
	std "os"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

func Getenv(name string) string {
	v, _ := simrt.Getenv(name)
	return v
}

func LookupEnv(name string) (string, bool) { return simrt.Getenv(name) }

func Setenv(name, value string) error {
	simrt.Setenv(name, &value)
	return nil
}

func Unsetenv(name string) error {
	simrt.Setenv(name, nil)
	return nil
}

func Environ() []string         { return simrt.Environ() }
func ExpandEnv(s string) string { return std.Expand(s, Getenv) }
func Hostname() (string, error) { return fmt.Sprintf("host%d", simrt.Machine("host", 1000)), nil }
func Getpid() int               { return 2 + int(simrt.Machine("pid", 30000)) }
func Getppid() int              { return 1 + int(simrt.Machine("ppid", 30000)) }
