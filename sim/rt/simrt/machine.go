package simrt

import "strings"

// The machine and the environment of the simulated process: drawn when asked for, and the same until it ends.
var (
	fixed   bool // no decision is drawn
	machine [64]property
	envVars [64]property
)

type property struct {
	name string
	n    uint64
	set  bool
	v    string
}

//go:norace
func newProcess() {
	for i := range machine {
		machine[i], envVars[i] = property{}, property{}
	}
}

// of finds a property by its name, or a place for it.
//
//go:norace
func of(l *[64]property, name string) (p *property, found bool) {
	for i := range l {
		if l[i].name == name {
			return &l[i], true
		}
		if l[i].name == "" {
			l[i].name = name
			return &l[i], false
		}
	}
	return new(property), false
}

// Fixed runs f without drawing any decision: all of them are the default one.
func Fixed(f func()) {
	old := fixed
	fixed = true
	defer func() { fixed = old }()
	f()
}

// Machine draws a property of the machine below n, which stays the same until the process ends.
//
//go:norace
func Machine(what string, n uint64) uint64 {
	YH(-15)
	p, ok := of(&machine, what)
	if !ok {
		p.n = Draw(n)
	}
	return p.n
}

// SetMachine changes a property of the machine.
//
//go:norace
func SetMachine(what string, v uint64) {
	YH(-15)
	p, _ := of(&machine, what)
	p.n = v
}

var (
	locales = []string{"C", "C.UTF-8", "POSIX", "en_US.UTF-8", "ja_JP.UTF-8", "ja_JP.eucJP", "zh_CN.GB18030", "zh_TW.UTF-8", "ko_KR.UTF-8", "ja", ""}
	words   = []string{"1", "0", "", "true", "false", "2", "40", "80", "dumb", "xterm-256color", "on", "fr", "/tmp"}
)

// Getenv looks up a variable of the environment. By default, none is set.
//
//go:norace
func Getenv(name string) (string, bool) {
	YH(-15)
	p, ok := of(&envVars, name)
	if !ok {
		list := words
		if strings.Contains(name, "LANG") || strings.HasPrefix(name, "LC_") {
			list = locales
		}
		if k := Draw(uint64(2 * (len(list) + 1))); k > 0 && k <= uint64(len(list)) {
			p.set, p.v = true, list[k-1]
		}
	}
	return p.v, p.set
}

// Setenv changes the environment; nil unsets a variable.
//
//go:norace
func Setenv(name string, v *string) {
	YH(-15)
	p, _ := of(&envVars, name)
	if p.set = v != nil; p.set {
		p.v = *v
	}
}

// Environ lists the variables known to be set.
//
//go:norace
func Environ() []string {
	var l []string
	for i := range envVars {
		if p := &envVars[i]; p.set {
			l = append(l, p.name+"="+p.v)
		}
	}
	return l
}

// Yield lets all the other tasks run, or all the others that can.
//
//go:norace
func Yield() {
	if Draw(2) == 1 {
		YH(-14)
		return
	}
	doze(1000)
}

// doze puts the running task behind all the others for a simulated time.
//
//go:norace
func doze(d int64) {
	t := cur
	if t == nil || t.dying {
		return
	}
	t.n++
	steps++
	if steps >= limit {
		slow(t, false)
	}
	t.spins = 0
	t.state = stSleeping
	t.until = now + d
	to := nextAfter(t)
	if to == t || to == nil {
		t.state = stRunnable
		return
	}
	record(t, to)
	switchTo(t, to)
}
