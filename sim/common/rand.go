package main

import "github.com/fredbi/go-typeset/zsim/simrt"

// Rand draws scenarios.
type Rand struct{ simrt.Rng }

// NewRand seeds a generator.
func NewRand(seed uint64) *Rand { return &Rand{simrt.NewRng(seed)} }

// Range draws in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Pick a string.
func (r *Rand) Pick(s []string) string { return s[r.Intn(len(s))] }

// PickInt picks an int.
func (r *Rand) PickInt(s ...int) int { return s[r.Intn(len(s))] }

// Rune picks a rune of a string.
func (r *Rand) Rune(s string) rune {
	rs := []rune(s)
	return rs[r.Intn(len(rs))]
}

// Word of n letters.
func (r *Rand) Word(alphabet string, n int) string {
	rs := []rune(alphabet)
	out := make([]rune, n)
	for i := range out {
		out[i] = rs[r.Intn(len(rs))]
	}
	return string(out)
}

func runesEq(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func partsEq(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !runesEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func showParts(p [][]rune) []string {
	out := make([]string, len(p))
	for i := range p {
		out[i] = string(p[i])
	}
	return out
}

func copyParts(p [][]rune) [][]rune {
	out := make([][]rune, len(p))
	for i := range p {
		out[i] = append([]rune{}, p[i]...)
	}
	return out
}
