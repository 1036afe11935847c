// Package maphash is the simulated counterpart of hash/maphash: seeds are drawn by the simulator, some of them make
// all hashes collide a lot (the real package promises no more than equal hashes for equal input and seed).
package maphash

import (
	"fmt"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

// Seed of a hash.
type Seed struct {
	s   uint64
	set bool
}

// MakeSeed draws a seed.
func MakeSeed() Seed { return Seed{s: simrt.Draw(0), set: true} }

// Hash of a sequence of bytes.
type Hash struct {
	seed Seed
	h    uint64
	n    int
}

func (h *Hash) init() {
	if !h.seed.set {
		h.SetSeed(MakeSeed())
	}
}

func (h *Hash) Seed() Seed { h.init(); return h.seed }

func (h *Hash) SetSeed(s Seed) {
	if !s.set {
		panic("maphash: use of uninitialized Seed")
	}
	h.seed = s
	h.h = s.s ^ 14695981039346656037
	h.n = 0
}

func (h *Hash) Reset() { h.init(); h.SetSeed(h.seed) }

func (h *Hash) add(b byte) { h.h = (h.h ^ uint64(b)) * 1099511628211; h.n++ }

func (h *Hash) Write(b []byte) (int, error) {
	h.init()
	for _, c := range b {
		h.add(c)
	}
	return len(b), nil
}

func (h *Hash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *Hash) WriteByte(b byte) error { h.init(); h.add(b); return nil }

func (h *Hash) Sum64() uint64 {
	h.init()
	v := h.h
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	switch h.seed.s & 3 {
	case 1:
		return v & 1
	case 3:
		return v & 15
	}
	return v
}

func (h *Hash) Sum(b []byte) []byte {
	v := h.Sum64()
	return append(b, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func (h *Hash) Size() int      { return 8 }
func (h *Hash) BlockSize() int { return 128 }

func Bytes(s Seed, b []byte) uint64 {
	var h Hash
	h.SetSeed(s)
	_, _ = h.Write(b)
	return h.Sum64()
}

func String(s Seed, v string) uint64 { return Bytes(s, []byte(v)) }

func Comparable[T comparable](s Seed, v T) uint64 { return String(s, fmt.Sprintf("%#v", v)) }

func WriteComparable[T comparable](h *Hash, v T) { _, _ = h.WriteString(fmt.Sprintf("%#v", v)) }
