// Package runtime is the simulated counterpart of the standard package: the size and the load of the machine are drawn.
package runtime

import (
	std "runtime"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

var sizes = []int{8, 1, 2, 3, 4, 6, 12, 16, 64, 128}

func NumCPU() int { return sizes[simrt.Machine("cpus", uint64(len(sizes)))] }

func GOMAXPROCS(n int) int {
	old := int(simrt.Machine("procs", 1))
	if old == 0 {
		old = NumCPU()
	}
	if n > 0 {
		simrt.SetMachine("procs", uint64(n))
	}
	return old
}

// NumGoroutine counts those of the rest of the program as well.
func NumGoroutine() int { return 2 + int(simrt.Draw(200)) }

func Gosched() { simrt.Yield() }

func GC() { simrt.Yield() }

// SetFinalizer does nothing: finalizers may never run.
func SetFinalizer(obj, finalizer any) {}

// AddCleanup does nothing either.
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup { return Cleanup{} }

func ReadMemStats(m *MemStats) {
	*m = std.MemStats{}
	used := 1<<20 + simrt.Draw(1<<33)
	m.Alloc, m.HeapAlloc, m.HeapInuse = used, used, used
	m.TotalAlloc, m.Sys, m.HeapSys = 4*used, 2*used, 2*used
	m.Mallocs, m.HeapObjects = used/64, used/128
	m.NumGC = uint32(simrt.Draw(1000))
}
