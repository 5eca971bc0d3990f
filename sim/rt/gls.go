package rt

import "unsafe"

// Goroutine-local storage: the runtime's profiler label slot, which child
// goroutines inherit and nothing else here uses.

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

// Cur is the calling simulated goroutine, or nil outside the simulation.
func Cur() *G { return (*G)(getLabel()) }

func setCur(g *G) { setLabel(unsafe.Pointer(g)) }
