//go:build race

package sym

import (
	"runtime"
	"unsafe"
)

// Under the race detector the scheduler hides its own synchronisation and states the one of the replayed program.

func hide()          { runtime.RaceDisable() }
func unhide()        { runtime.RaceEnable() }
func acquire(p *int) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func release(p *int) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
