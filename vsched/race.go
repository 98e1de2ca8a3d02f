//go:build race

package vsched

import "runtime"

// The hand-offs of the scheduler must not look like synchronisation of the
// program under test.
func disable() { runtime.RaceDisable() }
func enable()  { runtime.RaceEnable() }

// Quiet runs f without the race detector learning about its synchronisation.
func Quiet(f func()) {
	disable()
	f()
	enable()
}
