//go:build !race

package vsched

func disable() {}
func enable()  {}

// Quiet runs f without the race detector learning about its synchronisation.
func Quiet(f func()) {
	disable()
	f()
	enable()
}
