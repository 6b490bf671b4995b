//go:build race

package kit

// Race is set in builds with the race detector: a driver then keeps its own
// accesses to what the code under test shares between goroutines away.
const Race = true
