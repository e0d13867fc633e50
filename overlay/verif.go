package rand

// This file is added to math/rand/v2 by the checks' build (go's -overlay), so
// that the library's draws become a function of a generated value. Without a
// call to VerifSeed nothing changes. The functions are not instrumented by the
// race detector and use no atomics, so that they add no happens-before edges.

var (
	verifOn     bool
	verifState  uint64
	verifBudget int64 = -1
)

// VerifSeed makes the top-level generator a splitmix64 stream.
//
//go:norace
func VerifSeed(s uint64) {
	verifState = s
	verifOn = true
	verifBudget = -1
}

// VerifLimit makes the generator panic after n more draws: a loop that can
// never end then ends.
//
//go:norace
func VerifLimit(n int64) { verifBudget = n }

//go:norace
func verifNext() (uint64, bool) {
	if !verifOn {
		return 0, false
	}
	if verifBudget >= 0 {
		if verifBudget == 0 {
			panic("boocheck: the budget of random draws is exhausted")
		}
		verifBudget--
	}
	verifState += 0x9e3779b97f4a7c15
	x := verifState
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31), true
}
