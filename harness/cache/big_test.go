package cache

import (
	"runtime/debug"
	"testing"

	"diskoverif/pbt"

	"pgregory.net/rapid"
)

// TestB05_Giant has a cache of more than 4 GiB. Its memory is never touched
// except where the operations go, as long as the garbage collector doesn't
// hand it out again. For that, it must come first: files are sorted by name.
func TestB05_Giant(t *testing.T) {
	old := debug.SetGCPercent(-1)
	takeBack := pbt.AllowUntouched(1 << 40)
	defer func() {
		takeBack()
		debug.SetGCPercent(old)
		debug.FreeOSMemory()
	}()
	pbt.Check(t, 10, 60, "As Far, with 4.1 GiB in blocks of 32 or 64 KiB, and operations near 2 GiB and 4 GiB. Non-trivial: something beyond block 2^16.",
		func(c *pbt.C) {
			bpb := rapid.SampledFrom([]int{32768, 65535, 65536}).Draw(c.T, "bytes per block")
			farCase(c, bpb, 1<<32/bpb+rapid.IntRange(1, 100).Draw(c.T, "more blocks"))
		})
}
