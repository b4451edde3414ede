package h

import "runtime"

// Allocated is the number of bytes f allocates (including what it frees again).
// Other goroutines must be quiet.
func Allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}
