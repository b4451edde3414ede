package h

import "pgregory.net/rapid"

// Sched draws a schedule: which statements of the instrumented packages delay
// the goroutine that reaches them, how long, how often. It returns the function
// that ends it and a description.
func Sched(t *rapid.T) (stop func(), desc string) {
	mode := rapid.SampledFrom([]string{"few", "few", "one", "many", "light", "off"}).Draw(t, "sched")
	if mode == "off" {
		return func() {}, mode
	}
	seed := rapid.Uint64().Draw(t, "schedseed")
	switch mode {
	case "one":
		schedStart(seed, 1, 2000, 12, 7)
	case "few":
		schedStart(seed, 4, 400, 40, 6)
	case "many":
		schedStart(seed, 40, 60, 200, 4)
	case "light":
		schedStart(seed, 0, 0, 0, 1+seed%4)
	}
	return schedStop, mode
}

// SchedSites is the number of instrumented statements reached so far.
func SchedSites() int { return schedVisited() }
