package c09

import (
	"testing"

	"verif/h"
	"verif/lc"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

// TestSequence: one operation at a time, against the model.
func TestSequence(t *testing.T) {
	h.Run(t, "1-25 life-cycle operations on a request, compared with the model after each; non-trivial with at least 4 operations of which one completes the request; distinct by operations", 20000, func(t *rapid.T, c *h.Case) {
		lc.Sequence(t, c, false)
	})
}

// TestRace: many goroutines at once.
func TestRace(t *testing.T) {
	h.Run(t, "2-6 goroutines with 1-5 life-cycle operations each on one request under a drawn schedule; non-trivial if two completions began before the answer; distinct by history", 8000, func(t *rapid.T, c *h.Case) {
		lc.Race(t, c, false)
	})
}
