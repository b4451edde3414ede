// Package h is the shared part of the harness: it runs rapid properties with a
// case budget, keeps statistics about what was generated, and writes them where
// the driver (check.py) picks them up.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stuck is the no-progress bound after which a liveness clause counts as
// broken. The code under test has no legitimate reason to take more than
// milliseconds where it is used.
const Stuck = 40 * time.Second

type subStat struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Hashes      []string       `json:"hashes"`
	seen        map[uint64]struct{}
	stride      int
}

var (
	mu    sync.Mutex
	stats = map[string]*subStat{}
)

// Shards is the number of processes that share the budget, Factor the tier's
// multiplier of case counts.
var (
	Shards = envInt("VERIF_SHARDS", 1)
	Factor = envFloat("VERIF_FACTOR", 1)
	Seed   = envInt("VERIF_RUNSEED", 1)
)

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

func envFloat(n string, d float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(n), 64); err == nil {
		return v
	}
	return d
}

// Case collects what one generated case was.
type Case struct {
	st      *subStat
	classes map[string]bool
	key     string
	sample  string
	nontriv bool
}

// Class counts the case in a named class (once per case).
func (c *Case) Class(name string) { c.classes[name] = true }

// ClassIf is Class under a condition.
func (c *Case) ClassIf(cond bool, name string) {
	if cond {
		c.classes[name] = true
	}
}

// NonTrivial marks the case as non-trivial by the test's rule; key identifies
// it for distinctness.
func (c *Case) NonTrivial(key string) { c.nontriv = true; c.key = key }

// Sample gives the text that stands for this case in the evidence file.
func (c *Case) Sample(f string, a ...interface{}) { c.sample = fmt.Sprintf(f, a...) }

// Run checks prop on about n cases (before tier factor and sharding).
func Run(t *testing.T, rule string, n int, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	n = int(float64(n)*Factor)/Shards + 1
	if s := os.Getenv("VERIF_CHECKS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatal(err)
	}
	st := &subStat{Classes: map[string]int{}, Rule: rule, seen: map[uint64]struct{}{}, stride: n/3 + 1}
	mu.Lock()
	stats[t.Name()] = st
	mu.Unlock()
	stop := watchdog(t.Name())
	defer stop()
	rapid.Check(t, func(rt *rapid.T) {
		atomic.AddInt64(&progress, 1)
		c := &Case{st: st, classes: map[string]bool{}}
		journal(t.Name(), st.Evaluations)
		defer func() {
			if f := os.Getenv("VERIF_OUT"); f != "" && rt.Failed() {
				os.WriteFile(f+".failed", []byte(t.Name()), 0o644) // shrinking may take long
			}
		}()
		prop(rt, c)
		mu.Lock()
		defer mu.Unlock()
		st.Evaluations++
		for k := range c.classes {
			st.Classes[k]++
		}
		if c.nontriv {
			f := fnv.New64a()
			f.Write([]byte(c.key))
			if _, ok := st.seen[f.Sum64()]; !ok {
				st.seen[f.Sum64()] = struct{}{}
				st.Nontrivial++
				if c.sample != "" && len(st.Samples) < 3 && (len(st.Samples) == 0 || st.Evaluations%st.stride == 0) {
					s := c.sample
					if len(s) > 600 {
						s = s[:600] + "..."
					}
					st.Samples = append(st.Samples, s)
				}
			}
		}
	})
}

var progress int64

// watchdog ends the process with code 97 if one case takes longer than any case can.
func watchdog(name string) func() {
	done := make(chan struct{})
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			select {
			case <-done:
				return
			default:
				kick()
			}
		}
	}()
	go func() {
		last, idle := atomic.LoadInt64(&progress), 0
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			if p := atomic.LoadInt64(&progress); p != last {
				last, idle = p, 0
			} else if idle++; idle > 150 {
				fmt.Printf("[verif] stuck in %s\n%s\n", name, Stacks())
				os.Exit(97)
			}
		}
	}()
	return func() { close(done) }
}

// Alive tells the watchdog that a long case makes progress.
func Alive() { atomic.AddInt64(&progress, 1) }

var jf *os.File

func journal(name string, n int) {
	if jf == nil {
		p := os.Getenv("VERIF_JOURNAL")
		if p == "" {
			return
		}
		var err error
		if jf, err = os.Create(p); err != nil {
			return
		}
	}
	jf.WriteAt([]byte(fmt.Sprintf("%s case %d seed %d%40s\n", name, n, Seed, "")), 0)
}

// Main runs the tests and writes the statistics.
func Main(m *testing.M) {
	log.SetOutput(io.Discard)
	rc := m.Run()
	if p := os.Getenv("VERIF_OUT"); p != "" {
		mu.Lock()
		for _, st := range stats {
			for k := range st.seen {
				st.Hashes = append(st.Hashes, strconv.FormatUint(k, 36))
			}
			sort.Strings(st.Hashes)
		}
		b, _ := json.MarshalIndent(stats, "", " ")
		mu.Unlock()
		os.WriteFile(p, b, 0644)
	}
	os.Exit(rc)
}

// Fataler is what both *rapid.T and *testing.T offer.
type Fataler interface {
	Fatalf(string, ...interface{})
}

// Within runs f in its own goroutine and fails if it does not return within the
// no-progress bound.
func Within(t Fataler, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	tm := time.NewTimer(Stuck)
	defer tm.Stop()
	select {
	case p := <-done:
		if p != nil {
			t.Fatalf("%s: panic: %v", what, p)
		}
	case <-tm.C:
		t.Fatalf("%s: no progress for %v\n%s", what, Stuck, Stacks())
	}
}

// Stacks dumps all goroutines.
func Stacks() string {
	b := make([]byte, 1<<18)
	return string(b[:runtime.Stack(b, true)])
}

// Keys returns the sorted keys of a set.
func Keys(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

// Catch runs f and returns what it panicked with.
func Catch(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// kick makes the Go runtime look at all its timers. Go 1.23-1.27 loses one of
// some 10^8 timers that are moved forward by Reset (as the package's heaps of
// timers do all the time): it stays in the heap of a P at its old place, as if
// nobody had modified it. Taking the Ps away moves their timers to the one that
// stays, a modification there makes it look at the rest.
func kick() {
	n := runtime.GOMAXPROCS(1)
	t := time.AfterFunc(time.Hour, func() {})
	t.Reset(time.Microsecond)
	runtime.GOMAXPROCS(n)
}
