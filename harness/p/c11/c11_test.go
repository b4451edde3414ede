package c11

import (
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"

	"github.com/funny-falcon/go-iproto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

// late is when an armed timer counts as lost.
const late = 15 * time.Second

// slack is for the clocks: the wall clock may be slewed.
const slack = 200 * time.Microsecond

// stray collects expiries of timers that must be silent, whenever they come.
var stray atomic.Value

// alarm is one timer and its history. Each arming has its own number.
type alarm struct {
	t      iproto.Timer
	name   string
	mu     sync.Mutex
	armed  bool          // an expiry is expected or possible
	silent bool          // must not expire any more
	due    time.Time     // not before
	d      time.Duration // as armed
	fired  chan time.Time
	again  []time.Duration // armed anew from Expire
	errs   string
	total  int
}

func (a *alarm) Timer() *iproto.Timer { return &a.t }

func (a *alarm) Expire() {
	now := time.Now()
	a.mu.Lock()
	defer a.mu.Unlock()
	a.total++
	switch {
	case a.silent:
		a.errs = fmt.Sprintf("timer %s (%v) expired after it was stopped or a second time", a.name, a.d)
		stray.Store(a.errs)
	case !a.armed:
		a.errs = fmt.Sprintf("timer %s expired without being armed", a.name)
		stray.Store(a.errs)
	case now.Add(slack).Before(a.due):
		a.errs = fmt.Sprintf("timer %s (%v) expired %v early", a.name, a.d, a.due.Sub(now))
		stray.Store(a.errs)
	}
	a.armed = false
	if len(a.again) > 0 {
		d := a.again[0]
		a.again = a.again[1:]
		a.arm(d)
		return
	}
	a.silent = true
	if a.fired != nil {
		a.fired <- now
	}
}

// arm is called with mu held, or before anybody else knows the alarm.
func (a *alarm) arm(d time.Duration) {
	a.armed, a.silent, a.d = true, false, d
	a.due = time.Now()
	if d > 0 {
		if d < time.Hour*24*365 {
			a.due = a.due.Add(d)
		} else {
			a.due = a.due.Add(time.Hour * 24 * 365)
		}
	}
	a.t.After(d, a)
}

type step struct {
	d      time.Duration
	stopIn time.Duration // -1: not stopped
	other  bool          // stopped by another goroutine
	again  []time.Duration
	pause  time.Duration
	reuse  bool
}

func (s step) String() string {
	return fmt.Sprintf("{%v stop %v again %v}", s.d, s.stopIn, s.again)
}

func durations(t *rapid.T) *rapid.Generator[time.Duration] {
	base := time.Duration(rapid.IntRange(0, 4000).Draw(t, "base")) * time.Microsecond
	return rapid.Custom(func(t *rapid.T) time.Duration {
		switch rapid.IntRange(0, 7).Draw(t, "dkind") {
		case 0:
			return 0
		case 1:
			return time.Duration(rapid.IntRange(1, 3000).Draw(t, "ns"))
		case 2:
			return time.Duration(rapid.IntRange(1, 300).Draw(t, "us")) * time.Microsecond
		case 3, 4:
			return base // equal ones
		case 5:
			return -time.Duration(rapid.IntRange(1, 1000000).Draw(t, "neg"))
		}
		return time.Duration(rapid.IntRange(1, 8000).Draw(t, "ms")) * time.Microsecond
	})
}

// TestTimers: armed timers expire once in time, stopped ones do not.
func TestTimers(t *testing.T) {
	h.Run(t, "1-6 goroutines arming 1-60 timers each, of which some are stopped by them or by others, some armed again; non-trivial with at least 20 timers, 3 of them stopped in time; distinct by plan", 1600, func(t *rapid.T, c *h.Case) {
		ds := durations(t)
		plans := make([][]step, rapid.IntRange(1, 6).Draw(t, "goroutines"))
		total := 0
		for i := range plans {
			n := rapid.IntRange(1, 60).Draw(t, "timers")
			for j := 0; j < n; j++ {
				s := step{d: ds.Draw(t, "d"), stopIn: -1}
				switch rapid.IntRange(0, 9).Draw(t, "what") {
				case 0, 1:
					s.stopIn = 0
				case 2:
					s.stopIn = time.Duration(rapid.IntRange(0, 1000).Draw(t, "stopin")) * time.Microsecond
				case 3:
					s.d = rapid.SampledFrom([]time.Duration{time.Hour, time.Minute, 24 * 365 * time.Hour, math.MaxInt64, math.MaxInt64 / 2}).Draw(t, "long")
					s.stopIn = time.Duration(rapid.IntRange(0, 10000).Draw(t, "stopin")) * time.Microsecond
				case 4:
					s.again = rapid.SliceOfN(ds, 1, 3).Draw(t, "again")
				case 5:
					s.d = time.Duration(rapid.IntRange(2000, 9000).Draw(t, "mid")) * time.Microsecond
					s.stopIn = 0
				}
				s.other = rapid.Bool().Draw(t, "other")
				s.reuse = rapid.IntRange(0, 4).Draw(t, "reuse") == 0
				if rapid.IntRange(0, 9).Draw(t, "pausing") == 0 {
					s.pause = time.Duration(rapid.IntRange(1, 300).Draw(t, "pause")) * time.Microsecond
				}
				plans[i] = append(plans[i], s)
			}
			total += n
		}
		stop, sched := h.Sched(t)
		defer stop()
		var wg sync.WaitGroup
		var stopped int32
		type job struct {
			a    *alarm
			wait time.Duration
		}
		jobs := make(chan job, total)
		doStop := func(j job) {
			if j.wait > 0 {
				time.Sleep(j.wait)
			}
			j.a.t.Stop()
			now := time.Now()
			j.a.mu.Lock()
			if j.a.armed && now.Add(slack).Before(j.a.due) {
				j.a.silent = true
				atomic.AddInt32(&stopped, 1)
			}
			j.a.mu.Unlock()
		}
		var stoppers sync.WaitGroup
		for i := 0; i < 3; i++ {
			stoppers.Add(1)
			go func() {
				defer stoppers.Done()
				for j := range jobs {
					doStop(j)
				}
			}()
		}
		alarms := make([][]*alarm, len(plans))
		for i := range plans {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				var old *alarm
				for k, s := range plans[i] {
					a := &alarm{fired: make(chan time.Time, 4), name: fmt.Sprintf("%d.%d", i, k)}
					if s.reuse && old != nil {
						// a timer that was stopped for sure can be used again
						a, old = old, nil
						a.name += "+"
					} else {
						alarms[i] = append(alarms[i], a)
					}
					a.mu.Lock()
					a.again = s.again
					a.arm(s.d)
					a.mu.Unlock()
					if s.stopIn >= 0 {
						if s.other {
							jobs <- job{a, s.stopIn}
						} else {
							doStop(job{a, s.stopIn})
							a.mu.Lock()
							if a.silent && a.armed {
								old = a
							}
							a.mu.Unlock()
						}
					}
					if s.pause > 0 {
						time.Sleep(s.pause)
					}
				}
			}(i)
		}
		h.Within(t, "arming and stopping", func() { wg.Wait(); close(jobs); stoppers.Wait() })
		desc := fmt.Sprintf("%d timers by %d goroutines, schedule %s", total, len(plans), sched)
		// all those that were not stopped must expire
		deadline := time.Now().Add(late)
		for _, as := range alarms {
			for _, a := range as {
				for {
					a.mu.Lock()
					armed, silent, due, d := a.armed, a.silent, a.due, a.d
					a.mu.Unlock()
					if !armed || silent || d > time.Second {
						break
					}
					now := time.Now()
					if now.After(deadline) {
						// it may have been stopped around its deadline
						if maybeStopped(a, plans) {
							break
						}
						t.Fatalf("timer %s (%v) is %v late: %s", a.name, d, now.Sub(due), desc)
					}
					if now.After(due.Add(time.Millisecond)) && maybeStopped(a, plans) {
						break
					}
					select {
					case <-a.fired:
					case <-time.After(200 * time.Microsecond):
					}
				}
			}
		}
		stop()
		// the long ones are stopped now
		for _, as := range alarms {
			for _, a := range as {
				a.t.Stop()
				a.mu.Lock()
				if a.armed && a.d > time.Second {
					a.silent = true
				}
				a.mu.Unlock()
			}
		}
		if e := stray.Load(); e != nil {
			t.Fatalf("%v (perhaps in an earlier case): %s", e, desc)
		}
		c.Class("schedule " + sched)
		c.ClassIf(atomic.LoadInt32(&stopped) > 0, "stopped in time")
		c.ClassIf(total > 100, "more than 100 timers")
		if total >= 20 && atomic.LoadInt32(&stopped) >= 3 {
			c.NonTrivial(fmt.Sprint(plans))
			c.Sample("%s: %v", desc, plans)
		}
	})
}

// maybeStopped tells whether some step may have stopped the alarm around its
// deadline, which is allowed.
func maybeStopped(a *alarm, plans [][]step) bool {
	var i, k int
	fmt.Sscanf(a.name, "%d.%d", &i, &k)
	if len(a.name) > 0 && a.name[len(a.name)-1] == '+' {
		return true
	}
	return plans[i][k].stopIn >= 0
}

// TestLonely: a single timer on an otherwise idle heap, which nothing else
// wakes up.
func TestLonely(t *testing.T) {
	h.Run(t, "1-3 short timers armed one after another and awaited; non-trivial always; distinct by durations", 4000, func(t *rapid.T, c *h.Case) {
		n := rapid.IntRange(1, 3).Draw(t, "n")
		var ds []time.Duration
		for i := 0; i < n; i++ {
			ds = append(ds, time.Duration(rapid.IntRange(0, rapid.SampledFrom([]int{3, 50, 400}).Draw(t, "range")).Draw(t, "us"))*time.Microsecond+time.Duration(rapid.IntRange(0, 999).Draw(t, "ns")))
		}
		stop, sched := h.Sched(t)
		defer stop()
		var as []*alarm
		for _, d := range ds {
			a := &alarm{fired: make(chan time.Time, 2), name: "lonely"}
			a.mu.Lock()
			a.arm(d)
			a.mu.Unlock()
			as = append(as, a)
		}
		timer := time.NewTimer(late)
		defer timer.Stop()
		for i, a := range as {
			select {
			case <-a.fired:
			case <-timer.C:
				t.Fatalf("timer %d of %v is lost, schedule %s", i, ds, sched)
			}
		}
		if e := stray.Load(); e != nil {
			t.Fatalf("%v", e)
		}
		c.Class("schedule " + sched)
		c.NonTrivial(fmt.Sprint(ds))
		c.Sample("%v, schedule %s", ds, sched)
	})
}

// TestTimeouts: requests and groups get the timeout code if and only if nothing
// completed them before.
func TestTimeouts(t *testing.T) {
	h.Run(t, "1-40 requests, single or in groups, with timeouts, completed or not at drawn times; non-trivial with at least 5; distinct by plan", 1600, func(t *rapid.T, c *h.Case) {
		type plan struct {
			d, at time.Duration // timeout; when answered, or never
			how   int
			group bool
		}
		var ps []plan
		for i, n := 0, rapid.IntRange(1, 40).Draw(t, "n"); i < n; i++ {
			ps = append(ps, plan{
				d:     time.Duration(rapid.IntRange(1, 6000).Draw(t, "d")) * time.Microsecond,
				at:    time.Duration(rapid.SampledFrom([]int{-1, 0, 0, 1, 2, 3, 5}).Draw(t, "at")) * time.Millisecond,
				how:   rapid.IntRange(0, 2).Draw(t, "how"),
				group: rapid.IntRange(0, 3).Draw(t, "group") == 0,
			})
			if rapid.IntRange(0, 5).Draw(t, "none") == 0 {
				ps[i].d = rapid.SampledFrom([]time.Duration{0, -1, time.Hour, math.MaxInt64}).Draw(t, "d")
				if ps[i].at < 0 {
					ps[i].at = 0
				}
			}
		}
		stop, sched := h.Sched(t)
		defer stop()
		type result struct {
			code iproto.RetCode
			at   time.Time
		}
		type live struct {
			plan
			r       *iproto.Request
			g       *iproto.MultiRequest
			res     chan result
			answers int32
			due     time.Time
			done    time.Time // when the answer had been given for sure
		}
		var ls []*live
		var wg sync.WaitGroup
		for _, p := range ps {
			l := &live{plan: p, res: make(chan result, 3)}
			l.due = time.Now().Add(p.d)
			if p.d == math.MaxInt64 {
				l.due = time.Now().Add(time.Hour * 24 * 365 * 100)
			}
			if p.group {
				l.g = &iproto.MultiRequest{}
				l.g.SetTimeout(p.d)
				l.r = l.g.Request(1, iproto.Body("x"))
				l.g.SetTimeout(p.d / 2) // has no effect
				if p.d <= 0 {
					l.g.SetTimeout(-1)
				}
				go func() {
					rs := l.g.Results()
					for _, r := range rs {
						atomic.AddInt32(&l.answers, 1)
						l.res <- result{r.Code, time.Now()}
					}
				}()
			} else {
				l.r = &iproto.Request{Msg: 1, Responder: iproto.Callback(func(r *iproto.Response) {
					atomic.AddInt32(&l.answers, 1)
					l.res <- result{r.Code, time.Now()}
				})}
				l.r.SetTimeout(p.d)
				if p.d > 0 {
					l.r.SetTimeout(p.d / 2) // has no effect
				}
			}
			l.r.SetPending()
			l.r.SetInFly(nil)
			if p.at >= 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(l.at)
					switch l.how {
					case 0:
						l.r.Respond(iproto.RcOK, iproto.Body("ok"))
					case 1:
						l.r.RespondFail(iproto.RcInternalError)
					case 2:
						l.r.Cancel()
					}
					l.done = time.Now()
				}()
			}
			ls = append(ls, l)
		}
		h.Within(t, "answering", wg.Wait)
		desc := fmt.Sprintf("%d requests %v, schedule %s", len(ps), ps, sched)
		timer := time.NewTimer(late)
		defer timer.Stop()
		timeouts, races := 0, 0
		for i, l := range ls {
			var r result
			select {
			case r = <-l.res:
			case <-timer.C:
				t.Fatalf("request %d (timeout %v, answered after %v) is not completed: %s", i, l.d, l.at, desc)
			}
			own := []iproto.RetCode{iproto.RcOK, iproto.RcInternalError, iproto.RcCanceled}[l.how]
			switch {
			case r.code == iproto.RcTimeout:
				timeouts++
				if l.d <= 0 || r.at.Add(slack).Before(l.due) {
					t.Fatalf("request %d (timeout %v) timed out %v early: %s", i, l.d, l.due.Sub(r.at), desc)
				}
				if !l.done.IsZero() && l.done.Add(slack).Before(l.due) {
					t.Fatalf("request %d (timeout %v) timed out after it had been answered: %s", i, l.d, desc)
				}
			case l.at < 0 || r.code != own:
				t.Fatalf("request %d (timeout %v, answered %v after %v) has code %#x: %s", i, l.d, own, l.at, uint32(r.code), desc)
			default:
				races++
			}
		}
		stop()
		time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 0, 7}).Draw(t, "settle")) * time.Millisecond)
		for i, l := range ls {
			if n := atomic.LoadInt32(&l.answers); n != 1 {
				t.Fatalf("request %d has %d answers: %s", i, n, desc)
			}
		}
		c.ClassIf(timeouts > 0, "timed out")
		c.ClassIf(races > 0, "answered in time")
		if len(ps) >= 5 {
			c.NonTrivial(desc)
			c.Sample("%s", desc)
		}
	})
}
