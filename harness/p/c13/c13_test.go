package c13

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const wait = 20 * time.Second

// data is a request body that knows its type.
type data struct{ N uint32 }

func (data) IMsg() iproto.RequestType { return 42 }

// one request of the group
type one struct {
	phase          string // when the service answers: "at once", "early", "late", "after", "never"
	pause          time.Duration
	how            int // 0 Respond, 1 RespondFail, 2 both at once
	code           iproto.RetCode
	r              *iproto.Request
	started, ended int64 // logical time of the service's completion
	performedAt    bool
}

func (o *one) String() string { return fmt.Sprintf("%s/%d", o.phase, o.how) }

// TestGroup: everything a group promises, with completions before, during and
// after the start of the collection, and cancels, timeouts and expiries.
func TestGroup(t *testing.T) {
	h.Run(t, "a group of 0-40 requests, answered by 1-4 goroutines in drawn phases, collected as a list or channel, perhaps failed at a drawn moment; non-trivial with at least 3 requests of which some are answered before and some after the start of the collection, or with a failure; distinct by plan", 5000, func(t *rapid.T, c *h.Case) {
		var clock int64
		now := func() int64 { return atomic.AddInt64(&clock, 1) }
		n := rapid.IntRange(0, rapid.SampledFrom([]int{3, 12, 40}).Draw(t, "max")).Draw(t, "n")
		each := rapid.Bool().Draw(t, "each")
		fail := rapid.SampledFrom([]string{"", "", "", "cancel", "expire", "context", "context expire", "timeout", "service timeout"}).Draw(t, "fail")
		inContext := fail == "context" || fail == "context expire" || rapid.Bool().Draw(t, "incontext")
		failWhen := rapid.SampledFrom([]string{"first", "adding", "collecting", "any", "any"}).Draw(t, "failwhen")
		failAfter := time.Duration(rapid.IntRange(0, 500).Draw(t, "failafter")) * time.Microsecond
		phases := []string{"at once", "early", "early", "late", "late", "after"}
		if fail != "" {
			phases = append(phases, "never", "never")
		}
		os := make([]*one, n)
		for i := range os {
			os[i] = &one{phase: rapid.SampledFrom(phases).Draw(t, "phase"), how: rapid.IntRange(0, 2).Draw(t, "how"), code: iproto.RetCode(0x1000 + i*8)}
			if rapid.IntRange(0, 4).Draw(t, "pausing") == 0 {
				os[i].pause = time.Duration(rapid.IntRange(0, 300).Draw(t, "pause")) * time.Microsecond
			}
		}
		readers := rapid.IntRange(1, 2).Draw(t, "readers")
		slow := rapid.IntRange(0, 5).Draw(t, "slow") == 0
		collectEarly := rapid.Bool().Draw(t, "collectearly")
		stop, sched := h.Sched(t)
		defer stop()
		cx := &iproto.Context{}
		var g *iproto.MultiRequest
		if inContext {
			g = cx.NewMulti()
		} else {
			g = &iproto.MultiRequest{}
		}
		desc := func() string {
			return fmt.Sprintf("%d requests %v, each %v, fail %q %s after %v, in context %v, schedule %s", n, os, each, fail, failWhen, failAfter, inContext, sched)
		}
		var due time.Time
		var failStart, failEnd int64
		var wantFail iproto.RetCode
		switch fail {
		case "timeout":
			due, wantFail = time.Now().Add(failAfter), iproto.RcTimeout
			g.SetTimeout(failAfter + 1)
		case "service timeout":
			due, wantFail = time.Now().Add(failAfter), iproto.RcTimeout
			g.TimeoutFrom(timed(failAfter + 1))
		case "cancel", "context", "context expire":
			wantFail = iproto.RcCanceled
		case "expire":
			wantFail = iproto.RcTimeout
		default:
			if rapid.Bool().Draw(t, "longtimeout") {
				g.SetTimeout(time.Hour)
			}
		}
		doFail := func() {
			atomic.StoreInt64(&failStart, now())
			switch fail {
			case "cancel":
				g.Cancel()
			case "expire":
				g.Expire()
			case "context":
				cx.Cancel()
			case "context expire":
				cx.Expire()
			}
			atomic.StoreInt64(&failEnd, now())
		}
		manual := wantFail != 0 && due.IsZero()
		complete := func(i int) {
			o := os[i]
			if o.pause > 0 {
				time.Sleep(o.pause)
			}
			atomic.StoreInt64(&o.started, now())
			body := iproto.Body(fmt.Sprint("body", i))
			switch o.how {
			case 0:
				o.r.Respond(o.code, body)
			case 1:
				o.r.RespondFail(o.code + 1)
			case 2:
				done := make(chan bool)
				go func() { o.r.RespondFail(o.code + 1); close(done) }()
				o.r.RespondBytes(o.code, body)
				<-done
			}
			atomic.StoreInt64(&o.ended, now())
		}
		byPhase := map[string]chan int{}
		for _, ph := range []string{"early", "late", "after"} {
			byPhase[ph] = make(chan int, n+1)
		}
		var workers sync.WaitGroup
		work := func(ph string, k int) {
			for i := 0; i < k; i++ {
				workers.Add(1)
				go func() {
					defer workers.Done()
					for i := range byPhase[ph] {
						complete(i)
					}
				}()
			}
		}
		next := 0
		svc := iproto.SF(func(r *iproto.Request) {
			o := os[next]
			switch o.phase {
			case "at once":
				complete(next)
			case "never":
			default:
				byPhase[o.phase] <- next
			}
		})
		nworkers := rapid.IntRange(1, 4).Draw(t, "workers")
		work("early", nworkers)
		var failed sync.WaitGroup
		failGo := func() {
			failed.Add(1)
			go func() {
				defer failed.Done()
				time.Sleep(failAfter)
				doFail()
			}()
		}
		if manual && failWhen == "any" {
			failGo()
		}
		msgs := make([]iproto.RequestType, n)
		h.Within(t, "adding requests", func() {
			if manual && failWhen == "first" {
				doFail()
			}
			for i, o := range os {
				next = i
				if manual && failWhen == "adding" && i == n/2 {
					doFail()
				}
				over := atomic.LoadInt64(&failEnd) != 0
				switch i % 3 {
				case 0:
					msgs[i] = iproto.RequestType(i * 7)
					o.r = g.Request(msgs[i], iproto.Body("x"))
					if over && !o.r.Performed() {
						o.performedAt = true
					}
					svc.Send(o.r)
				case 1:
					// the request is known to the service only when it is sent
					msgs[i] = iproto.RequestType(i * 7)
					o.r = g.SendMsgBody(preset(func(r *iproto.Request) { o.r = r; svc.Send(r) }), msgs[i], iproto.Body("y"))
				case 2:
					msgs[i] = 42
					o.r = g.Send(preset(func(r *iproto.Request) { o.r = r; svc.Send(r) }), data{7})
				}
				if over && !o.r.Performed() {
					o.performedAt = true
				}
			}
		})
		for i, o := range os {
			if o.performedAt {
				t.Fatalf("request %d was added to a failed group and not completed at once: %s", i, desc())
			}
		}
		close(byPhase["early"])
		work("late", nworkers)
		close(byPhase["late"])
		if !collectEarly {
			time.Sleep(time.Duration(rapid.IntRange(0, 200).Draw(t, "before")) * time.Microsecond)
		}
		if manual && failWhen == "collecting" {
			failGo()
		}
		var mu sync.Mutex
		var got []*iproto.Response
		finished := make(chan bool)
		collecting := now()
		if each {
			ch := g.Each()
			work("after", nworkers)
			close(byPhase["after"])
			var rd sync.WaitGroup
			for i := 0; i < readers; i++ {
				rd.Add(1)
				go func() {
					defer rd.Done()
					for res := range ch {
						if slow {
							time.Sleep(30 * time.Microsecond)
						}
						mu.Lock()
						got = append(got, res)
						mu.Unlock()
					}
				}()
			}
			go func() { rd.Wait(); close(finished) }()
		} else {
			workers.Add(1)
			go func() {
				defer workers.Done()
				time.Sleep(100 * time.Microsecond)
				work("after", nworkers)
				close(byPhase["after"])
			}()
			go func() {
				rs := g.Results()
				mu.Lock()
				got = rs
				mu.Unlock()
				close(finished)
			}()
		}
		select {
		case <-finished:
		case <-time.After(wait):
			mu.Lock()
			k := len(got)
			mu.Unlock()
			t.Fatalf("the collection does not end: %d responses: %s", k, desc())
		}
		mu.Lock()
		defer mu.Unlock()
		h.Within(t, "the service and the failure", func() {
			time.Sleep(110 * time.Microsecond)
			workers.Wait()
			failed.Wait()
		})
		if inContext {
			// the group has ended, so nothing keeps the context from ending
			h.Within(t, "waiting for a context whose group has ended", cx.WaitAll)
		}
		stop()
		if len(got) != n {
			t.Fatalf("%d responses: %s", len(got), desc())
		}
		codes := make([]iproto.RetCode, len(got))
		for i, r := range got {
			codes[i] = r.Code
		}
		seen := make([]bool, n)
		nfailed, nbefore, nafter := 0, 0, 0
		for _, r := range got {
			if r == nil || int(r.Id) >= n || seen[r.Id] {
				t.Fatalf("response %v twice or of no request: %s", r, desc())
			}
			seen[r.Id] = true
			o := os[r.Id]
			what := fmt.Sprintf("response {id %d msg %d code %#x body %q}", r.Id, r.Msg, uint32(r.Code), r.Body)
			if r.Msg != msgs[r.Id] {
				t.Fatalf("%s has another type: %s", what, desc())
			}
			proper := r.Code == o.code && string(r.Body) == fmt.Sprint("body", r.Id) && o.how != 1
			failedBy := r.Code == o.code+1 && len(r.Body) == 0 && o.how != 0
			if o.phase != "never" && (proper || failedBy) {
				if fe := atomic.LoadInt64(&failEnd); fe != 0 && o.started > fe {
					t.Fatalf("%s came after the failure of the group: %s", what, desc())
				}
				if o.started < collecting {
					nbefore++
				} else {
					nafter++
				}
				continue
			}
			if wantFail == 0 || r.Code != wantFail || len(r.Body) != 0 {
				t.Fatalf("%s is not that of the service: %s", what, desc())
			}
			nfailed++
			if manual && o.phase != "never" && o.ended != 0 && o.ended < failStart {
				t.Fatalf("%s replaces a response from before the failure: %s", what, desc())
			}
			if !due.IsZero() && time.Now().Before(due) {
				t.Fatalf("%s came before the timeout: %s", what, desc())
			}
		}
		for i, o := range os {
			if !o.r.Performed() {
				t.Fatalf("request %d is not performed: %s", i, desc())
			}
		}
		// too late to change anything
		g.Cancel()
		g.Expire()
		for i, r := range got {
			if r.Code != codes[i] {
				t.Fatalf("a collected response was changed: %s", desc())
			}
		}
		if !each {
			rs := iproto.MultiResponse(got).Sort()
			if !sort.SliceIsSorted(rs, func(i, j int) bool { return rs[i].Id < rs[j].Id }) || len(rs) != n {
				t.Fatalf("not sorted: %s", desc())
			}
		}
		c.Class("schedule " + sched)
		c.ClassIf(each, "channel")
		c.ClassIf(fail != "", "fail "+fail)
		c.ClassIf(nfailed > 0 && nbefore+nafter > 0, "partly failed")
		c.ClassIf(n == 0, "empty")
		if n >= 3 && (nbefore > 0 && nafter > 0 || nfailed > 0) {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
	})
}

// preset is a service that is told the request first.
type preset func(r *iproto.Request)

func (p preset) Send(r *iproto.Request)        { p(r) }
func (p preset) Runned() bool                  { return true }
func (p preset) DefaultTimeout() time.Duration { return 0 }

type timed time.Duration

func (timed) Send(r *iproto.Request)          {}
func (timed) Runned() bool                    { return true }
func (d timed) DefaultTimeout() time.Duration { return time.Duration(d) }

// TestMany: a group much bigger than its buffers.
func TestMany(t *testing.T) {
	h.Run(t, "a group of 100-3000 requests completed by 1-8 goroutines during the collection; non-trivial always; distinct by plan", 60, func(t *rapid.T, c *h.Case) {
		n := rapid.IntRange(100, 3000).Draw(t, "n")
		workers := rapid.IntRange(1, 8).Draw(t, "workers")
		each := rapid.Bool().Draw(t, "each")
		g := (&iproto.Context{}).NewMulti()
		q := make(chan *iproto.Request, n)
		stop, sched := h.Sched(t)
		defer stop()
		for i := 0; i < workers; i++ {
			go func() {
				for r := range q {
					r.Respond(iproto.RetCode(r.Id&7), iproto.Body(ref.AppendPrefix(nil, ref.I32, int(r.Id))))
				}
			}()
		}
		svc := iproto.SF(func(r *iproto.Request) { q <- r })
		for i := 0; i < n; i++ {
			g.SendMsgBody(svc, 9, iproto.Body("z"))
		}
		close(q)
		seen := make([]bool, n)
		count := 0
		h.Within(t, "collecting", func() {
			take := func(r *iproto.Response) {
				if int(r.Id) < n && !seen[r.Id] && r.Code == iproto.RetCode(r.Id&7) && string(r.Body) == string(ref.AppendPrefix(nil, ref.I32, int(r.Id))) {
					seen[r.Id] = true
					count++
				}
			}
			if each {
				for r := range g.Each() {
					take(r)
				}
			} else {
				for _, r := range g.Results() {
					take(r)
				}
			}
		})
		if count != n {
			t.Fatalf("%d right responses of %d, each %v, schedule %s", count, n, each, sched)
		}
		c.NonTrivial(fmt.Sprint(n, workers, each, sched))
		c.Sample("%d requests, %d goroutines, each %v, schedule %s", n, workers, each, sched)
	})
}
