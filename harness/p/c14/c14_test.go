package c14

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"

	"github.com/funny-falcon/go-iproto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const wait = 30 * time.Second

func until(cond func() bool) bool {
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(20 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

// job is one request, and what is to happen to it.
type job struct {
	gate    bool   // the handler blocks until the gate opens
	outcome string // value, panic, unmarshal, watch, nested
	code    iproto.RetCode
	val     interface{}
	body    []byte
	sleep   time.Duration
	cancel  string // "", "before" it is sent, "queued" behind the gate, "any" time
	after   time.Duration

	r         *iproto.Request
	calls     int32
	answers   int32 // completed
	res       iproto.Response
	answered  int64 // logical time of the answer
	runs      int32
	start     int64
	end       int64
	cancelBeg int64
	cancelEnd int64
	sent      time.Time
	sending   int64
	sentAt    int64
	at        time.Time
	saw       string
}

func (j *job) String() string {
	return fmt.Sprintf("{gate %v %s %#x sleep %v cancel %q after %v}", j.gate, j.outcome, uint32(j.code), j.sleep, j.cancel, j.after)
}

type plan struct {
	n       int
	timeout time.Duration
	jobs    []*job
	senders int
	stop    string // "after", "gate" while the gate is closed, "any"
	stopPer time.Duration
}

// run plays the plan against a service and judges what happened.
func run(t *rapid.T, p *plan, desc func() string) {
	var clock int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	var emu sync.Mutex
	var errs []string
	bad := func(f string, a ...interface{}) {
		emu.Lock()
		if len(errs) < 5 {
			errs = append(errs, fmt.Sprintf(f, a...))
		}
		emu.Unlock()
	}
	check := func() {
		emu.Lock()
		defer emu.Unlock()
		if len(errs) > 0 {
			t.Fatalf("%s\n%s", strings.Join(errs, "\n"), desc())
		}
	}
	limit := int32(p.n)
	if limit < 1 {
		limit = 1
	}
	gate := make(chan bool)
	over := make(chan bool)
	var running, gated int32
	jobs := p.jobs
	handler := func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		if k := atomic.AddInt32(&running, 1); k > limit {
			bad("%d handlers run where %d are allowed", k, limit)
		}
		defer atomic.AddInt32(&running, -1)
		if int(r.Id) >= len(jobs) || jobs[r.Id].r != r {
			bad("the handler got another request")
			return 1, nil
		}
		j := jobs[r.Id]
		atomic.StoreInt64(&j.start, now())
		if atomic.AddInt32(&j.runs, 1) > 1 {
			bad("request %d is handled twice", r.Id)
			return 1, nil
		}
		defer func() { atomic.StoreInt64(&j.end, now()) }()
		if !bytes.Equal(r.Body, []byte{byte(r.Id), 7}) && atomic.LoadInt32(&j.answers) == 0 {
			// an answered request has no body
			bad("request %d has body % x", r.Id, r.Body)
		}
		if j.gate {
			atomic.AddInt32(&gated, 1)
			<-gate
		}
		if j.sleep > 0 {
			time.Sleep(j.sleep)
		}
		switch j.outcome {
		case "panic":
			panic(fmt.Sprint("request ", r.Id))
		case "unmarshal":
			return 0, make(chan int)
		case "watch":
			// the context of a cancelled or expired request must say so
			if !until(func() bool {
				select {
				case <-over:
					return true
				default:
					return !cx.Alive()
				}
			}) {
				bad("the handler of a cancelled or expired request does not see it")
			}
		case "nested":
			_, ch := cx.SendMsgBody(iproto.SF(func(*iproto.Request) {}), 3, iproto.Body("inner"))
			select {
			case res := <-ch:
				if res.Code != iproto.RcCanceled {
					bad("a request inside of a cancelled request got %#x", res.Code)
				}
			case <-over:
			case <-time.After(wait):
				bad("a request inside of a cancelled or expired request is not cancelled")
			}
		}
		return j.code, j.val
	}
	serv := iproto.BF{N: p.n, Timeout: p.timeout}.New(handler)
	var wg sync.WaitGroup
	for i, j := range jobs {
		i, j := i, j
		j.r = &iproto.Request{Id: uint32(i), Msg: 9, Body: iproto.Body{byte(i), 7}, Responder: iproto.Callback(func(res *iproto.Response) {
			if atomic.AddInt32(&j.calls, 1) == 1 {
				j.res = *res
				j.at = time.Now()
				atomic.StoreInt64(&j.answered, now())
			}
			atomic.AddInt32(&j.answers, 1)
		})}
	}
	cancel := func(j *job) {
		atomic.StoreInt64(&j.cancelBeg, now())
		j.r.Cancel()
		atomic.StoreInt64(&j.cancelEnd, now())
		if atomic.LoadInt32(&j.answers) == 0 {
			bad("a cancelled request is not answered")
		}
	}
	send := func(j *job) {
		j.sent = time.Now()
		atomic.StoreInt64(&j.sending, now())
		if j.cancel == "before" {
			cancel(j)
		}
		if p := h.Catch(func() { serv.Send(j.r) }); p != nil {
			bad("Send panics: %v", p)
		}
		atomic.StoreInt64(&j.sentAt, now())
		if j.cancel == "any" {
			wg.Add(1)
			go func() { defer wg.Done(); time.Sleep(j.after); cancel(j) }()
		}
	}
	var stopBeg, stopEnd int64
	stopIt := func() {
		atomic.StoreInt64(&stopBeg, now())
		h.Within(t, "Stop: "+desc(), serv.Stop)
		atomic.StoreInt64(&stopEnd, now())
	}
	stopped := make(chan bool)
	if p.stop == "any" {
		go func() {
			defer close(stopped)
			time.Sleep(p.stopPer)
			atomic.StoreInt64(&stopBeg, now())
			serv.Stop()
			atomic.StoreInt64(&stopEnd, now())
		}()
	}
	gates := 0
	for _, j := range jobs {
		if j.gate {
			gates++
		}
	}
	// the handlers that block come first, and fill all places
	h.Within(t, "sending: "+desc(), func() {
		for _, j := range jobs[:gates] {
			send(j)
		}
		if gates > 0 && p.stop != "any" {
			if !until(func() bool {
				k := atomic.LoadInt32(&gated)
				for _, j := range jobs[:gates] {
					if atomic.LoadInt32(&j.answers) > 0 && atomic.LoadInt64(&j.start) == 0 {
						k++ // cancelled or expired before
					}
				}
				return k >= int32(gates)
			}) {
				bad("%d of %d free places are used", gated, limit)
			}
		}
		var ss sync.WaitGroup
		for s := 0; s < p.senders; s++ {
			s := s
			ss.Add(1)
			go func() {
				defer ss.Done()
				for i := gates + s; i < len(jobs); i += p.senders {
					send(jobs[i])
				}
			}()
		}
		ss.Wait()
	})
	check()
	blocked := gates == int(limit) && p.stop != "any"
	for _, j := range jobs[:gates] {
		if atomic.LoadInt64(&j.start) == 0 {
			blocked = false
		}
	}
	if blocked {
		for _, j := range jobs[gates:] {
			if j.cancel == "queued" {
				cancel(j)
			}
		}
		if p.timeout > 0 && p.timeout < time.Second {
			// everything that waits expires, although nothing moves
			for i, j := range jobs[gates:] {
				if !until(func() bool { return atomic.LoadInt32(&j.answers) > 0 }) {
					t.Fatalf("waiting request %d does not expire: %s", i+gates, desc())
				}
			}
		}
		if atomic.LoadInt32(&running) > limit {
			bad("more handlers run than allowed")
		}
	} else {
		for _, j := range jobs {
			if j.cancel == "queued" {
				cancel(j)
			}
		}
	}
	if p.stop == "gate" {
		stopIt()
		if blocked {
			for i, j := range jobs[gates:] {
				if !until(func() bool { return atomic.LoadInt32(&j.answers) > 0 }) {
					t.Fatalf("request %d waited when the service was stopped and is not answered: %s", i+gates, desc())
				}
			}
		}
	}
	close(gate)
	if p.stop == "any" {
		select {
		case <-stopped:
		case <-time.After(wait):
			t.Fatalf("Stop does not return: %s\n%s", desc(), h.Stacks())
		}
	}
	wg.Wait()
	// a handler that watches a request nobody cancels
	if p.timeout == 0 || p.timeout > time.Second {
		loose := false
		for _, j := range jobs {
			loose = loose || (j.cancel == "" || j.cancel == "before") && (j.outcome == "watch" || j.outcome == "nested")
		}
		if loose {
			close(over)
		}
	}
	for i, j := range jobs {
		if !until(func() bool {
			return atomic.LoadInt32(&j.answers) > 0 && (atomic.LoadInt64(&j.start) == 0 || atomic.LoadInt64(&j.end) != 0)
		}) {
			t.Fatalf("request %d is not answered: runs %d, ended at %d, answers %d: %s\n%s", i, j.runs, j.end, j.answers, desc(), h.Stacks())
		}
	}
	check()
	if p.stop == "after" {
		// nothing that happened costs a place
		var in int32
		jobs = append([]*job(nil), jobs...)
		base := len(jobs)
		bar := make(chan bool)
		for k := 0; k < int(limit); k++ {
			jobs = append(jobs, &job{outcome: "probe"})
		}
		probes := make(chan bool, limit)
		probeServ := func(i int) {
			j := jobs[base+i]
			j.gate, j.code = true, 0
			j.r = &iproto.Request{Id: uint32(base + i), Msg: 9, Body: iproto.Body{byte(base + i), 7}, Responder: iproto.Callback(func(*iproto.Response) { probes <- true })}
		}
		gate = bar
		atomic.StoreInt32(&gated, 0)
		for k := 0; k < int(limit); k++ {
			probeServ(k)
		}
		for k := 0; k < int(limit); k++ {
			serv.Send(jobs[base+k].r)
		}
		ok := p.timeout > 0 && p.timeout < time.Second // the probes may expire
		if !ok && !until(func() bool { in = atomic.LoadInt32(&gated); return in == limit }) {
			t.Fatalf("only %d of %d places are left: %s", in, limit, desc())
		}
		close(bar)
		for k := 0; k < int(limit); k++ {
			select {
			case <-probes:
			case <-time.After(wait):
				t.Fatalf("places are lost: %s", desc())
			}
		}
		stopIt()
	}
	check()
	for i, j := range p.jobs {
		if n := atomic.LoadInt32(&j.answers); n != 1 {
			t.Fatalf("request %d has %d answers: %s", i, n, desc())
		}
		if why := j.verdict(p, stopBeg); why != "" {
			t.Fatalf("request %d (%v; %d runs) was answered with %#x % x, %s: %s", i, j, j.runs, uint32(j.res.Code), []byte(j.res.Body), why, desc())
		}
		if j.res.Id != uint32(i) || j.res.Msg != 9 {
			t.Fatalf("the answer to request %d has id %d and message %d: %s", i, j.res.Id, j.res.Msg, desc())
		}
	}
}

// verdict says what is wrong with the answer.
func (j *job) verdict(p *plan, stopBeg int64) string {
	canceled := j.cancelBeg != 0 && j.cancelBeg < j.answered && j.res.Code == iproto.RcCanceled
	if j.runs > 0 {
		if j.cancel == "before" {
			return "though it was cancelled before it was sent"
		}
		switch {
		case canceled && len(j.res.Body) == 0:
			return ""
		case j.outcome == "panic" || j.outcome == "unmarshal":
			if j.res.Code != iproto.RcInternalError {
				return "the handler failed"
			}
		case j.res.Code != j.code || !bytes.Equal(j.res.Body, j.body):
			return fmt.Sprintf("the handler returned %#x % x", uint32(j.code), j.body)
		case j.start > j.answered:
			return "before the handler ran"
		}
		return ""
	}
	switch j.res.Code {
	case iproto.RcTimeout:
		if p.timeout == 0 || j.at.Sub(j.sent) < p.timeout {
			return fmt.Sprintf("after %v", j.at.Sub(j.sent))
		}
	case iproto.RcCanceled: // and RcShutdown
		if !canceled && (stopBeg == 0 || stopBeg > j.answered) {
			return "though nothing cancelled it"
		}
	default:
		return "though it was never handled"
	}
	if len(j.res.Body) != 0 {
		return "with a body"
	}
	return ""
}

func drawJob(t *rapid.T, doomed bool, max int) *job {
	j := &job{outcome: "value"}
	outs := []string{"value", "value", "value", "panic", "unmarshal"}
	j.cancel = rapid.SampledFrom([]string{"", "", "", "before", "queued", "any"}).Draw(t, "cancel")
	if j.cancel == "any" {
		j.after = time.Duration(rapid.IntRange(0, 400).Draw(t, "after")) * time.Microsecond
	}
	if doomed || j.cancel == "any" || j.cancel == "queued" {
		outs = append(outs, "watch", "nested")
	}
	j.outcome = rapid.SampledFrom(outs).Draw(t, "outcome")
	if rapid.IntRange(0, 2).Draw(t, "slow") == 0 {
		j.sleep = time.Duration(rapid.IntRange(0, max).Draw(t, "sleep")) * time.Microsecond
	}
	j.code = rapid.SampledFrom([]iproto.RetCode{0, 0, 1, 0x1234, iproto.RcTimeout, iproto.RcCanceled, iproto.RcIOError, iproto.RcInternalError}).Draw(t, "code")
	switch rapid.IntRange(0, 3).Draw(t, "val") {
	case 0:
		j.val, j.body = iproto.Body("raw"), []byte("raw")
	case 1:
		j.val, j.body = uint32(0x01020304), []byte{4, 3, 2, 1}
	case 2:
		j.val, j.body = struct{ A, B uint8 }{1, 2}, []byte{1, 2}
	case 3:
		j.val, j.body = nil, nil
	}
	return j
}

// TestPool: loads of requests with all outcomes.
func TestPool(t *testing.T) {
	h.Run(t, "a service of 0-5 places with 0-40 requests that are handled, fail, are cancelled or expire, from 1-3 senders, stopped after, during or with all places taken; non-trivial with more requests than places and at least 2 outcomes; distinct by plan", 2500, func(t *rapid.T, c *h.Case) {
		p := &plan{n: rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5}).Draw(t, "n"), senders: rapid.IntRange(1, 3).Draw(t, "senders")}
		max := 200
		if rapid.IntRange(0, 2).Draw(t, "timed") == 0 {
			p.timeout = time.Duration(rapid.IntRange(1, 3000).Draw(t, "timeout")) * time.Microsecond
			if rapid.Bool().Draw(t, "long") {
				p.timeout = time.Hour
			}
			max = 1000
		}
		limit := p.n
		if limit == 0 {
			limit = 1
		}
		p.stop = rapid.SampledFrom([]string{"after", "after", "gate", "any"}).Draw(t, "stop")
		p.stopPer = time.Duration(rapid.IntRange(0, 800).Draw(t, "stopper")) * time.Microsecond
		doomed := p.timeout > 0 && p.timeout < time.Second
		if rapid.Bool().Draw(t, "gated") {
			for i := 0; i < limit; i++ {
				j := drawJob(t, doomed, max)
				j.gate = true
				if j.cancel == "before" || j.cancel == "queued" {
					j.cancel = ""
				}
				if j.cancel == "" && !doomed {
					j.outcome = "value"
				}
				p.jobs = append(p.jobs, j)
			}
		}
		for i := rapid.IntRange(0, 40).Draw(t, "m"); i > 0; i-- {
			p.jobs = append(p.jobs, drawJob(t, doomed, max))
		}
		stop, sched := h.Sched(t)
		defer stop()
		desc := func() string {
			return fmt.Sprintf("%d places, timeout %v, %d senders, stop %q after %v, schedule %s, jobs %v", p.n, p.timeout, p.senders, p.stop, p.stopPer, sched, p.jobs)
		}
		run(t, p, desc)
		outs := map[string]bool{}
		for _, j := range p.jobs {
			k := fmt.Sprintf("%s %v %#x", j.outcome, j.runs > 0, uint32(j.res.Code))
			outs[k] = true
			c.ClassIf(j.runs > 0 && j.outcome == "panic", "panic")
			c.ClassIf(j.runs > 0 && j.res.Code == iproto.RcTimeout, "handler returns the timeout code")
			c.ClassIf(j.runs == 0 && j.res.Code == iproto.RcTimeout, "expired while waiting")
			c.ClassIf(j.runs == 0 && j.cancel == "queued", "cancelled while waiting")
			c.ClassIf(j.runs > 0 && j.cancelBeg > j.start && j.cancelBeg < j.end, "cancelled while handled")
			c.ClassIf(j.runs == 0 && j.cancel == "" && j.res.Code == iproto.RcShutdown, "shut down while waiting")
		}
		c.Class("stop " + p.stop)
		if len(p.jobs) > limit && len(outs) > 1 {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
	})
}

// TestOverload: far more requests than the fast queue takes, stopped with
// most of them waiting and others arriving.
func TestOverload(t *testing.T) {
	h.Run(t, "1-4 senders send 100-40000 requests to a service of 1-4 places that is blocked, open or slow and is stopped when a drawn share is sent, part of them cancelled while waiting; non-trivial with more than 16384 requests; distinct by plan", 120, func(t *rapid.T, c *h.Case) {
		n := rapid.IntRange(1, 4).Draw(t, "n")
		m := rapid.SampledFrom([]int{100, 16000, 16384, 17000, 20000, 40000}).Draw(t, "m") + rapid.IntRange(0, 10).Draw(t, "more")
		senders := rapid.IntRange(1, 4).Draw(t, "senders")
		blocked := rapid.IntRange(0, 2).Draw(t, "blocked") > 0
		share := rapid.IntRange(0, 120).Draw(t, "share")
		every := rapid.SampledFrom([]int{0, 2, 7, 100}).Draw(t, "cancel")
		desc := func() string {
			return fmt.Sprintf("%d places, %d requests from %d senders, blocked %v, stopped at %d%%, one of %d cancelled", n, m, senders, blocked, share, every)
		}
		gate := make(chan bool)
		runs := make([]int32, m)
		answers := make([]int32, m)
		codes := make([]iproto.RetCode, m)
		var left = int64(m)
		var running, twice, many int32
		serv := iproto.BF{N: n}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			if atomic.AddInt32(&running, 1) > int32(n) {
				atomic.StoreInt32(&many, 1)
			}
			if atomic.AddInt32(&runs[r.Id], 1) > 1 {
				atomic.StoreInt32(&twice, 1)
			}
			<-gate
			atomic.AddInt32(&running, -1)
			return iproto.RetCode(r.Id * 8), iproto.Body("x")
		})
		if !blocked {
			close(gate)
		}
		reqs := make([]iproto.Request, m)
		canceled := make([]bool, m)
		var sent int64
		stopAt := int64(m) * int64(share) / 100
		stopNow := make(chan bool)
		stopped := make(chan bool)
		go func() {
			<-stopNow
			serv.Stop()
			close(stopped)
		}()
		var once sync.Once
		var ss sync.WaitGroup
		var panicked atomic.Value
		for s := 0; s < senders; s++ {
			s := s
			ss.Add(1)
			go func() {
				defer ss.Done()
				for i := s; i < m; i += senders {
					i := i
					r := &reqs[i]
					r.Id = uint32(i)
					r.Responder = iproto.Callback(func(res *iproto.Response) {
						if atomic.AddInt32(&answers[i], 1) == 1 {
							codes[i] = res.Code
							atomic.AddInt64(&left, -1)
						}
					})
					if p := h.Catch(func() { serv.Send(r) }); p != nil {
						panicked.Store(fmt.Sprint(p))
						return
					}
					if atomic.AddInt64(&sent, 1) >= stopAt {
						once.Do(func() { close(stopNow) })
					}
					if every != 0 && i%every == 0 {
						r.Cancel()
						canceled[i] = true
					}
				}
			}()
		}
		h.Within(t, "sending: "+desc(), ss.Wait)
		if p := panicked.Load(); p != nil {
			t.Fatalf("Send panics: %v: %s", p, desc())
		}
		if stopAt > int64(m) {
			if blocked {
				close(gate)
				blocked = false
			}
			if !until(func() bool { return atomic.LoadInt64(&left) == 0 }) {
				t.Fatalf("%d requests are not answered: %s", left, desc())
			}
			once.Do(func() { close(stopNow) })
		}
		h.Within(t, "Stop: "+desc(), func() { <-stopped })
		if blocked {
			if !until(func() bool { return atomic.LoadInt64(&left) <= int64(n) }) {
				t.Fatalf("%d waiting requests are not answered after Stop: %s", left, desc())
			}
			close(gate)
		}
		if !until(func() bool { return atomic.LoadInt64(&left) == 0 }) {
			t.Fatalf("%d requests are not answered: %s", left, desc())
		}
		if twice != 0 || many != 0 {
			t.Fatalf("handled twice: %v, too many handlers: %v: %s", twice != 0, many != 0, desc())
		}
		for i := range reqs {
			switch {
			case answers[i] != 1:
				t.Fatalf("request %d has %d answers: %s", i, answers[i], desc())
			case codes[i] == iproto.RetCode(i*8) && runs[i] == 1:
			case codes[i] == iproto.RcCanceled && (canceled[i] || runs[i] == 0 && stopAt <= int64(m)):
			default:
				t.Fatalf("request %d was answered with %#x after %d runs: %s", i, uint32(codes[i]), runs[i], desc())
			}
		}
		c.ClassIf(stopAt <= int64(m), "stopped while sending")
		if m > 16384 {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
	})
}
