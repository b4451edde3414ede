// Package lc has the model of a request's life cycle, and the drivers that
// compare requests with it, one operation at a time or many at once.
package lc

import (
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto"
	"pgregory.net/rapid"
)

// Mark is a bookmark that records what it sees, and resets the request the
// given number of times.
type Mark struct {
	iproto.Bookmark
	Name   string
	Resets int32
	To     string // "new", "pending" or "infly": what a reset makes of the request
	OnSeen func(m *Mark, res *iproto.Response)
	Seen   int32
}

func (m *Mark) Respond(res *iproto.Response) {
	req := m.Request
	atomic.AddInt32(&m.Seen, 1)
	if m.OnSeen != nil {
		m.OnSeen(m, res)
	}
	if m.Resets > 0 {
		m.Resets--
		switch m.To {
		case "new":
			req.ResetToNew()
		case "pending":
			req.ResetToPending()
		case "infly":
			req.ResetToPending()
			req.SetInFly(nil)
		}
	}
}

// NewRequest makes a request in one of the ways there are.
func NewRequest(t *rapid.T, respond func(*iproto.Response)) *iproto.Request {
	id, msg := uint32(ref.Uint(t, 32)), iproto.RequestType(ref.Uint(t, 32))
	body := iproto.Body(ref.Bytes(t, rapid.IntRange(0, 8).Draw(t, "body")))
	var r *iproto.Request
	if rapid.Bool().Draw(t, "generated") {
		g := iproto.GetGenerator()
		for i := rapid.IntRange(0, 40).Draw(t, "before"); i > 0; i-- {
			g.Request(1, 2, body)
		}
		r = g.Request(id, msg, body)
		g.Release()
	} else {
		r = &iproto.Request{Id: id, Msg: msg, Body: body}
		if rapid.Bool().Draw(t, "oldresponse") {
			r.Response = &iproto.Response{Id: id + 1, Msg: msg + 1, Code: 77, Body: []byte("old")}
		}
	}
	r.Responder = iproto.Callback(respond)
	return r
}

type answer struct {
	id, msg, code uint32
	body          []byte
}

func (a answer) String() string {
	return fmt.Sprintf("{id %#x msg %#x code %#x body % x}", a.id, a.msg, a.code, a.body)
}

func of(res *iproto.Response) answer {
	return answer{res.Id, uint32(res.Msg), uint32(res.Code), append([]byte(nil), res.Body...)}
}

func (a answer) same(b answer) bool {
	return a.id == b.id && a.msg == b.msg && a.code == b.code && bytes.Equal(a.body, b.body)
}

// value draws something to respond with, and its body.
func value(t *rapid.T) (interface{}, []byte) {
	b := ref.Bytes(t, rapid.IntRange(0, 9).Draw(t, "len"))
	switch rapid.IntRange(0, 4).Draw(t, "val") {
	case 0:
		return string(b), append(ref.AppendPrefix(nil, ref.I32, len(b)), b...)
	case 1:
		n := uint32(ref.Uint(t, 32))
		return n, ref.AppendPrefix(nil, ref.I32, int(n))
	case 2:
		return struct{ A, B uint8 }{1, 2}, []byte{1, 2}
	}
	return iproto.Body(b), b
}

var fails = []struct {
	name string
	code iproto.RetCode
	do   func(r *iproto.Request)
}{
	{"Cancel", iproto.RcCanceled, (*iproto.Request).Cancel},
	{"Expire", iproto.RcTimeout, (*iproto.Request).Expire},
	{"IOError", iproto.RcIOError, (*iproto.Request).IOError},
	{"ShutDown", iproto.RcShutdown, (*iproto.Request).ShutDown},
}

// Sequence drives one request through a drawn sequence of operations and
// compares everything that can be observed with the model.
func Sequence(t *rapid.T, c *h.Case, resets bool) {
	var events, want []string
	r := NewRequest(t, func(res *iproto.Response) { events = append(events, "answer "+of(res).String()) })
	id, msg := r.Id, uint32(r.Msg)
	state := "new"
	var chain, marks []*Mark // outermost first
	hist := ""
	completions, resetCount := 0, 0
	complete := func(code uint32, body []byte) {
		completions++
		a := answer{id, msg, code, body}
		for len(chain) > 0 {
			m := chain[len(chain)-1]
			want = append(want, m.Name+" "+a.String())
			if left := m.Resets; left > 0 {
				resetCount++
				state = m.To
				return
			}
			chain = chain[:len(chain)-1]
		}
		want = append(want, "answer "+a.String())
		state = "done"
	}
	newMark := func() *Mark {
		m := &Mark{Name: fmt.Sprintf("mark%d", len(marks))}
		m.OnSeen = func(m *Mark, res *iproto.Response) { events = append(events, m.Name+" "+of(res).String()) }
		if resets && rapid.IntRange(0, 2).Draw(t, "resetter") == 0 {
			m.Resets = int32(rapid.IntRange(1, 3).Draw(t, "resets"))
			m.To = rapid.SampledFrom([]string{"new", "pending", "infly"}).Draw(t, "to")
		}
		marks = append(marks, m)
		return m
	}
	expect := func(what string, got, want bool) {
		if got != want {
			t.Fatalf("%s gives %v, want %v, in state %s after %s", what, got, want, state, hist)
		}
	}
	n := rapid.IntRange(1, 25).Draw(t, "ops")
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 15).Draw(t, "op"); {
		case k < 3:
			ok := state == "new"
			if rapid.Bool().Draw(t, "sf") {
				hist += "SF.Send; "
				called := false
				iproto.SF(func(x *iproto.Request) { called = x == r }).Send(r)
				expect("handler call by SF.Send", called, ok)
				if ok {
					state = "infly"
				}
			} else {
				hist += "SetPending; "
				expect("SetPending", r.SetPending(), ok)
				if ok {
					state = "pending"
				}
			}
		case k < 5:
			ok := state == "pending"
			if rapid.Bool().Draw(t, "mark") {
				m := newMark()
				hist += fmt.Sprintf("SetInFly(%s, %d resets to %s); ", m.Name, m.Resets, m.To)
				expect("SetInFly with a bookmark", r.SetInFly(m), ok)
				if ok {
					chain = append(chain, m)
				}
			} else {
				hist += "SetInFly; "
				expect("SetInFly", r.SetInFly(nil), ok)
			}
			if ok {
				state = "infly"
			}
		case k < 8:
			m := newMark()
			ok := state == "new" || state == "pending"
			hist += fmt.Sprintf("ChainBookmark(%s, %d resets to %s); ", m.Name, m.Resets, m.To)
			expect("ChainBookmark", r.ChainBookmark(m), ok)
			if ok {
				chain = append(chain, m)
			}
		case k < 11:
			code := uint32(rapid.SampledFrom([]uint64{0, 0, 1, 2, 3, 0xff03, 0xfd03, ref.Uint(t, 32)}).Draw(t, "code"))
			val, body := value(t)
			// the model first: marks lose their resets when they run
			ok := state == "infly"
			if ok {
				complete(code, body)
			}
			if rapid.Bool().Draw(t, "bytes") {
				hist += fmt.Sprintf("RespondBytes(%#x, % x); ", code, body)
				r.RespondBytes(iproto.RetCode(code), body)
			} else {
				hist += fmt.Sprintf("Respond(%#x, % x); ", code, body)
				r.Respond(iproto.RetCode(code), val)
			}
		case k < 13:
			f := rapid.SampledFrom(fails).Draw(t, "fail")
			code, do := f.code, f.do
			if rapid.IntRange(0, 4).Draw(t, "custom") == 0 {
				code = iproto.RetCode(ref.Uint(t, 32))
				do = func(r *iproto.Request) { r.RespondFail(code) }
			}
			hist += fmt.Sprintf("fail with %#x; ", uint32(code))
			if state != "done" {
				complete(uint32(code), nil)
			}
			do(r)
		case k < 14:
			hist += "Route.Send; "
			called := false
			iproto.Route(func(x *iproto.Request) { called = x == r }).Send(r)
			expect("call by Route.Send", called, state == "new")
		default:
			if resets {
				continue
			}
			if rapid.IntRange(0, 3).Draw(t, "done") == 0 && state != "done" {
				hist += "Cancel; "
				complete(uint32(iproto.RcCanceled), nil)
				r.Cancel()
			}
		}
		if fmt.Sprint(events) != fmt.Sprint(want) {
			t.Fatalf("after %s\n happened %v\n want     %v", hist, events, want)
		}
		expect("Performed", r.Performed(), state == "done")
		expect("Canceled", r.Canceled(), state == "done")
		expect("IsPending", r.IsPending(), state == "pending")
		if st := map[string]uint32{"new": iproto.RsNew, "pending": iproto.RsPending, "infly": iproto.RsInFly, "done": iproto.RsPerformed}[state]; st != r.State() {
			t.Fatalf("state is %d, want %d (%s) after %s", r.State(), st, state, hist)
		}
		attached := map[*Mark]bool{}
		for _, m := range chain {
			attached[m] = true
		}
		for _, m := range marks {
			if m.Request != nil != attached[m] {
				t.Fatalf("%s attached: %v, want %v after %s", m.Name, m.Request != nil, attached[m], hist)
			}
		}
	}
	c.ClassIf(completions > 1, "completed again")
	c.ClassIf(resetCount > 0, "revived")
	c.ClassIf(len(marks) > 2, "three bookmarks or more")
	c.Class("ends " + state)
	if completions > 0 && (!resets || resetCount > 0) && n > 3 {
		c.NonTrivial(hist)
		c.Sample("%s", hist)
	}
}

// one operation of a race
type op struct {
	kind       string
	code       iproto.RetCode
	body       []byte
	mark       *Mark
	delay      int
	start, end int64
	ok         bool
}

func (o *op) String() string {
	s := fmt.Sprintf("[%d-%d] %s", o.start, o.end, o.kind)
	if o.code != 0 {
		s += fmt.Sprintf("(%#x)", uint32(o.code))
	}
	if o.mark != nil {
		s += "(" + o.mark.Name + ")"
	}
	switch o.kind {
	case "pend", "fly", "flymark", "chain":
		s += fmt.Sprintf("=%v", o.ok)
	}
	return s
}

// Race lets goroutines perform drawn operations on one request at once, and
// checks that there is one answer, from a completion that could be first.
func Race(t *rapid.T, c *h.Case, marks bool) {
	var clock int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	var mu sync.Mutex
	var answers []answer
	var at int64
	r := NewRequest(t, func(res *iproto.Response) {
		mu.Lock()
		answers = append(answers, of(res))
		at = now()
		mu.Unlock()
	})
	id, msg := r.Id, uint32(r.Msg)
	var all []*op
	var seenAt sync.Map
	newMark := func() *Mark {
		m := &Mark{Name: fmt.Sprintf("mark%d", len(all))}
		m.OnSeen = func(m *Mark, res *iproto.Response) {
			seenAt.Store(m, []interface{}{now(), of(res)})
		}
		return m
	}
	plans := make([][]*op, rapid.IntRange(2, 6).Draw(t, "goroutines"))
	initial := rapid.SampledFrom([]string{"new", "pending", "infly"}).Draw(t, "initial")
	if initial != "new" {
		o := &op{kind: "pend", start: now(), ok: r.SetPending(), end: now()}
		all = append(all, o)
	}
	if initial == "infly" {
		o := &op{kind: "fly", start: now(), ok: r.SetInFly(nil), end: now()}
		all = append(all, o)
	}
	kinds := []string{"pend", "pend", "fly", "fly", "flymark", "respond", "respond", "bytes", "fail", "named"}
	if marks {
		kinds = append(kinds, "chain", "chain", "chain", "flymark")
	}
	worker := rapid.Bool().Draw(t, "worker")
	for i := range plans {
		n := rapid.IntRange(1, 5).Draw(t, "ops")
		for j := 0; j < n; j++ {
			o := &op{kind: rapid.SampledFrom(kinds).Draw(t, "kind"), delay: rapid.SampledFrom([]int{0, 0, 0, 1, 20}).Draw(t, "delay")}
			if worker && i == 0 && j < 3 {
				o.kind = []string{"pend", "fly", "respond"}[j]
			}
			switch o.kind {
			case "respond", "bytes", "fail":
				o.code = iproto.RetCode(0x10000 + len(all))
				if o.kind != "fail" {
					o.body = []byte(fmt.Sprint("body", len(all)))
				}
			case "named":
				f := rapid.SampledFrom(fails).Draw(t, "named")
				o.code = f.code
			case "flymark", "chain":
				o.mark = newMark()
			}
			plans[i] = append(plans[i], o)
			all = append(all, o)
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "timeout") == 0 {
		// the timer is one more source of failures, that can come at any time
		d := time.Duration(rapid.SampledFrom([]int{1, 1000, 20000, 100000, 1000000}).Draw(t, "after"))
		all = append(all, &op{kind: "timer", code: iproto.RcTimeout, start: now(), end: 1 << 60})
		r.SetTimeout(d)
	}
	stop, sched := h.Sched(t)
	defer stop()
	start := make(chan struct{})
	var wg sync.WaitGroup
	var panicked atomic.Value
	for _, plan := range plans {
		wg.Add(1)
		go func(plan []*op) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					panicked.Store(fmt.Sprint(p))
				}
			}()
			<-start
			for _, o := range plan {
				for i := 0; i < o.delay; i++ {
					time.Sleep(time.Microsecond)
				}
				o.start = now()
				switch o.kind {
				case "pend":
					o.ok = r.SetPending()
				case "fly":
					o.ok = r.SetInFly(nil)
				case "flymark":
					o.ok = r.SetInFly(o.mark)
				case "chain":
					o.ok = r.ChainBookmark(o.mark)
				case "respond":
					r.Respond(o.code, iproto.Body(o.body))
				case "bytes":
					r.RespondBytes(o.code, o.body)
				case "fail":
					r.RespondFail(o.code)
				case "named":
					for _, f := range fails {
						if f.code == o.code {
							f.do(r)
							break
						}
					}
				}
				o.end = now()
			}
		}(plan)
	}
	close(start)
	h.Within(t, "operations on one request", wg.Wait)
	if p := panicked.Load(); p != nil {
		t.Fatalf("panic: %v: %v", p, all)
	}
	last := &op{kind: "fail", code: 0x77777, start: now()}
	h.Within(t, "RespondFail", func() { r.RespondFail(last.code) })
	last.end = now()
	all = append(all, last)
	stop()
	mu.Lock()
	defer mu.Unlock()
	hist := fmt.Sprintf("from %s, schedule %s: %v answered [%d] %v", initial, sched, all, at, answers)
	if len(answers) != 1 {
		t.Fatalf("%d answers: %s", len(answers), hist)
	}
	if !r.Performed() {
		t.Fatalf("answered and not performed: %s", hist)
	}
	a := answers[0]
	if a.id != id || a.msg != msg {
		t.Fatalf("the answer has another id or type: %s", hist)
	}
	count := map[string]int{}
	taken := (*op)(nil)
	sent := (*op)(nil)
	for _, o := range all {
		if o.ok && o.kind == "pend" {
			count["pend"]++
			sent = o
		}
		if o.ok && (o.kind == "fly" || o.kind == "flymark") {
			count["fly"]++
			taken = o
		}
		if o.ok && o.start > at {
			t.Fatalf("%v after the answer: %s", o, hist)
		}
	}
	if count["pend"] > 1 || count["fly"] > 1 {
		t.Fatalf("sent %d times and taken %d times: %s", count["pend"], count["fly"], hist)
	}
	if taken != nil && (sent == nil || sent.start > taken.end) {
		t.Fatalf("taken without being sent: %s", hist)
	}
	isFail := func(o *op) bool { return o.kind == "fail" || o.kind == "named" }
	// must tells that after the operation the request is completed for sure
	must := func(o *op) bool {
		return isFail(o) || (o.kind == "respond" || o.kind == "bytes") && taken != nil && taken.end < o.start
	}
	first := false
	for _, o := range all {
		if o.code != iproto.RetCode(a.code) || !bytes.Equal(o.body, a.body) {
			continue
		}
		if o.kind == "respond" || o.kind == "bytes" {
			if taken == nil || taken.start > o.end {
				continue // could not be accepted
			}
		}
		possible := o.start < at && o.end > at
		for _, x := range all {
			if x != o && must(x) && x.end < o.start {
				possible = false
			}
		}
		first = first || possible
	}
	if !first {
		t.Fatalf("the answer is not that of a completion that could be first: %s", hist)
	}
	for _, o := range all {
		// somebody else must have changed the state for these to be refused
		if o.ok || o.kind != "pend" && o.kind != "chain" {
			continue
		}
		reason := false
		for _, x := range all {
			if x == o || x.start > o.end {
				continue
			}
			if isFail(x) || x.kind == "timer" || x.ok && (x.kind == "pend" && o.kind == "pend" || x.kind == "fly" || x.kind == "flymark") {
				reason = true
			}
		}
		if !reason {
			t.Fatalf("%v was refused for no reason: %s", o, hist)
		}
	}
	nmarks := 0
	for _, o := range all {
		if o.mark == nil {
			continue
		}
		v, seen := seenAt.Load(o.mark)
		n := atomic.LoadInt32(&o.mark.Seen)
		if !o.ok {
			if n != 0 {
				t.Fatalf("%s was refused and saw %d responses: %s", o.mark.Name, n, hist)
			}
			continue
		}
		nmarks++
		if n != 1 || !seen {
			t.Fatalf("%s saw %d responses: %s", o.mark.Name, n, hist)
		}
		s := v.([]interface{})
		if got := s[1].(answer); !got.same(a) {
			t.Fatalf("%s saw %v: %s", o.mark.Name, got, hist)
		}
		if s[0].(int64) > at {
			t.Fatalf("%s ran after the responder: %s", o.mark.Name, hist)
		}
		if o.mark.Request != nil {
			t.Fatalf("%s is still attached: %s", o.mark.Name, hist)
		}
		if o.kind == "chain" && taken != nil && taken.end < o.start {
			t.Fatalf("%s was attached after work had started: %s", o.mark.Name, hist)
		}
		for _, x := range all {
			if x != o && x.mark != nil && x.ok && x.end < o.start {
				y, _ := seenAt.Load(x.mark)
				if y != nil && y.([]interface{})[0].(int64) < s[0].(int64) {
					t.Fatalf("%s ran before %s: %s", x.mark.Name, o.mark.Name, hist)
				}
			}
		}
	}
	comp := 0
	for _, o := range all {
		if o.code != 0 && o.start < at {
			comp++
		}
	}
	c.Class("schedule " + sched)
	c.ClassIf(comp > 1, "completions overlap")
	c.ClassIf(a.code >= 0x10000 && len(a.body) > 0, "answered by a proper response")
	if comp > 1 && (!marks || nmarks > 0) {
		c.NonTrivial(hist)
		c.Sample("%s", hist)
	}
}
