package c12

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"

	"github.com/funny-falcon/go-iproto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const wait = 20 * time.Second

func until(cond func() bool) bool {
	for i := 0; i < 50; i++ {
		if cond() {
			return true
		}
		runtime.Gosched()
	}
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(50 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

// one request made through a context or one of its groups
type request struct {
	name     string
	n        *node
	g        *group
	r        *iproto.Request
	ch       <-chan *iproto.Response
	answered bool
	want     iproto.RetCode
	got      []iproto.RetCode
	seen     int32 // answers seen by the service side
}

type group struct {
	name    string
	n       *node
	g       *iproto.MultiRequest
	reqs    []*request
	failed  bool
	each    <-chan *iproto.Response
	got     []*iproto.Response
	left    bool // no longer something the context waits for
	closing bool
}

func (g *group) complete() bool {
	for _, r := range g.reqs {
		if !r.answered {
			return false
		}
	}
	return true
}

type canceler struct {
	name    string
	n       *node
	called  int32
	removed bool
	must    bool
}

func (c *canceler) Cancel() { atomic.AddInt32(&c.called, 1) }

type node struct {
	name    string
	cx      *iproto.Context
	rq      *iproto.ReqContext // the root made from a request
	rqReq   *iproto.Request
	rqCodes []iproto.RetCode
	rqDone  bool
	parent  *node
	failed  bool
	expired bool
	done    bool
	left    bool // does not count for the parent
	release chan bool
	mustRun bool
	ran     int32
	ended   int32
	ids     map[uint32]bool
}

type waiter struct {
	n        *node
	returned int32
	zero     bool // there was a moment when it had to return
}

type model struct {
	nodes   []*node
	reqs    []*request
	groups  []*group
	cs      []*canceler
	waiters []*waiter
	log     []string
}

func (m *model) pending(n *node) (k int) {
	for _, r := range m.reqs {
		if r.n == n && r.g == nil && !r.answered {
			k++
		}
	}
	for _, g := range m.groups {
		if g.n == n && !g.left {
			k++
		}
	}
	for _, c := range m.cs {
		if c.n == n && !c.removed {
			k++
		}
	}
	for _, ch := range m.nodes {
		if ch.parent == n && !ch.left {
			k++
		}
	}
	return
}

func (m *model) fail(n *node, expire bool) {
	if n.failed {
		return
	}
	n.failed, n.expired = true, expire
	for _, r := range m.reqs {
		if r.n == n && r.g == nil {
			r.answer(iproto.RcCanceled)
		}
	}
	for _, g := range m.groups {
		if g.n == n && !g.left {
			g.fail()
		}
	}
	for _, c := range m.cs {
		if c.n == n && !c.removed {
			c.must = true
		}
	}
	for _, ch := range m.nodes {
		if ch.parent == n && !ch.left {
			m.fail(ch, false)
		}
	}
}

func (g *group) fail() {
	g.failed = true
	for _, r := range g.reqs {
		r.answer(iproto.RcCanceled)
	}
}

func (r *request) answer(code iproto.RetCode) {
	if !r.answered {
		r.answered, r.want = true, code
	}
}

// body of the requests
type data struct{ N uint32 }

func (data) IMsg() iproto.RequestType { return 42 }

// TestTree drives a tree of contexts one operation at a time and compares all
// that can be seen with the model.
func TestTree(t *testing.T) {
	h.Run(t, "a sequence of 5-60 operations on a tree of contexts (plain or made from a request), with requests, groups, children, goroutines, cancelers, waits, failures; non-trivial if a context with at least 2 unfinished things under it failed, or a wait had to block; distinct by sequence", 6000, func(t *rapid.T, c *h.Case) {
		m := &model{}
		add := func(n *node) *node {
			n.name = fmt.Sprint("cx", len(m.nodes))
			n.ids = map[uint32]bool{}
			m.nodes = append(m.nodes, n)
			return n
		}
		logf := func(f string, a ...interface{}) { m.log = append(m.log, fmt.Sprintf(f, a...)) }
		bad := func(f string, a ...interface{}) {
			t.Fatalf("%s, after:\n%s", fmt.Sprintf(f, a...), strings.Join(m.log, "\n"))
		}
		var releases []chan bool
		defer func() {
			for _, r := range releases {
				select {
				case <-r:
				default:
					close(r)
				}
			}
		}()
		for i := rapid.IntRange(1, 2).Draw(t, "roots"); i > 0; i-- {
			if rapid.Bool().Draw(t, "fromrequest") {
				n := &node{left: true}
				r := &iproto.Request{Responder: iproto.Callback(func(res *iproto.Response) { n.rqCodes = append(n.rqCodes, res.Code) })}
				r.SetPending()
				n.rq, n.rqReq = r.Context(), r
				if n.rq == nil {
					t.Fatalf("a pending request gave no context")
				}
				n.cx = &n.rq.Context
				add(n)
				logf("%s from a request", n.name)
			} else {
				add(&node{cx: &iproto.Context{}, left: true})
			}
		}
		svc := iproto.SF(func(*iproto.Request) {})
		newRequest := func(n *node) {
			r := &request{name: fmt.Sprint("request", len(m.reqs)), n: n}
			how := rapid.IntRange(0, 2).Draw(t, "how")
			switch how {
			case 0:
				r.r, r.ch = n.cx.NewRequest(5, iproto.Body("q"))
				svc.Send(r.r)
			case 1:
				r.r, r.ch = n.cx.SendMsgBody(svc, 5, uint32(7))
			case 2:
				r.r, r.ch = n.cx.Send(svc, data{3})
			}
			if n.ids[r.r.Id] {
				bad("two requests of %s have id %d", n.name, r.r.Id)
			}
			n.ids[r.r.Id] = true
			if n.failed {
				r.answer(iproto.RcCanceled)
			}
			m.reqs = append(m.reqs, r)
			logf("%s in %s", r.name, n.name)
		}
		blocked, bigFail := false, false
		goroutine := func(n *node) {
			ch := &node{parent: n, release: make(chan bool)}
			releases = append(releases, ch.release)
			how := rapid.IntRange(0, 3).Draw(t, "go")
			body := func(cx *iproto.Context) {
				atomic.AddInt32(&ch.ran, 1)
				<-ch.release
				if how > 1 {
					cx.Done()
				}
				atomic.AddInt32(&ch.ended, 1)
			}
			type key struct{ N int }
			k := &key{len(m.nodes)}
			bodyI := func(cx *iproto.Context, i interface{}) {
				if i != interface{}(k) {
					atomic.AddInt32(&ch.ran, 100)
				}
				body(cx)
			}
			switch how {
			case 0:
				ch.cx = n.cx.Go(body)
			case 1:
				ch.cx = n.cx.GoInt(bodyI, k)
			case 2:
				ch.cx = n.cx.GoAsync(body)
			case 3:
				ch.cx = n.cx.GoIntAsync(bodyI, k)
			}
			ch.mustRun = !n.failed
			if n.failed {
				ch.left, ch.failed = true, true
			}
			add(ch)
			logf("%s goroutine %d of %s", ch.name, how, n.name)
			if ch.mustRun && !until(func() bool { return atomic.LoadInt32(&ch.ran) != 0 }) {
				bad("the function of %s was not run", ch.name)
			}
		}
		for i, k := 0, rapid.IntRange(5, 60).Draw(t, "ops"); i < k; i++ {
			n := rapid.SampledFrom(m.nodes).Draw(t, "n")
			if n.done {
				continue
			}
			switch rapid.SampledFrom([]string{"request", "request", "group", "grouprequest", "grouprequest", "child", "go", "canceler", "answer", "answer", "answer", "collect", "remove", "wait", "finish", "finish", "fail", "root"}).Draw(t, "op") {
			case "request":
				for j := rapid.SampledFrom([]int{1, 1, 2, 20}).Draw(t, "times"); j > 0; j-- {
					newRequest(n)
				}
			case "group":
				g := &group{name: fmt.Sprint("group", len(m.groups)), n: n, g: n.cx.NewMulti()}
				if n.failed {
					g.failed, g.left = true, true
				}
				m.groups = append(m.groups, g)
				logf("%s in %s", g.name, n.name)
			case "grouprequest":
				if len(m.groups) == 0 {
					continue
				}
				g := rapid.SampledFrom(m.groups).Draw(t, "g")
				if g.closing || g.n.done {
					continue
				}
				r := &request{name: fmt.Sprint("request", len(m.reqs)), n: g.n, g: g}
				r.r = g.g.SendMsgBody(svc, 6, iproto.Body("gq"))
				g.reqs = append(g.reqs, r)
				if g.failed {
					r.answer(iproto.RcCanceled)
				}
				m.reqs = append(m.reqs, r)
				logf("%s in %s", r.name, g.name)
			case "child":
				cx, ok := n.cx.Child()
				ch := add(&node{cx: cx, parent: n})
				logf("%s child of %s", ch.name, n.name)
				if ok == n.failed {
					bad("Child of a context (failed %v) returned %v", n.failed, ok)
				}
				if n.failed {
					ch.left, ch.failed = true, true
				}
			case "go":
				goroutine(n)
			case "canceler":
				for j := rapid.SampledFrom([]int{1, 1, 3}).Draw(t, "times"); j > 0; j-- {
					cn := &canceler{name: fmt.Sprint("canceler", len(m.cs)), n: n, must: n.failed, removed: n.failed}
					n.cx.AddCanceler(cn)
					m.cs = append(m.cs, cn)
					logf("%s in %s", cn.name, n.name)
				}
			case "remove":
				if len(m.cs) == 0 {
					continue
				}
				cn := rapid.SampledFrom(m.cs).Draw(t, "cn")
				cn.n.cx.RemoveCanceler(cn)
				cn.removed = true
				logf("%s removed", cn.name)
			case "answer":
				if len(m.reqs) == 0 {
					continue
				}
				r := m.reqs[len(m.reqs)-1-rapid.IntRange(0, len(m.reqs)-1).Draw(t, "r")]
				code := iproto.RetCode(i * 8)
				if rapid.Bool().Draw(t, "failure") {
					code++
					r.r.RespondFail(code)
				} else {
					r.r.RespondBytes(code, []byte("x"))
				}
				r.answer(code)
				logf("%s answered %#x", r.name, code)
			case "collect":
				if len(m.groups) == 0 {
					continue
				}
				g := rapid.SampledFrom(m.groups).Draw(t, "g")
				if g.closing {
					continue
				}
				if g.complete() && rapid.Bool().Draw(t, "results") {
					h.Within(t, "Results of a complete group", func() { g.got = g.g.Results() })
					g.left = true
				} else {
					g.each = g.g.Each()
				}
				g.closing = true
				logf("%s collected", g.name)
			case "wait":
				w := &waiter{n: n}
				m.waiters = append(m.waiters, w)
				go func() {
					n.cx.WaitAll()
					atomic.StoreInt32(&w.returned, 1)
				}()
				logf("wait for %s with %d things", n.name, m.pending(n))
				if m.pending(n) > 0 {
					blocked = true
					time.Sleep(10 * time.Microsecond)
				}
			case "finish":
				if n.parent == nil {
					continue
				}
				logf("%s ends", n.name)
				if n.release != nil {
					close(n.release)
					if n.mustRun && !until(func() bool { return atomic.LoadInt32(&n.ended) != 0 }) {
						bad("the function of %s does not end", n.name)
					}
				} else {
					n.cx.Done()
				}
				n.done, n.left = true, true
			case "fail":
				if n.parent == nil && rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					continue
				}
				bigFail = bigFail || (!n.failed && m.pending(n) > 1)
				if rapid.Bool().Draw(t, "expire") {
					logf("%s expired", n.name)
					h.Within(t, "Expire", n.cx.Expire)
					m.fail(n, true)
				} else {
					logf("%s canceled", n.name)
					h.Within(t, "Cancel", n.cx.Cancel)
					m.fail(n, false)
				}
			case "root":
				if n.rq == nil || n.rqDone || rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					continue
				}
				switch rapid.IntRange(0, 3).Draw(t, "root") {
				case 0:
					logf("the request of %s canceled", n.name)
					h.Within(t, "Cancel", n.rqReq.Cancel)
					m.fail(n, false)
					n.rqDone = true
				case 1:
					logf("the request of %s expired", n.name)
					h.Within(t, "Expire", n.rqReq.Expire)
					m.fail(n, true)
				case 2:
					logf("the request of %s answered", n.name)
					n.rqReq.RespondBytes(iproto.RetCode(i*8), nil)
					n.rqDone, n.done = true, true
				case 3:
					logf("%s done", n.name)
					n.rq.Done()
					n.rqDone, n.done = true, true
				}
				if n.rqDone && len(n.rqCodes) != 1 {
					bad("the request of %s has answers %v", n.name, n.rqCodes)
				}
			}
			// groups
			for _, g := range m.groups {
				if g.each != nil && g.complete() {
					g.left = true
				}
			}
			// the contexts
			for _, n := range m.nodes {
				if n.release != nil && !n.mustRun && n.cx.Alive() {
					bad("%s was started under a failed context and is alive", n.name)
				}
				if n.cx.Alive() == n.failed {
					bad("%s is alive: %v, failed: %v", n.name, n.cx.Alive(), n.failed)
				}
				if n.failed && n.expired && !n.cx.Timeout() {
					bad("%s was expired and does not say so", n.name)
				}
				if !n.failed && n.cx.Timeout() {
					bad("%s says it was expired", n.name)
				}
				if r := atomic.LoadInt32(&n.ran); r > 1 {
					bad("the function of %s was run more than once or with something else (%d)", n.name, r)
				}
				if len(n.rqCodes) > 1 || (len(n.rqCodes) == 1 && !n.rqDone && !n.expired) {
					bad("the request of %s has answers %v", n.name, n.rqCodes)
				}
			}
			// the requests
			for _, r := range m.reqs {
				if r.g == nil {
					for more := true; more; {
						select {
						case res := <-r.ch:
							r.got = append(r.got, res.Code)
						default:
							more = false
						}
					}
					if len(r.got) > 1 || (len(r.got) == 1) != r.answered || (r.answered && r.got[0] != r.want) {
						bad("%s has answers %#x; answered %v with %#x", r.name, r.got, r.answered, r.want)
					}
				} else if r.r.Performed() != r.answered {
					bad("%s of %s is performed: %v, answered: %v", r.name, r.g.name, r.r.Performed(), r.answered)
				}
			}
			for _, cn := range m.cs {
				if called := atomic.LoadInt32(&cn.called) > 0; called != cn.must {
					bad("%s was called: %v, had to be: %v", cn.name, called, cn.must)
				}
			}
			m.waits(bad)
		}
		// the end: everything finishes, and every wait returns
		logf("the end")
		for _, r := range m.reqs {
			r.r.RespondFail(0x999)
			r.answer(0x999)
		}
		for _, g := range m.groups {
			if !g.closing {
				h.Within(t, "Results of a complete group", func() { g.got = g.g.Results() })
			} else if g.each != nil {
				h.Within(t, "Each", func() {
					for res := range g.each {
						g.got = append(g.got, res)
					}
				})
			}
			g.left = true
			if len(g.got) != len(g.reqs) {
				bad("%s of %d requests has %d answers", g.name, len(g.reqs), len(g.got))
			}
			for _, res := range g.got {
				if w := g.reqs[res.Id].want; res.Code != w {
					bad("%s has answer %#x instead of %#x", g.reqs[res.Id].name, res.Code, w)
				}
			}
		}
		for _, cn := range m.cs {
			cn.n.cx.RemoveCanceler(cn)
			cn.removed = true
		}
		for i := len(m.nodes) - 1; i >= 0; i-- {
			n := m.nodes[i]
			if n.parent != nil && !n.done {
				if n.release != nil {
					close(n.release)
					if n.mustRun && !until(func() bool { return atomic.LoadInt32(&n.ended) != 0 }) {
						bad("the function of %s does not end", n.name)
					}
				} else {
					n.cx.Done()
				}
			}
			n.done, n.left = true, true
		}
		m.waits(bad)
		for _, n := range m.nodes {
			h.Within(t, "a wait for "+n.name+" with nothing under it, after "+strings.Join(m.log, "\n"), n.cx.WaitAll)
			if n.rq != nil && len(n.rqCodes) == 0 {
				n.rq.Done()
				if len(n.rqCodes) != 1 {
					bad("the request of %s has answers %v", n.name, n.rqCodes)
				}
			}
		}
		c.ClassIf(blocked, "a wait that blocks")
		c.ClassIf(bigFail, "failure with unfinished things")
		c.ClassIf(len(m.waiters) > 1, "several waits")
		c.ClassIf(len(m.nodes) > 4, "more than 4 contexts")
		if blocked || bigFail {
			s := strings.Join(m.log, "; ")
			c.NonTrivial(s)
			c.Sample("%s", s)
		}
	})
}

func (m *model) waits(bad func(string, ...interface{})) {
	for _, w := range m.waiters {
		if m.pending(w.n) == 0 {
			w.zero = true
			if !until(func() bool { return atomic.LoadInt32(&w.returned) != 0 }) {
				bad("a wait for %s does not return when nothing is left under it\n%s", w.n.name, h.Stacks())
			}
		} else if atomic.LoadInt32(&w.returned) != 0 && !w.zero {
			bad("a wait for %s returned with %d things under it", w.n.name, m.pending(w.n))
		}
	}
}

// rnode is a context of the concurrent test, and its plan.
type rnode struct {
	name     string
	parent   *rnode
	depth    int
	how      int // 0 Go, 1 GoInt, 2 GoAsync, 3 GoIntAsync, 4 Child
	steps    []rstep
	linger   bool // Done before what it started has finished
	cx       *iproto.Context
	created  int64 // logical times
	ready    chan bool
	ran      int32
	active   int32 // failures at work in the tree (in the root)
	done     int64 // when Done began
	failures []*failure
	kids     []*rnode
	mu       sync.Mutex
	reqs     []*rreq
	groups   []*rgroup
}

type rstep struct {
	op    string // request, group, child, wait, pause
	n     int
	kid   *rnode
	pause time.Duration
}

type failure struct {
	n          *rnode
	expire     bool
	after      time.Duration
	atStep     int // or when the node is about to make this step, by the node itself
	start, end int64
}

type rreq struct {
	n            *rnode
	g            *rgroup
	r            *iproto.Request
	ch           <-chan *iproto.Response
	before, made int64
	performed    bool // at once
	code         iproto.RetCode
	never        bool
	workStart    int64
}

type rgroup struct {
	n         *rnode
	g         *iproto.MultiRequest
	made      int64
	collected int64
	reqs      []*rreq
	got       []*iproto.Response
}

func (n *rnode) top() *rnode {
	for n.parent != nil {
		n = n.parent
	}
	return n
}

func (n *rnode) String() string {
	s := fmt.Sprintf("%s(how %d linger %v", n.name, n.how, n.linger)
	for _, st := range n.steps {
		if st.kid != nil {
			s += " " + st.kid.String()
		} else {
			s += fmt.Sprintf(" %s%d", st.op, st.n)
		}
	}
	return s + ")"
}

// TestRace: many goroutines build a tree of contexts while others answer
// requests, fail contexts and wait.
func TestRace(t *testing.T) {
	h.Run(t, "a tree of 1-9 contexts grown by their own goroutines while 1-3 workers answer the requests, 0-3 failures hit drawn contexts and 0-3 goroutines wait for drawn contexts; non-trivial with a failure of a context that has at least 2 requests or a child; distinct by plan", 2000, func(t *rapid.T, c *h.Case) {
		var clock int64
		now := func() int64 { return atomic.AddInt64(&clock, 1) }
		var all []*rnode
		var grow func(parent *rnode, depth int) *rnode
		us := func(name string, max int) time.Duration {
			return time.Duration(rapid.IntRange(0, max).Draw(t, name)) * time.Microsecond
		}
		big := rapid.IntRange(0, 4).Draw(t, "big") == 0
		grow = func(parent *rnode, depth int) *rnode {
			n := &rnode{name: fmt.Sprint("n", len(all)), parent: parent, depth: depth, ready: make(chan bool)}
			all = append(all, n)
			n.how = rapid.IntRange(0, 4).Draw(t, "how")
			n.linger = rapid.IntRange(0, 3).Draw(t, "linger") == 0
			for i := rapid.IntRange(0, 5).Draw(t, "steps"); i > 0; i-- {
				st := rstep{op: rapid.SampledFrom([]string{"request", "request", "group", "child", "child", "wait", "pause"}).Draw(t, "op")}
				switch st.op {
				case "request":
					st.n = rapid.IntRange(1, 4).Draw(t, "n")
					if big {
						st.n = 30
					}
				case "group":
					st.n = rapid.IntRange(0, 4).Draw(t, "n")
				case "child":
					if len(all) < 9 && depth < 3 {
						st.kid = grow(n, depth+1)
						n.kids = append(n.kids, st.kid)
					} else {
						st.op = "pause"
					}
				case "pause":
					st.pause = us("pause", 200)
				}
				n.steps = append(n.steps, st)
			}
			return n
		}
		root := grow(nil, 0)
		neverRate := rapid.IntRange(0, 2).Draw(t, "never")
		var fs []*failure
		byNode := map[*rnode]*failure{}
		for i := rapid.IntRange(0, 3).Draw(t, "failures"); i > 0; i-- {
			f := &failure{n: rapid.SampledFrom(all).Draw(t, "fn"), expire: rapid.Bool().Draw(t, "expire"), after: us("after", 400), atStep: -1}
			if rapid.IntRange(0, 2).Draw(t, "own") == 0 && byNode[f.n] == nil {
				f.atStep = rapid.IntRange(0, len(f.n.steps)).Draw(t, "atstep")
				byNode[f.n] = f
			}
			fs = append(fs, f)
			f.n.failures = append(f.n.failures, f)
		}
		type waitr struct {
			n     *rnode
			after time.Duration
		}
		var ws []waitr
		for i := rapid.IntRange(0, 3).Draw(t, "waits"); i > 0; i-- {
			ws = append(ws, waitr{rapid.SampledFrom(all).Draw(t, "wn"), us("wafter", 300)})
		}
		nworkers := rapid.IntRange(1, 3).Draw(t, "workers")
		workPause := us("workpause", 60)
		stop, sched := h.Sched(t)
		defer stop()
		desc := func() string {
			s := fmt.Sprintf("tree %v; schedule %s", root, sched)
			for _, f := range fs {
				s += fmt.Sprintf("; failure of %s (expire %v, after %v, at step %d) during %d-%d", f.n.name, f.expire, f.after, f.atStep, f.start, f.end)
			}
			return s
		}
		var emu sync.Mutex
		var errs []string
		bad := func(f string, a ...interface{}) {
			emu.Lock()
			errs = append(errs, fmt.Sprintf(f, a...))
			emu.Unlock()
		}
		check := func() {
			emu.Lock()
			defer emu.Unlock()
			if len(errs) > 0 {
				if len(errs) > 5 {
					errs = errs[:5]
				}
				t.Fatalf("%s\n%s", strings.Join(errs, "\n"), desc())
			}
		}

		queue := make(chan *rreq, 100000)
		final := make(chan bool)
		var late []*rreq
		var lateMu sync.Mutex
		work := func(q *rreq) {
			atomic.StoreInt64(&q.workStart, now())
			if q.code&8 != 0 {
				q.r.RespondFail(q.code)
			} else {
				q.r.RespondBytes(q.code, []byte("x"))
			}
		}
		var workers sync.WaitGroup
		for i := 0; i < nworkers; i++ {
			workers.Add(1)
			go func() {
				defer workers.Done()
				for q := range queue {
					if workPause > 0 {
						time.Sleep(workPause)
					}
					if q.never {
						lateMu.Lock()
						late = append(late, q)
						lateMu.Unlock()
						continue
					}
					work(q)
				}
			}()
		}
		var ordinal int64
		svc := iproto.SF(func(r *iproto.Request) {})
		doFail := func(f *failure) {
			n := f.n
			atomic.AddInt32(&n.top().active, 1)
			atomic.StoreInt64(&f.start, now())
			if f.expire {
				n.cx.Expire()
			} else {
				n.cx.Cancel()
			}
			end := now()
			atomic.StoreInt64(&f.end, end)
			if atomic.AddInt32(&n.top().active, -1) != 0 {
				return // the one that came first may still be at it
			}
			// all that was there before is failed now
			for _, d := range all {
				if !under(d, n, f.start) {
					continue
				}
				if d.cx.Alive() {
					bad("%s is alive after the failure of %s", d.name, n.name)
				}
				d.mu.Lock()
				for _, q := range d.reqs {
					if q.made < f.start && !q.r.Performed() {
						bad("a request of %s made before the failure of %s is not answered after it", d.name, n.name)
					}
				}
				d.mu.Unlock()
			}
		}
		var running sync.WaitGroup
		var run func(n *rnode)
		start := func(n *rnode) {
			// is it certain that an ancestor failed before?
			dead := certainlyFailed(n.parent)
			atomic.AddInt64(&clock, 1)
			running.Add(1)
			var once sync.Once
			gone := func() { once.Do(running.Done) }
			body := func(cx *iproto.Context) {
				defer gone()
				<-n.ready
				n.mu.Lock()
				k := atomic.AddInt32(&n.ran, 1)
				n.mu.Unlock()
				if k > 1000 {
					return // too late, the test does not count on it
				}
				if k > 1 {
					bad("the function of %s is run twice", n.name)
					return
				}
				if cx != n.cx {
					bad("the function of %s is run with another context", n.name)
				}
				run(n)
			}
			p := n.parent.cx
			switch n.how {
			case 0:
				n.cx = p.Go(body)
			case 1:
				n.cx = p.GoInt(func(cx *iproto.Context, i interface{}) {
					if i != n {
						bad("GoInt passes another value")
					}
					body(cx)
				}, n)
			case 2:
				n.cx = p.GoAsync(func(cx *iproto.Context) { body(cx); cx.Done() })
			case 3:
				n.cx = p.GoIntAsync(func(cx *iproto.Context, i interface{}) {
					if i != n {
						bad("GoIntAsync passes another value")
					}
					body(cx)
					cx.Done()
				}, n)
			case 4:
				var ok bool
				n.cx, ok = p.Child()
				if ok == dead && dead {
					bad("%s is a child of a failed context and said to be fine", n.name)
				}
				go func() { body(n.cx); n.cx.Done() }()
			}
			atomic.StoreInt64(&n.created, now())
			if dead && n.cx.Alive() {
				bad("%s was made under a failed context and is alive", n.name)
			}
			if n.how != 4 && !possiblyFailed(n.parent) {
				close(n.ready)
				if !until(func() bool { return atomic.LoadInt32(&n.ran) > 0 }) {
					bad("the function of %s is not run", n.name)
					gone()
				}
				return
			}
			close(n.ready)
			if n.how != 4 && !n.cx.Alive() {
				// perhaps it is never run
				go func() {
					for i := 0; i < 100 && atomic.LoadInt32(&n.ran) == 0; i++ {
						time.Sleep(20 * time.Microsecond)
					}
					n.mu.Lock()
					if n.ran == 0 {
						n.ran = 1000
						gone()
					}
					n.mu.Unlock()
				}()
			}
		}
		run = func(n *rnode) {
			own := byNode[n]
			var colls sync.WaitGroup
			for i, st := range n.steps {
				if own != nil && own.atStep == i {
					doFail(own)
				}
				switch st.op {
				case "request":
					for j := 0; j < st.n; j++ {
						q := &rreq{n: n, before: now()}
						k := atomic.AddInt64(&ordinal, 1)
						q.code = iproto.RetCode(0x10000 + k*8)
						q.never = int(k%6) < neverRate
						dead := certainlyFailed(n)
						if k%2 == 0 {
							q.r, q.ch = n.cx.NewRequest(5, iproto.Body("q"))
							if dead && !q.r.Performed() {
								bad("a request made in %s after a failure is not answered at once", n.name)
							}
							svc.Send(q.r)
						} else {
							q.r, q.ch = n.cx.SendMsgBody(svc, 5, uint32(k))
						}
						if dead && !q.r.Performed() {
							bad("a request sent in %s after a failure is not answered at once", n.name)
						}
						q.made = now()
						n.mu.Lock()
						n.reqs = append(n.reqs, q)
						n.mu.Unlock()
						queue <- q
					}
				case "group":
					g := &rgroup{n: n, g: n.cx.NewMulti()}
					g.made = now()
					for j := 0; j < st.n; j++ {
						q := &rreq{n: n, g: g, before: now()}
						k := atomic.AddInt64(&ordinal, 1)
						q.code = iproto.RetCode(0x10000 + k*8)
						q.never = int(k%6) < neverRate
						dead := certainlyFailed(n)
						q.r = g.g.SendMsgBody(svc, 6, iproto.Body("gq"))
						if dead && !q.r.Performed() {
							bad("a request added to a group in %s after a failure is not answered at once", n.name)
						}
						q.made = now()
						g.reqs = append(g.reqs, q)
						n.mu.Lock()
						n.reqs = append(n.reqs, q)
						n.mu.Unlock()
						queue <- q
					}
					n.mu.Lock()
					n.groups = append(n.groups, g)
					n.mu.Unlock()
					colls.Add(1)
					go func() {
						defer colls.Done()
						atomic.StoreInt64(&g.collected, now())
						if len(g.reqs)%2 == 0 {
							g.got = g.g.Results()
						} else {
							for res := range g.g.Each() {
								g.got = append(g.got, res)
							}
						}
					}()
				case "child":
					start(st.kid)
				case "pause":
					time.Sleep(st.pause)
				}
			}
			if own != nil && own.atStep == len(n.steps) {
				doFail(own)
			}
			if !n.linger {
				n.cx.WaitAll()
			}
			colls.Wait()
			atomic.StoreInt64(&n.done, now())
		}
		root.cx = &iproto.Context{}
		root.created = now()
		other := &iproto.Context{}
		otherReq, otherCh := other.NewRequest(1, iproto.Body("o"))
		otherKid, _ := other.Child()

		running.Add(1)
		go func() { defer running.Done(); close(root.ready); run(root) }()
		var helpers sync.WaitGroup
		for _, f := range fs {
			if f.atStep >= 0 {
				continue
			}
			f := f
			helpers.Add(1)
			go func() {
				defer helpers.Done()
				time.Sleep(f.after)
				select {
				case <-f.n.ready:
					doFail(f)
				case <-final:
				}
			}()
		}
		for _, w := range ws {
			w := w
			helpers.Add(1)
			go func() {
				defer helpers.Done()
				time.Sleep(w.after)
				select {
				case <-w.n.ready:
				case <-final:
					return
				}
				s := now()
				w.n.cx.WaitAll()
				e := now()
				w.n.mu.Lock()
				for _, q := range w.n.reqs {
					if q.g == nil && q.made < s && !q.r.Performed() {
						bad("a wait for %s returned during %d-%d while a request made at %d is not answered", w.n.name, s, e, q.made)
					}
				}
				for _, g := range w.n.groups {
					if g.made < s && !possiblyFailed(w.n) {
						if at := atomic.LoadInt64(&g.collected); at == 0 || at > e {
							bad("a wait for %s returned during %d-%d while a group made at %d is not collected", w.n.name, s, e, g.made)
						}
					}
				}
				w.n.mu.Unlock()
				for _, k := range w.n.kids {
					if cr := atomic.LoadInt64(&k.created); cr != 0 && cr < s && atomic.LoadInt32(&k.ran) == 1 && !possiblyFailed(w.n) {
						if d := atomic.LoadInt64(&k.done); d == 0 || d > e {
							bad("a wait for %s returned during %d-%d while its child %s runs", w.n.name, s, e, k.name)
						}
					}
				}
			}()
		}
		finished := make(chan bool)
		go func() {
			// the requests that no worker answers are answered when nothing moves
			for i := 0; ; i++ {
				select {
				case <-finished:
					return
				case <-time.After(500 * time.Microsecond):
				}
				lateMu.Lock()
				l := late
				late = nil
				lateMu.Unlock()
				for _, q := range l {
					work(q)
				}
			}
		}()
		h.Within(t, "the tree to finish: "+desc(), func() { running.Wait(); close(final); helpers.Wait() })
		close(queue)
		workers.Wait()
		close(finished)
		for _, n := range all {
			for _, q := range n.reqs {
				work(q)
			}
		}
		check()
		for _, n := range all {
			if n.cx == nil {
				continue
			}
			mayFail := possiblyFailed(n)
			if !mayFail && !n.cx.Alive() {
				t.Fatalf("%s is not alive and nothing failed it: %s", n.name, desc())
			}
			verdict := func(q *rreq, code iproto.RetCode) {
				if code != q.code && (code != iproto.RcCanceled || !mayFail) {
					t.Fatalf("a request of %s with code %#x got answer %#x: %s", n.name, q.code, code, desc())
				}
			}
			for _, q := range n.reqs {
				if q.g != nil {
					continue
				}
				select {
				case res := <-q.ch:
					verdict(q, res.Code)
				default:
					t.Fatalf("a request of %s was never answered: %s", n.name, desc())
				}
				select {
				case <-q.ch:
					t.Fatalf("a request of %s was answered twice: %s", n.name, desc())
				default:
				}
			}
			for _, g := range n.groups {
				if len(g.got) != len(g.reqs) {
					t.Fatalf("a group of %s with %d requests has %d answers: %s", n.name, len(g.reqs), len(g.got), desc())
				}
				for _, res := range g.got {
					verdict(g.reqs[res.Id], res.Code)
				}
			}
			h.Within(t, "a wait for a finished context: "+desc(), n.cx.WaitAll)
		}
		if otherReq.Performed() || !other.Alive() || !otherKid.Alive() {
			t.Fatalf("another context was failed: %s", desc())
		}
		other.Expire()
		select {
		case <-otherCh:
		default:
			t.Fatalf("a request is not answered after the failure of its context: %s", desc())
		}
		otherKid.Done()
		h.Within(t, "a wait for a finished context", other.WaitAll)
		hit := false
		for _, f := range fs {
			if f.start != 0 && (len(f.n.reqs) > 1 || len(f.n.kids) > 0) {
				hit = true
			}
		}
		c.ClassIf(hit, "failure of a context in use")
		c.ClassIf(len(fs) > 1, "several failures")
		c.ClassIf(len(ws) > 0, "waits")
		c.ClassIf(len(all) > 3, "more than 3 contexts")
		if hit {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
	})
}

// under says that d is certainly reached by a failure of n that began at the given time.
func under(d, n *rnode, start int64) bool {
	for ; d != n; d = d.parent {
		if d == nil {
			return false
		}
		cr := atomic.LoadInt64(&d.created)
		if cr == 0 || cr > start || atomic.LoadInt64(&d.done) != 0 {
			return false
		}
	}
	return atomic.LoadInt64(&d.created) != 0
}

// certainlyFailed: a failure that reached the node has returned.
func certainlyFailed(n *rnode) bool {
	if atomic.LoadInt32(&n.top().active) != 0 {
		return false
	}
	for a := n; a != nil; a = a.parent {
		for _, f := range a.failures {
			if e := atomic.LoadInt64(&f.end); e != 0 && under(n, a, f.start) {
				return true
			}
		}
	}
	return false
}

// possiblyFailed: a failure that can have reached the node has begun.
func possiblyFailed(n *rnode) bool {
	for a := n; a != nil; a = a.parent {
		for _, f := range a.failures {
			if atomic.LoadInt64(&f.start) != 0 {
				return true
			}
		}
	}
	return false
}
