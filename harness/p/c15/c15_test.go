package c15

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"

	"github.com/funny-falcon/go-iproto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const wait = 30 * time.Second

func until(cond func() bool) bool {
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(20 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

// gate lets the consumers through when it is open.
type gate struct {
	mu sync.Mutex
	ch chan bool
}

func (g *gate) wait() <-chan bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.ch
}

func (g *gate) set(open bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	select {
	case <-g.ch:
		if !open {
			g.ch = make(chan bool)
		}
	default:
		if open {
			close(g.ch)
		}
	}
}

// leaf is an end point with consumers.
type leaf struct {
	iproto.SimplePoint
	name     string
	workers  int
	pace     time.Duration
	g        *gate
	got      func(l *leaf, r *iproto.Request)
	loops    int32
	exited   int32
	received int64
}

func (l *leaf) Loop() {
	atomic.AddInt32(&l.loops, 1)
	quit := make(chan bool)
	var wg sync.WaitGroup
	for i := 0; i < l.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-l.g.wait():
				case <-quit:
					return
				}
				select {
				case r, ok := <-l.ReceiveChan():
					if !ok {
						return
					}
					atomic.AddInt64(&l.received, 1)
					l.got(l, r)
					if l.pace > 0 {
						time.Sleep(l.pace)
					}
				case <-quit:
					return
				}
			}
		}()
	}
	<-l.ExitChan()
	close(quit)
	wg.Wait()
	atomic.AddInt32(&l.exited, 1)
}

// tree is an end point: a leaf, or a balancer with children.
type tree struct {
	leaf *leaf
	b    *iproto.BalancerPoint
	kids []*tree
	when string // the moment when it is added: "before", "at once", "later", "last"
}

func (t *tree) String() string {
	if t.leaf != nil {
		return fmt.Sprintf("leaf(%s, %d workers, pace %v)", t.when, t.leaf.workers, t.leaf.pace)
	}
	return fmt.Sprintf("balancer(%s)%v", t.when, t.kids)
}

func (t *tree) point() iproto.EndPoint {
	if t.leaf != nil {
		return t.leaf
	}
	return t.b
}

func (t *tree) leaves() []*leaf {
	if t.leaf != nil {
		return []*leaf{t.leaf}
	}
	var ls []*leaf
	for _, k := range t.kids {
		ls = append(ls, k.leaves()...)
	}
	return ls
}

func (t *tree) add(when string) {
	for _, k := range t.kids {
		if k.when == when {
			t.b.AddChild(k.point())
		}
		k.add(when)
	}
}

// early counts the leaves that do not wait for the last moment.
func (t *tree) early() (n int) {
	if t.when == "last" {
		return 0
	}
	if t.leaf != nil {
		return 1
	}
	for _, k := range t.kids {
		n += k.early()
	}
	return
}

type item struct {
	r         iproto.Request
	sender    int
	seq       int64
	delivered int32
	taken     int32
	answers   int32
	canceled  int32 // 1 began, 2 done before it was seen
	code      iproto.RetCode
}

type phase struct {
	n    int
	open bool
}

func TestQueue(t *testing.T) {
	h.Run(t, "an end point or a tree of balancers (children added before, at and after the start) with 1-6 consumers, and 1-4 senders that send 0-60000 requests in 1-4 phases with the consumers blocked or not, some requests completed while they wait; non-trivial with at least 2 leaves, or more requests than the fast queue takes; distinct by plan", 500, func(t *rapid.T, c *h.Case) {
		var items []*item
		var seq int64
		var settled int64 // requests that were taken or completed
		var lastMu sync.Mutex
		last := map[int]int64{}
		var ordered bool
		var emu sync.Mutex
		var first string
		bad := func(f string, a ...interface{}) {
			emu.Lock()
			if first == "" {
				first = fmt.Sprintf(f, a...)
			}
			emu.Unlock()
		}
		got := func(l *leaf, r *iproto.Request) {
			if r.Msg == 99 {
				if r.SetInFly(nil) {
					r.RespondFail(1)
				}
				return
			}
			it := items[r.Id]
			if r != &it.r {
				bad("a consumer got a request that nobody sent")
			}
			if atomic.AddInt32(&it.delivered, 1) > 1 {
				bad("request %d is delivered twice", r.Id)
			}
			if ordered {
				lastMu.Lock()
				if last[it.sender] > it.seq {
					bad("request %d of sender %d (its %dth) is delivered after its %dth", r.Id, it.sender, it.seq, last[it.sender])
				}
				last[it.sender] = it.seq
				lastMu.Unlock()
			}
			if r.SetInFly(nil) {
				if atomic.LoadInt32(&it.canceled) == 2 {
					bad("a completed request is taken")
				}
				atomic.AddInt32(&it.taken, 1)
				if it.code%3 == 0 {
					r.RespondBytes(it.code, nil)
				} else {
					r.RespondFail(it.code)
				}
			}
		}
		nl := 0
		var shape func(depth int) *tree
		shape = func(depth int) *tree {
			tr := &tree{when: rapid.SampledFrom([]string{"before", "before", "at once", "later", "last"}).Draw(t, "when")}
			if depth == 0 {
				tr.when = ""
			}
			if depth < 3 && rapid.IntRange(0, 2).Draw(t, "balancer") > 0 {
				tr.b = &iproto.BalancerPoint{}
				tr.b.Init()
				for i := rapid.IntRange(1, 4).Draw(t, "kids"); i > 0; i-- {
					tr.kids = append(tr.kids, shape(depth+1))
				}
				return tr
			}
			nl++
			tr.leaf = &leaf{name: fmt.Sprint("leaf", nl), g: &gate{ch: make(chan bool)}, got: got}
			tr.leaf.workers = rapid.IntRange(1, 3).Draw(t, "workers")
			if rapid.IntRange(0, 3).Draw(t, "slow") == 0 {
				tr.leaf.pace = time.Duration(rapid.IntRange(1, 100).Draw(t, "pace")) * time.Microsecond
			}
			tr.leaf.SimplePoint.Init(tr.leaf)
			return tr
		}
		root := shape(0)
		senders := rapid.IntRange(1, 4).Draw(t, "senders")
		big := rapid.IntRange(0, 5).Draw(t, "big") == 0
		var phases []phase
		total := 0
		for i := rapid.IntRange(1, 4).Draw(t, "phases"); i > 0; i-- {
			ph := phase{n: rapid.IntRange(0, 40).Draw(t, "n"), open: rapid.Bool().Draw(t, "open")}
			if big {
				ph.n = rapid.SampledFrom([]int{1, 100, 1023, 1024, 1025, 3000, 16384, 17000, 20000}).Draw(t, "n")
			}
			total += ph.n
			phases = append(phases, ph)
		}
		every := rapid.SampledFrom([]int{0, 0, 2, 7, 100}).Draw(t, "cancel")
		var timeout time.Duration
		if rapid.IntRange(0, 4).Draw(t, "timed") == 0 {
			timeout = time.Duration(rapid.IntRange(1, 2000).Draw(t, "timeout")) * time.Microsecond
			if rapid.Bool().Draw(t, "long") {
				timeout = time.Hour
			}
		}
		routed := rapid.IntRange(0, 3).Draw(t, "routed") == 0
		leaves := root.leaves()
		set := func(open bool) {
			for _, l := range leaves {
				l.g.set(open)
			}
		}
		for _, l := range leaves {
			if total > 1000 {
				l.pace = 0
			}
		}
		ordered = len(leaves) == 1 && leaves[0].workers == 1
		stop, sched := h.Sched(t)
		defer stop()
		desc := func() string {
			return fmt.Sprintf("%v, routed %v, %d senders, phases %v, one of %d cancelled, timeout %v, schedule %s", root, routed, senders, phases, every, timeout, sched)
		}
		check := func() {
			emu.Lock()
			defer emu.Unlock()
			if first != "" {
				t.Fatalf("%s: %s", first, desc())
			}
		}
		items = make([]*item, total)
		buf := make([]item, total)
		for i := range items {
			it := &buf[i]
			items[i] = it
			it.r.Id = uint32(i)
			it.code = iproto.RetCode(0x10000 + i*8)
			it.r.Responder = iproto.Callback(func(res *iproto.Response) {
				if atomic.AddInt32(&it.answers, 1) == 1 {
					atomic.AddInt64(&settled, 1)
				}
			})
		}
		if root.leaf != nil {
			root.leaf.Timeout = timeout
		} else {
			root.b.Timeout = timeout
		}
		root.add("before")
		iproto.Run(root.point())
		root.add("at once")
		serv := root.point()
		var entry iproto.Service = serv
		if routed {
			entry = iproto.Route(func(r *iproto.Request) {
				if timeout == 0 && r.Performed() {
					bad("a request that was completed before is routed")
				}
				serv.Send(r)
			})
		}
		next := 0
		overflow := false
		waiting := 0
		for i, ph := range phases {
			if i == len(phases)/2 {
				h.Within(t, "AddChild: "+desc(), func() { root.add("later") })
			}
			set(ph.open)
			if ph.open {
				waiting = 0
			} else if waiting += ph.n; waiting > 16384 {
				overflow = true
			}
			var ss sync.WaitGroup
			from, to := next, next+ph.n
			next = to
			for s := 0; s < senders; s++ {
				s := s
				ss.Add(1)
				go func() {
					defer ss.Done()
					defer func() {
						if p := recover(); p != nil {
							bad("Send panics: %v", p)
						}
					}()
					for j := from + s; j < to; j += senders {
						it := items[j]
						it.sender = s
						it.seq = atomic.AddInt64(&seq, 1)
						kind := 0
						if every != 0 && j%every == 0 {
							kind = 1 + j/every%3
						}
						if kind == 1 { // before
							it.r.Cancel()
							atomic.StoreInt32(&it.canceled, 2)
						}
						entry.Send(&it.r)
						if kind == 2 {
							it.r.Cancel()
						}
						if kind == 3 && j-senders >= from {
							items[j-senders].r.Expire()
						}
					}
				}()
			}
			h.Within(t, "sending: "+desc(), ss.Wait)
			check()
		}
		set(true)
		// as long as no child was added there may be nobody to serve
		if root.early() > 0 && !until(func() bool { return atomic.LoadInt64(&settled) == int64(total) }) {
			n := 0
			for _, it := range items {
				if it.answers == 0 {
					n++
				}
			}
			t.Fatalf("%d of %d requests are not delivered: %s\n%s", n, total, desc(), h.Stacks())
		}
		h.Within(t, "AddChild: "+desc(), func() { root.add("last") })
		if !until(func() bool { return atomic.LoadInt64(&settled) == int64(total) }) {
			t.Fatalf("%d of %d requests are delivered: %s\n%s", settled, total, desc(), h.Stacks())
		}
		check()
		// every leaf is served by its parent, whenever it was added: with the others
		// blocked each gets a request
		for _, l := range leaves {
			if !until(func() bool { return atomic.LoadInt32(&l.loops) > 0 }) {
				t.Fatalf("%s is not running: %s", l.name, desc())
			}
		}
		var probes, answered int64
		for _, l := range leaves {
			set(false)
			l.g.set(true)
			before := atomic.LoadInt64(&l.received)
			if !until(func() bool {
				if probes-atomic.LoadInt64(&answered) < 40 {
					probes++
					serv.Send(&iproto.Request{Msg: 99, Responder: iproto.Callback(func(*iproto.Response) { atomic.AddInt64(&answered, 1) })})
				}
				return atomic.LoadInt64(&l.received) > before
			}) {
				t.Fatalf("%s gets no requests: %s", l.name, desc())
			}
		}
		set(true)
		if !until(func() bool { return atomic.LoadInt64(&answered) == probes }) {
			t.Fatalf("%d of %d requests are answered: %s", answered, probes, desc())
		}
		h.Within(t, "Stop: "+desc(), serv.Stop)
		for _, l := range leaves {
			if !until(func() bool { return atomic.LoadInt32(&l.exited) > 0 }) {
				t.Fatalf("%s is not stopped: %s", l.name, desc())
			}
			if n := atomic.LoadInt32(&l.loops); n != 1 {
				t.Fatalf("%s was run %d times: %s", l.name, n, desc())
			}
		}
		check()
		done := 0
		for i, it := range items {
			d, k, a := atomic.LoadInt32(&it.delivered), atomic.LoadInt32(&it.taken), atomic.LoadInt32(&it.answers)
			switch {
			case d > 1 || k > 1 || a != 1:
				t.Fatalf("request %d is delivered %d times, taken %d times and answered %d times: %s", i, d, k, a, desc())
			case it.canceled == 2 && k != 0:
				t.Fatalf("request %d was taken after its completion: %s", i, desc())
			case k == 0 && every == 0 && timeout == 0:
				t.Fatalf("request %d was not taken: %s", i, desc())
			}
			if k == 0 {
				done++
			}
		}
		c.ClassIf(overflow, "overflow")
		c.ClassIf(overflow && done > 0, "overflow with completed requests")
		c.ClassIf(ordered, "single consumer")
		c.ClassIf(ordered && overflow, "single consumer with overflow")
		c.ClassIf(root.b != nil, "balancer")
		c.ClassIf(done > 0, "completed while waiting")
		if len(leaves) > 1 || overflow {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
	})
}
