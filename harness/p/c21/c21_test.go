// Package c21 checks that what is finished leaves nothing behind: objects are
// tracked by cleanups of the garbage collector, goroutines are counted.
package c21

import (
	"fmt"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"
	"verif/wire"

	"github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	// the heaps of timers are started as they are needed
	for i := 0; i < 21000; i++ {
		s := &shot{}
		s.tm.After(time.Hour, s)
		s.tm.Stop()
	}
	h.Main(m)
}

const wait = 15 * time.Second

// track counts the objects of every kind that were made and are still there.
type track struct {
	mu   sync.Mutex
	made map[string]*int64
	live map[string]*int64
}

func newTrack() *track { return &track{made: map[string]*int64{}, live: map[string]*int64{}} }

func (tk *track) kind(kind string) *int64 {
	tk.mu.Lock()
	defer tk.mu.Unlock()
	l := tk.live[kind]
	if l == nil {
		l = new(int64)
		tk.live[kind] = l
		tk.made[kind] = new(int64)
	}
	*tk.made[kind]++
	atomic.AddInt64(l, 1)
	return l
}

func add[T any](tk *track, kind string, p *T) *T {
	runtime.AddCleanup(p, func(l *int64) { atomic.AddInt64(l, -1) }, tk.kind(kind))
	return p
}

func (tk *track) body(n int) iproto.Body {
	b := make([]byte, 32+n)
	add(tk, "request bodies", &b[0])
	return b
}

// slack is what caches and open blocks of requests may keep. A kind with a
// leak keeps at least half of what was made.
func slack(made int64) int64 { return 300 + made/10 }

func (tk *track) over() string {
	tk.mu.Lock()
	defer tk.mu.Unlock()
	var bad []string
	for k, l := range tk.live {
		if n, m := atomic.LoadInt64(l), *tk.made[k]; n > slack(m) {
			bad = append(bad, fmt.Sprintf("%d of %d %s", n, m, k))
		}
	}
	sort.Strings(bad)
	return strings.Join(bad, ", ")
}

func (tk *track) String() string {
	var r []string
	for k, l := range tk.live {
		r = append(r, fmt.Sprintf("%d/%d %s", atomic.LoadInt64(l), *tk.made[k], k))
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

// settle waits until neither objects nor goroutines are left over.
func (tk *track) settle(t *rapid.T, base, extra int, desc string) {
	var over string
	var n int
	for end := time.Now().Add(wait); ; time.Sleep(3 * time.Millisecond) {
		runtime.GC()
		runtime.GC()
		over, n = tk.over(), runtime.NumGoroutine()
		if over == "" && n <= base+extra {
			return
		}
		h.Alive()
		if time.Now().After(end) {
			break
		}
	}
	if over != "" {
		t.Fatalf("still there %v after all of it was finished: %s (all: %s): %s", wait, over, tk, desc)
	}
	st := h.Stacks()
	if len(st) > 6000 {
		st = st[:6000]
	}
	t.Fatalf("%d goroutines instead of %d %v after all was finished: %s\n%s", n, base, wait, desc, st)
}

func fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

func until(cond func() bool) bool {
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(300 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

// holder keeps requests and answers them when told.
type holder struct {
	mu   sync.Mutex
	reqs []*iproto.Request
}

func (hd *holder) add(r *iproto.Request) {
	hd.mu.Lock()
	hd.reqs = append(hd.reqs, r)
	hd.mu.Unlock()
}

func (hd *holder) answer(keep int) {
	hd.mu.Lock()
	var rs []*iproto.Request
	if len(hd.reqs) > keep {
		rs = hd.reqs
		hd.reqs = nil
	}
	hd.mu.Unlock()
	for _, r := range rs {
		r.RespondBytes(iproto.RcOK, []byte("held"))
	}
}

// point is an end point with a loop of its own.
type point struct {
	iproto.SimplePoint
	f func(*iproto.Request)
}

func (p *point) Loop() {
	for {
		select {
		case r := <-p.ReceiveChan():
			p.f(r)
		case <-p.ExitChan():
			return
		}
	}
}

type service struct {
	iproto.Service
	hold *holder
	stop func()
	gate *sync.Mutex
}

// newService draws a service which is there for the whole case.
func newService(t *rapid.T, tk *track, kind string, timeout time.Duration, fate string) *service {
	s := &service{hold: &holder{}, stop: func() {}}
	n := 0
	answer := func(r *iproto.Request) {
		switch n++; {
		case fate == "answer" || fate == "early":
			r.RespondBytes(iproto.RetCode(n%3), make([]byte, 20))
		case fate == "fail":
			r.RespondFail(iproto.RcFatal)
		case fate == "panic" || fate == "silent":
			r.RespondBytes(iproto.RcOK, nil)
		default:
			s.hold.add(r)
		}
	}
	var mu sync.Mutex
	one := func(r *iproto.Request) {
		mu.Lock()
		defer mu.Unlock()
		answer(r)
	}
	fly := func(r *iproto.Request) {
		if s.gate != nil {
			s.gate.Lock()
			s.gate.Unlock()
		}
		add(tk, "requests at the service", r)
		if r.SetInFly(nil) {
			one(r)
		}
	}
	parallel := func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		add(tk, "requests at the service", r)
		add(tk, "contexts of the service", cx)
		switch fate {
		case "panic":
			panic("on purpose")
		case "silent":
			runtime.Goexit()
		case "late":
			time.Sleep(60 * time.Microsecond)
		case "fail":
			return iproto.RcFatal, nil
		}
		return iproto.RcOK, iproto.Body("x")
	}
	switch kind {
	case "func":
		s.Service = iproto.SF(func(r *iproto.Request) {
			add(tk, "requests at the service", r)
			one(r)
		})
	case "route":
		f := iproto.SF(one)
		s.Service = iproto.Route(func(r *iproto.Request) { f.Send(r) })
	case "point":
		p := &point{f: fly}
		p.Timeout = timeout
		p.SimplePoint.Init(p)
		iproto.Run(p)
		s.Service, s.stop = p, p.Stop
	case "parallel":
		p := iproto.BF{N: rapid.IntRange(1, 6).Draw(t, "workers"), Timeout: timeout}.New(parallel)
		s.Service, s.stop = p, p.Stop
	case "balancer":
		b := &iproto.BalancerPoint{}
		b.Timeout = timeout
		b.Init()
		for i := rapid.IntRange(1, 3).Draw(t, "children"); i > 0; i-- {
			p := &point{f: fly}
			p.SimplePoint.Init(p)
			b.AddChild(p)
		}
		iproto.Run(b)
		s.Service, s.stop = b, b.Stop
	}
	return s
}

// TestRequests: requests, contexts and groups go when they are done, while
// services and the contexts above them stay.
func TestRequests(t *testing.T) {
	h.Run(t, "600-3000 requests made plainly, by a context that stays, by children of one, or by groups, with or without long timeouts of request, group or service, from 1-4 goroutines, to a service that stays (function, route, point, parallel service, balancer), each answered, failed, cancelled before or after it was sent, expired, or left by a panic; non-trivial: all; distinct by plan", 500, func(t *rapid.T, c *h.Case) {
		source := rapid.SampledFrom([]string{"plain", "context", "child", "group", "group of child", "group of context"}).Draw(t, "source")
		kind := rapid.SampledFrom([]string{"func", "route", "point", "parallel", "parallel", "balancer"}).Draw(t, "service")
		fates := []string{"answer", "answer", "early", "cancel", "expire", "fail"}
		if kind == "parallel" {
			fates = append(fates, "panic", "silent", "late")
		}
		if source == "child" || source == "group of child" {
			fates = append(fates, "cancel context", "expire context", "cancel context")
		}
		fate := rapid.SampledFrom(fates).Draw(t, "fate")
		if kind == "parallel" && fate != "answer" && fate != "panic" && fate != "silent" && fate != "fail" && fate != "early" {
			fate = "late"
		}
		servTimeout := rapid.SampledFrom([]time.Duration{0, time.Hour}).Draw(t, "service timeout")
		timeout := rapid.SampledFrom([]time.Duration{0, time.Hour}).Draw(t, "timeout")
		if fate == "expire" {
			timeout = 200 * time.Microsecond
		}
		par := rapid.IntRange(1, 4).Draw(t, "goroutines")
		per := rapid.IntRange(1, 60).Draw(t, "requests per context")
		n := rapid.IntRange(600, 3000).Draw(t, "requests")
		results := rapid.Bool().Draw(t, "results")
		lateRead := rapid.Bool().Draw(t, "read late")
		desc := fmt.Sprintf("%s to %s, fate %s, timeouts %v %v, %d goroutines, %d per context, %d requests, results %v, read late %v", source, kind, fate, servTimeout, timeout, par, per, n, results, lateRead)
		if n/per < 20 && source != "plain" && source != "context" {
			per = n/20 + 1
		}

		tk := newTrack()
		s := newService(t, tk, kind, servTimeout, fate)
		root := &iproto.Context{}
		runtime.GC()
		base := runtime.NumGoroutine()
		stopSched, sched := h.Sched(t)
		defer stopSched()
		desc += ", schedule " + sched

		held := fate == "cancel" || fate == "expire" || strings.HasSuffix(fate, "context")
		track1 := func(r *iproto.Request) *iproto.Request {
			add(tk, "requests", r)
			if !strings.HasPrefix(source, "group") && timeout > 0 {
				r.SetTimeout(timeout)
			}
			if fate == "early" {
				r.Cancel()
			}
			return r
		}
		body := func(i int) interface{} {
			if i%2 == 0 {
				return tk.body(i % 50)
			}
			return uint32(i)
		}
		var bad atomic.Value
		get := func(ch <-chan *iproto.Response, what string) {
			select {
			case r := <-ch:
				if r != nil {
					add(tk, "responses", r)
				}
			case <-time.After(wait):
				bad.Store("no response of " + what)
			}
		}
		// end makes what is unanswered end
		end := func(rs []*iproto.Request) {
			if fate == "cancel" || kind == "parallel" && !held && fate == "late" {
				for _, r := range rs {
					r.Cancel()
				}
			}
		}
		var pending int64
		send := func(r *iproto.Request) {
			if kind == "func" || kind == "route" || atomic.AddInt64(&pending, 1) > 0 {
				s.Send(r)
			}
		}
		unit := func(i, k int) {
			var rs []*iproto.Request
			switch source {
			case "plain":
				var chs []iproto.Chan
				for j := 0; j < k; j++ {
					ch := make(iproto.Chan, 1)
					b, ok := body(i + j).(iproto.Body)
					if !ok {
						b = tk.body(0)
					}
					r := track1(&iproto.Request{Msg: 7, Id: uint32(j), Body: b, Responder: ch})
					send(r)
					rs, chs = append(rs, r), append(chs, ch)
				}
				end(rs)
				for _, ch := range chs {
					get(ch, "a plain request")
				}
			case "context", "child":
				cx := root
				if source == "child" {
					cx, _ = root.Child()
					add(tk, "child contexts", cx)
				} else if par > 1 {
					// a context belongs to one goroutine
					cx = &iproto.Context{}
				}
				var chs []<-chan *iproto.Response
				for j := 0; j < k; j++ {
					r, ch := cx.NewRequest(7, body(i+j))
					send(track1(r))
					rs, chs = append(rs, r), append(chs, ch)
				}
				end(rs)
				if fate == "cancel context" {
					cx.Cancel()
				} else if fate == "expire context" {
					cx.Expire()
				}
				for _, ch := range chs {
					get(ch, "a request of a context")
				}
				if cx != root {
					cx.Done()
				}
			default:
				var m *iproto.MultiRequest
				var cx *iproto.Context
				switch source {
				case "group":
					m = &iproto.MultiRequest{}
				case "group of child":
					cx, _ = root.Child()
					add(tk, "child contexts", cx)
					m = cx.NewMulti()
				default:
					cx = root
					if par > 1 {
						cx = &iproto.Context{}
					}
					m = cx.NewMulti()
				}
				add(tk, "groups", m)
				if timeout > 0 {
					m.SetTimeout(timeout)
				}
				for j := 0; j < k; j++ {
					r := track1(m.Request(7, body(i+j)))
					send(r)
					rs = append(rs, r)
				}
				end(rs)
				if fate == "cancel context" {
					cx.Cancel()
				} else if fate == "expire context" {
					cx.Expire()
				}
				if lateRead {
					until(func() bool {
						for _, r := range rs {
							if !r.Performed() {
								return false
							}
						}
						return true
					})
				}
				if results {
					h.Within(t, "Results", func() {
						for _, r := range m.Results() {
							add(tk, "responses", r)
						}
					})
				} else {
					ch := m.Each()
					for range rs {
						get(ch, "a group")
					}
				}
				if cx != nil && cx != root {
					cx.Done()
				}
			}
			if held || kind == "parallel" {
				s.hold.answer(40)
			}
		}
		var wg sync.WaitGroup
		for g := 0; g < par; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < n/par && bad.Load() == nil; i += per {
					unit(g*100000+i, per)
				}
			}(g)
		}
		wg.Wait()
		if b := bad.Load(); b != nil {
			t.Fatalf("%v: %s", b, desc)
		}
		stopSched()
		s.hold.answer(-1)
		tk.settle(t, base, 12, desc)
		c.Class(source)
		c.Class("to " + kind)
		c.Class("fate " + fate)
		c.NonTrivial(desc)
		c.Sample("%s: left %s", desc, tk)
		runtime.KeepAlive(root)
		s.stop()
		runtime.KeepAlive(s)
	})
}

type shot struct {
	tm    iproto.Timer
	fired func()
	pad   [40]byte
}

func (s *shot) Timer() *iproto.Timer { return &s.tm }
func (s *shot) Expire()              { s.fired() }

// TestTimersContexts: timers and contexts alone.
func TestTimersContexts(t *testing.T) {
	h.Run(t, "800-4000 timers stopped or fired in drawn proportion and order, or 300-1500 child contexts of drawn shapes (Child, Go, GoInt, GoAsync, nested to depth 3, cancelled or not) under a context that stays, from 1-4 goroutines; non-trivial: all; distinct by plan", 500, func(t *rapid.T, c *h.Case) {
		tk := newTrack()
		base := runtime.NumGoroutine()
		par := rapid.IntRange(1, 4).Draw(t, "goroutines")
		var wg sync.WaitGroup
		run := func(f func(g int)) {
			for g := 0; g < par; g++ {
				wg.Add(1)
				go func() { defer wg.Done(); f(g) }()
			}
			wg.Wait()
		}
		var desc string
		root := &iproto.Context{}
		if rapid.Bool().Draw(t, "timers") {
			n := rapid.IntRange(800, 4000).Draw(t, "n")
			fire := rapid.IntRange(0, 10).Draw(t, "fire")
			batch := rapid.IntRange(1, 300).Draw(t, "batch")
			rev := rapid.Bool().Draw(t, "rev")
			desc = fmt.Sprintf("%d timers, %d/10 fire, batches of %d, reverse %v, %d goroutines", n, fire, batch, rev, par)
			var left int64
			run(func(g int) {
				for i := 0; i < n/par; i += batch {
					var b []*shot
					for j := 0; j < batch; j++ {
						s := add(tk, "timers", &shot{fired: func() { atomic.AddInt64(&left, -1) }})
						d := time.Hour + time.Duration(j)
						if (i+j)%10 < fire {
							d = time.Duration(1+j%7) * 50 * time.Microsecond
							atomic.AddInt64(&left, 1)
						} else {
							b = append(b, s)
						}
						s.tm.After(d, s)
					}
					for j := range b {
						if rev {
							j = len(b) - 1 - j
						}
						b[j].tm.Stop()
					}
				}
			})
			if !until(func() bool { return atomic.LoadInt64(&left) == 0 }) {
				t.Fatalf("%d timers did not fire: %s", left, desc)
			}
			c.Class("timers")
		} else {
			n := rapid.IntRange(300, 1500).Draw(t, "n")
			shape := rapid.SampledFrom([]string{"child", "go", "goint", "goasync", "gointasync", "nested"}).Draw(t, "shape")
			end := rapid.SampledFrom([]string{"done", "cancel", "expire"}).Draw(t, "end")
			open := rapid.IntRange(1, 50).Draw(t, "open at once")
			desc = fmt.Sprintf("%d contexts, shape %s, end %s, %d open at once, %d goroutines", n, shape, end, open, par)
			fin := func(cx *iproto.Context) {
				switch end {
				case "cancel":
					cx.Cancel()
				case "expire":
					cx.Expire()
				}
			}
			run(func(g int) {
				cx := root
				if g > 0 {
					cx, _ = root.Child()
				}
				for i := 0; i < n/par; i += open {
					var cxs []*iproto.Context
					for j := 0; j < open; j++ {
						var d *iproto.Context
						switch shape {
						case "child":
							d, _ = cx.Child()
							cxs = append(cxs, d)
						case "go":
							d = cx.Go(func(x *iproto.Context) { fin(x) })
						case "goint":
							d = cx.GoInt(func(x *iproto.Context, _ interface{}) { fin(x) }, tk.body(j))
						case "goasync":
							d = cx.GoAsync(func(x *iproto.Context) { fin(x); x.Done() })
						case "gointasync":
							d = cx.GoIntAsync(func(x *iproto.Context, _ interface{}) { fin(x); x.Done() }, tk.body(j))
						case "nested":
							d, _ = cx.Child()
							cxs = append(cxs, d)
							e := d.Go(func(x *iproto.Context) { fin(x) })
							add(tk, "contexts", e)
						}
						add(tk, "contexts", d)
					}
					for _, d := range cxs {
						fin(d)
						d.WaitAll()
						d.Done()
					}
				}
			})
			c.Class("contexts " + shape)
		}
		tk.settle(t, base, 12, desc)
		c.NonTrivial(desc)
		c.Sample("%s: left %s", desc, tk)
		runtime.KeepAlive(root)
	})
}

// TestServerConnections: connections and their requests go, the server stays.
func TestServerConnections(t *testing.T) {
	h.Run(t, "30-80 connections of 1-60 requests each, 1-5 at a time, to a server that stays; each ends by half-close after the answers, by a close before them, by a reset, by garbage or by half a frame, while the service answers at once or only when all connections are gone; non-trivial: all; distinct by plan", 60, func(t *rapid.T, c *h.Case) {
		rc := wire.GenRC(t)
		tcp := rapid.IntRange(0, 2).Draw(t, "tcp") == 0
		end := rapid.SampledFrom([]string{"half", "close", "reset", "garbage", "half frame", "mixed"}).Draw(t, "end")
		hold := rapid.Bool().Draw(t, "hold")
		conns := rapid.IntRange(30, 80).Draw(t, "connections")
		par := rapid.IntRange(1, 5).Draw(t, "at a time")
		k := rapid.IntRange(1, 60).Draw(t, "requests")
		desc := fmt.Sprintf("%v, tcp %v, end %s, hold %v, %d connections, %d at a time, %d requests each", rc, tcp, end, hold, conns, par, k)
		tk := newTrack()
		var hd holder
		stopSched, sched := h.Sched(t)
		defer stopSched()
		desc += ", schedule " + sched
		cfg := server.Config{RCType: rc.Type, EndPoint: iproto.SF(func(r *iproto.Request) {
			add(tk, "requests at the server", r)
			if cn, ok := r.Responder.(*server.Connection); ok {
				add(tk, "connections (one per request)", cn)
			}
			if hold {
				hd.add(r)
			} else {
				r.RespondBytes(iproto.RcOK, tk.body(10))
			}
		})}
		cfg.Network, cfg.Address = wire.Address(tcp)
		serv := cfg.NewServer()
		if err := serv.Run(); err != nil {
			t.Skip("no address")
		}
		base := runtime.NumGoroutine()
		// sockets are not left for the collector to close
		runtime.GC()
		sockets := fds()
		percent := debug.SetGCPercent(-1)
		defer debug.SetGCPercent(percent)
		var wg sync.WaitGroup
		var bad atomic.Value
		for g := 0; g < par; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := g; i < conns; i += par {
					cn, err := wire.Dial(cfg.Network, cfg.Address)
					if err != nil {
						bad.Store(fmt.Sprint("cannot connect: ", err))
						return
					}
					how := end
					if how == "mixed" {
						how = []string{"half", "close", "reset", "garbage", "half frame"}[i%5]
					}
					var b []byte
					for j := 0; j < k; j++ {
						b = wire.Frame{Msg: 7, Id: uint32(j), Body: make([]byte, j%30)}.Enc(b)
					}
					b = wire.Frame{Msg: wire.Ping, Id: wire.PingId}.Enc(b)
					cn.Write(b)
					cn.SetReadDeadline(time.Now().Add(wait))
					// the answer of the ping tells that all were read
					for n := 0; ; {
						f, err := wire.Read(cn)
						if err != nil {
							bad.Store(fmt.Sprint("no answer: ", err))
							break
						}
						if f.Msg == wire.Ping {
							n += 1 << 20
						} else {
							n++
						}
						if n >= 1<<20 && (hold || how != "half" || n == 1<<20+k) {
							break
						}
					}
					switch how {
					case "half":
						cn.CloseWrite()
						if !hold {
							cn.Read(make([]byte, 1))
						}
					case "reset":
						if tc, ok := cn.(*net.TCPConn); ok {
							tc.SetLinger(0)
						}
					case "garbage":
						cn.Write([]byte("\x07\x00\x00\x00\xff\xff\xff\xff\x00\x00\x00\x00garbage"))
					case "half frame":
						cn.Write([]byte("\x07\x00\x00\x00\x10"))
					}
					cn.Close()
				}
			}(g)
		}
		wg.Wait()
		h.Alive()
		if b := bad.Load(); b != nil {
			t.Fatalf("%v: %s", b, desc)
		}
		stopSched()
		hd.answer(-1)
		if !until(func() bool { return fds() <= sockets+6 }) {
			t.Fatalf("%d descriptors are open instead of %d %v after all connections ended: %s", fds(), sockets, wait, desc)
		}
		debug.SetGCPercent(percent)
		tk.settle(t, base, 6, desc)
		c.Class("end " + end)
		c.ClassIf(hold, "answered when gone")
		c.NonTrivial(desc)
		c.Sample("%s: left %s", desc, tk)
		serv.Stop()
	})
}

// TestClient: requests and connections of a client that stays.
func TestClient(t *testing.T) {
	h.Run(t, "a client with 1-4 connections to a server of the harness that answers, leaves unanswered (requests expire), or breaks connections again and again (2-6 times) while 1000-4000 requests are made through it; non-trivial: all; distinct by plan", 20, func(t *rapid.T, c *h.Case) {
		rc := wire.GenRC(t)
		tcp := rapid.IntRange(0, 2).Draw(t, "tcp") == 0
		conns := rapid.IntRange(1, 4).Draw(t, "connections")
		n := rapid.IntRange(1000, 4000).Draw(t, "requests")
		breaks := rapid.SampledFrom([]int{0, 2, 6}).Draw(t, "breaks")
		mute := rapid.SampledFrom([]int{0, 0, 2}).Draw(t, "unanswered")
		timeout := rapid.SampledFrom([]time.Duration{0, time.Hour}).Draw(t, "timeout")
		if mute > 0 {
			timeout = 2 * time.Millisecond
		}
		desc := fmt.Sprintf("%v, tcp %v, %d connections, %d requests, %d breaks, 1 of %d unanswered, timeout %v", rc, tcp, conns, n, breaks, mute, timeout)
		tk := newTrack()
		stopSched, sched := h.Sched(t)
		defer stopSched()
		desc += ", schedule " + sched
		network, addr := wire.Address(tcp)
		l, err := net.Listen(network, addr)
		if err != nil {
			t.Skip("no address")
		}
		var mu sync.Mutex
		open := map[net.Conn]bool{}
		var accepted int64
		go func() {
			for {
				cn, err := l.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				open[cn] = true
				mu.Unlock()
				go func() {
					for i := 0; ; i++ {
						f, err := wire.Read(cn)
						if err != nil {
							break
						}
						if f.Msg == wire.Ping {
							atomic.AddInt64(&accepted, 1)
						} else if mute > 0 && i%mute == 0 {
							continue
						}
						cn.Write(rc.Response(nil, f.Msg, f.Id, 0, nil))
					}
					cn.Close()
					mu.Lock()
					delete(open, cn)
					mu.Unlock()
				}()
			}
		}()
		cl := client.ServerConfig{Network: network, Address: addr, Connections: conns, RetCodeType: rc.Type, Timeout: timeout, PingInterval: time.Hour}.NewServer()
		iproto.Run(cl)
		full := func() bool {
			mu.Lock()
			defer mu.Unlock()
			return len(open) == conns && atomic.LoadInt64(&accepted) >= int64(conns)
		}
		if !until(full) {
			t.Fatalf("%d of %d connections: %s", len(open), conns, desc)
		}
		// a first break makes what the runtime starts once (poller, tickers)
		runtime.GC()
		base := runtime.NumGoroutine()
		for b := 0; b <= breaks; b++ {
			var chs []iproto.Chan
			for i := 0; i < n/(breaks+1); i++ {
				ch := make(iproto.Chan, 1)
				cl.Send(add(tk, "requests", &iproto.Request{Msg: 7, Body: tk.body(i % 60), Responder: ch}))
				chs = append(chs, ch)
				if b < breaks && i == n/(breaks+1)/2 {
					mu.Lock()
					for cn := range open {
						cn.Close()
					}
					atomic.StoreInt64(&accepted, 0)
					mu.Unlock()
				}
			}
			for _, ch := range chs {
				select {
				case r := <-ch:
					add(tk, "responses", r)
				case <-time.After(wait):
					t.Fatalf("no answer: %s", desc)
				}
			}
			if !until(full) {
				t.Fatalf("%d of %d connections again: %s", len(open), conns, desc)
			}
			h.Alive()
		}
		stopSched()
		tk.settle(t, base, 6, desc)
		c.ClassIf(breaks > 0, "broken")
		c.ClassIf(mute > 0, "unanswered")
		c.ClassIf(timeout > time.Minute, "long timeout")
		c.NonTrivial(desc)
		c.Sample("%s: left %s", desc, tk)
		cl.Stop()
		l.Close()
	})
}

// TestSteady: the heap does not grow with the number of requests.
func TestSteady(t *testing.T) {
	h.Run(t, "a long-lived point, parallel service, balancer, client, server connection, context, or the timers alone do the same work 4 times, 6000-20000 requests (timers, contexts) each, in bursts of 1-30000 (with the service held up while they are sent, or not), answered, expired or cancelled; the heap after a collection must not grow by 5 bytes per request from the first time to the last; non-trivial: all; distinct by plan", 60, func(t *rapid.T, c *h.Case) {
		what := rapid.SampledFrom([]string{"point", "parallel", "balancer", "client", "server", "context", "timers"}).Draw(t, "what")
		n := rapid.IntRange(6000, 20000).Draw(t, "n")
		burst := rapid.SampledFrom([]int{1, 10, 100, 300, 1000, 3000, 30000}).Draw(t, "burst")
		if burst == 30000 {
			// more than the channel of an end point takes
			n = 60000
		}
		fate := rapid.SampledFrom([]string{"answer", "answer", "expire", "cancel"}).Draw(t, "fate")
		if fate == "expire" && burst < 100 {
			burst = 100
		}
		tk := newTrack()
		var rc = wire.GenRC(t)
		desc := fmt.Sprintf("%s, %d requests, bursts of %d, fate %s", what, n, burst, fate)
		var send func(r *iproto.Request)
		stop := func() {}
		pause := func() {}
		var unit func(k int) // one burst
		var gate sync.Mutex
		switch what {
		case "point", "balancer", "parallel":
			s := newService(t, tk, what, 0, fate)
			if what != "parallel" && burst > 300 {
				s.gate = &gate
			}
			send, stop = s.Send, s.stop
			pause = func() { s.hold.answer(-1) }
			if what == "parallel" || fate == "answer" {
				pause = func() {}
			}
			runtime.KeepAlive(s)
		case "client":
			network, addr := wire.Address(false)
			cfg := server.Config{Network: network, Address: addr, RCType: rc.Type, EndPoint: iproto.SF(func(r *iproto.Request) { r.RespondBytes(0, nil) })}
			serv := cfg.NewServer()
			if err := serv.Run(); err != nil {
				t.Skip("no address")
			}
			cl := client.ServerConfig{Network: network, Address: addr, Connections: 1 + n%3, RetCodeType: rc.Type, PingInterval: time.Hour}.NewServer()
			iproto.Run(cl)
			send = cl.Send
			stop = func() { cl.Stop(); serv.Stop() }
		case "server":
			network, addr := wire.Address(false)
			cfg := server.Config{Network: network, Address: addr, RCType: rc.Type, EndPoint: iproto.SF(func(r *iproto.Request) { r.RespondBytes(0, nil) })}
			serv := cfg.NewServer()
			if err := serv.Run(); err != nil {
				t.Skip("no address")
			}
			cn, err := wire.Dial(network, addr)
			if err != nil {
				t.Fatalf("cannot connect: %v", err)
			}
			cn.SetDeadline(time.Now().Add(4 * wait))
			id := uint32(0)
			unit = func(k int) {
				var b []byte
				for j := 0; j < k; j++ {
					b = wire.Frame{Msg: 7, Id: id}.Enc(b)
					id++
				}
				go cn.Write(b)
				for j := 0; j < k; j++ {
					if _, err := wire.Read(cn); err != nil {
						t.Fatalf("no answer: %v: %s", err, desc)
					}
				}
			}
			stop = func() { cn.Close(); serv.Stop() }
		case "context":
			root := &iproto.Context{}
			unit = func(k int) {
				var cxs []*iproto.Context
				for j := 0; j < k; j++ {
					cx, _ := root.Child()
					cxs = append(cxs, cx)
				}
				for j := range cxs {
					if fate == "cancel" {
						cxs[j].Cancel()
					}
					cxs[j].Done()
				}
			}
			stop = func() { runtime.KeepAlive(root) }
		case "timers":
			unit = func(k int) {
				b := make([]*shot, k)
				left := int64(k)
				for j := range b {
					s := &shot{fired: func() { atomic.AddInt64(&left, -1) }}
					b[j] = s
					d := time.Duration(1+j%9) * 20 * time.Microsecond
					if fate != "expire" {
						d += time.Hour
					}
					s.tm.After(d, s)
				}
				for _, s := range b {
					if fate != "expire" {
						s.tm.Stop()
					}
				}
				if fate == "expire" && !until(func() bool { return atomic.LoadInt64(&left) == 0 }) {
					t.Fatalf("%d timers did not fire: %s", left, desc)
				}
			}
		}
		if unit == nil {
			unit = func(k int) {
				ch := make(chan *iproto.Response, k)
				rs := make([]*iproto.Request, k)
				gate.Lock()
				for j := range rs {
					r := &iproto.Request{Msg: 7, Body: iproto.Body{1, 2, 3}, Responder: iproto.Chan(ch)}
					rs[j] = r
					if fate == "expire" {
						r.SetTimeout(time.Duration(1+j%100) * 10 * time.Microsecond)
					}
					send(r)
				}
				gate.Unlock()
				if fate == "cancel" {
					for j := range rs {
						rs[len(rs)-1-j].Cancel()
					}
				}
				for range rs {
					select {
					case <-ch:
					case <-time.After(wait):
						t.Fatalf("no answer: %s", desc)
					}
				}
				pause()
			}
		}
		heap := func() int64 {
			time.Sleep(2 * time.Millisecond)
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return int64(m.HeapAlloc)
		}
		var hs []int64
		for i := 0; i < 4; i++ {
			for j := 0; j < n; j += burst {
				unit(burst)
			}
			h.Alive()
			hs = append(hs, heap())
		}
		limit := int64(n)*3*5 + 100000
		for i := 0; hs[3]-hs[0] > limit && i < 100; i++ {
			time.Sleep(50 * time.Millisecond)
			hs[3] = heap()
		}
		if hs[3]-hs[0] > limit {
			t.Fatalf("the heap grew by %d bytes in %d requests (%v): %s", hs[3]-hs[0], n*3, hs, desc)
		}
		c.Class(what)
		c.Class("fate " + fate)
		c.NonTrivial(desc)
		c.Sample("%s: heap %d", desc, hs)
		stop()
	})
}
