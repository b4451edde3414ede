package c10

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"
	"verif/lc"

	"github.com/funny-falcon/go-iproto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

// TestSequence: one operation at a time, against the model.
func TestSequence(t *testing.T) {
	h.Run(t, "1-25 life-cycle operations on a request, compared with the model after each; non-trivial with at least 4 operations and at least one revival; distinct by operations", 20000, func(t *rapid.T, c *h.Case) {
		lc.Sequence(t, c, true)
	})
}

// TestRace: many goroutines at once.
func TestRace(t *testing.T) {
	h.Run(t, "2-6 goroutines with 1-5 life-cycle operations each on one request under a drawn schedule; non-trivial if two completions began before the answer and a bookmark saw it; distinct by history", 8000, func(t *rapid.T, c *h.Case) {
		lc.Race(t, c, true)
	})
}

// TestRevive: a bookmark sends the request again, some times, while others
// complete it at any moment.
func TestRevive(t *testing.T) {
	h.Run(t, "a request with 0-3 outer bookmarks and one that revives it 1-4 times, which a worker sends again through counting services while 0-3 goroutines fail it; non-trivial if at least one failure overlaps; distinct by plan", 4000, func(t *rapid.T, c *h.Case) {
		var answers []*iproto.Response
		var mu sync.Mutex
		answered := make(chan bool)
		r := lc.NewRequest(t, func(res *iproto.Response) {
			mu.Lock()
			answers = append(answers, res)
			if len(answers) == 1 {
				close(answered)
			}
			mu.Unlock()
		})
		resets := rapid.IntRange(1, 4).Draw(t, "resets")
		to := rapid.SampledFrom([]string{"new", "pending"}).Draw(t, "to")
		var outer []*lc.Mark
		for i := rapid.IntRange(0, 3).Draw(t, "outer"); i > 0; i-- {
			m := &lc.Mark{Name: fmt.Sprint("outer", i)}
			outer = append(outer, m)
			r.ChainBookmark(m)
		}
		resend := make(chan bool, 20)
		retrier := &lc.Mark{Resets: int32(resets), To: to}
		retrier.OnSeen = func(m *lc.Mark, res *iproto.Response) {
			if m.Resets > 0 {
				resend <- true
			}
		}
		if !r.ChainBookmark(retrier) {
			t.Fatalf("a bookmark is refused by a new request")
		}
		codes := rapid.SliceOfN(rapid.SampledFrom([]uint32{0, 1, 2, 3, 0xfe03}), 8, 8).Draw(t, "codes")
		silent := rapid.SliceOfN(rapid.IntRange(0, 3), 8, 8).Draw(t, "silent")
		type send struct {
			reported, handled int32
			code              iproto.RetCode
		}
		var sends []*send
		fails := make([][]int, rapid.IntRange(0, 3).Draw(t, "killers"))
		for i := range fails {
			fails[i] = rapid.SliceOfN(rapid.IntRange(0, 200), 1, 4).Draw(t, "delays")
		}
		stop, sched := h.Sched(t)
		defer stop()
		transmit := func(i int) {
			s := &send{code: iproto.RetCode(codes[i%8])}
			mu.Lock()
			sends = append(sends, s)
			mu.Unlock()
			if to == "pending" && i > 0 {
				if r.SetInFly(nil) && silent[i%8] != 0 {
					r.Respond(s.code, iproto.Body("x"))
				}
				return
			}
			iproto.StatWrap(iproto.SF(func(r *iproto.Request) {
				atomic.AddInt32(&s.handled, 1)
				if silent[i%8] != 0 {
					r.Respond(s.code, iproto.Body("x"))
				}
			}), func(q *iproto.Request, d time.Duration) {
				if q != r || d < 0 {
					panic("wrong report")
				}
				atomic.AddInt32(&s.reported, 1)
			}).Send(r)
		}
		var wg sync.WaitGroup
		wg.Add(1)
		quit := make(chan bool)
		go func() {
			defer wg.Done()
			transmit(0)
			for i := 1; ; i++ {
				select {
				case <-resend:
					transmit(i)
				case <-quit:
					return
				}
			}
		}()
		for _, ds := range fails {
			wg.Add(1)
			go func(ds []int) {
				defer wg.Done()
				for _, d := range ds {
					time.Sleep(time.Duration(d) * time.Microsecond)
					r.RespondFail(iproto.RcIOError)
				}
			}(ds)
		}
		h.Within(t, "completing the request until it is answered", func() {
			for i := 0; ; i++ {
				select {
				case <-answered:
					close(quit)
					wg.Wait()
					return
				case <-time.After(300 * time.Microsecond):
					r.RespondFail(iproto.RcTimeout)
				}
			}
		})
		stop()
		mu.Lock()
		defer mu.Unlock()
		desc := fmt.Sprintf("%d resets to %s, %d killers, schedule %s", resets, to, len(fails), sched)
		if len(answers) != 1 {
			t.Fatalf("%d answers: %s", len(answers), desc)
		}
		if n := int(retrier.Seen); n != resets+1 {
			t.Fatalf("the reviving bookmark saw %d responses: %s", n, desc)
		}
		for _, m := range outer {
			if m.Seen != 1 {
				t.Fatalf("an outer bookmark saw %d responses: %s", m.Seen, desc)
			}
		}
		handled := 0
		for i, s := range sends {
			if s.handled > 1 || s.reported > 1 || s.handled == 1 && s.reported != 1 {
				t.Fatalf("send %d was handled %d times and reported %d times: %s", i, s.handled, s.reported, desc)
			}
			handled += int(s.handled)
		}
		c.Class("to " + to)
		c.Class("schedule " + sched)
		c.ClassIf(handled > 1, "handled more than once")
		if len(fails) > 0 {
			c.NonTrivial(fmt.Sprint(desc, codes, silent, fails))
			c.Sample("%s", desc)
		}
	})
}

// TestStat: a wrapped service does what it does unwrapped, and every request is
// reported once by each wrapping.
func TestStat(t *testing.T) {
	h.Run(t, "1-30 requests from 1-4 goroutines to a service wrapped 1-3 times; non-trivial with at least 2 goroutines; distinct by plan", 1600, func(t *rapid.T, c *h.Case) {
		depth := rapid.IntRange(1, 3).Draw(t, "depth")
		timeout := time.Duration(rapid.SampledFrom([]int{0, 0, 5, 60000}).Draw(t, "timeout")) * time.Millisecond
		kind := rapid.SampledFrom([]string{"direct", "later", "pool"}).Draw(t, "kind")
		n := rapid.IntRange(1, 30).Draw(t, "n")
		ng := rapid.IntRange(1, 4).Draw(t, "goroutines")
		sleeps := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 10, 300}), n, n).Draw(t, "sleeps")
		early := rapid.SliceOfN(rapid.IntRange(0, 9), n, n).Draw(t, "early")
		// codes of all kinds, with bodies and without
		codes := rapid.SliceOfN(rapid.SampledFrom([]uint32{0, 0, 1, 2, 3, 0x302, 77, 0xfc02, 0xfc03, 0xfd03, 0xfe03, 0xff03, 0xffffffff}), n, n).Draw(t, "codes")
		bodies := rapid.SliceOfN(rapid.IntRange(0, 3), n, n).Draw(t, "bodies")
		answer := func(i int) string {
			if bodies[i] < 2 {
				return ""
			}
			return fmt.Sprint("answer", i)
		}
		handle := func(r *iproto.Request) (iproto.RetCode, interface{}) {
			time.Sleep(time.Duration(sleeps[r.Id]) * time.Microsecond)
			if bodies[r.Id] == 0 {
				return iproto.RetCode(codes[r.Id]), nil
			}
			return iproto.RetCode(codes[r.Id]), iproto.Body(answer(int(r.Id)))
		}
		var svc iproto.Service
		switch kind {
		case "direct":
			svc = iproto.SF(func(r *iproto.Request) { r.Respond(handle(r)) })
		case "later":
			svc = iproto.SF(func(r *iproto.Request) { go func() { r.Respond(handle(r)) }() })
		case "pool":
			p := iproto.BF{N: 2, Timeout: timeout}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) { return handle(r) })
			defer p.Stop()
			svc = p
		}
		bare := svc
		type report struct {
			id   uint32
			took time.Duration
			code iproto.RetCode
		}
		var mu sync.Mutex
		reports := make([]map[uint32][]report, depth)
		for i := range reports {
			i := i
			reports[i] = map[uint32][]report{}
			svc = iproto.StatWrap(svc, func(r *iproto.Request, d time.Duration) {
				mu.Lock()
				reports[i][r.Id] = append(reports[i][r.Id], report{r.Id, d, r.Response.Code})
				mu.Unlock()
			})
		}
		if svc.DefaultTimeout() != bare.DefaultTimeout() || !svc.Runned() {
			t.Fatalf("wrapped: timeout %v, runned %v; bare: timeout %v", svc.DefaultTimeout(), svc.Runned(), bare.DefaultTimeout())
		}
		stop, sched := h.Sched(t)
		defer stop()
		res := make([]iproto.Chan, n)
		for i := range res {
			res[i] = make(iproto.Chan, 3)
		}
		var wg sync.WaitGroup
		begun := time.Now()
		for g := 0; g < ng; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := g; i < n; i += ng {
					r := &iproto.Request{Id: uint32(i), Msg: 5, Responder: res[i]}
					if early[i] == 0 {
						r.Cancel()
					}
					svc.Send(r)
				}
			}(g)
		}
		got := make([]*iproto.Response, n)
		h.Within(t, "answers", func() {
			wg.Wait()
			for i := range res {
				got[i] = <-res[i]
			}
		})
		total := time.Since(begun)
		stop()
		mu.Lock()
		defer mu.Unlock()
		desc := fmt.Sprintf("%d requests by %d goroutines to a %s service wrapped %d times, timeout %v, schedule %s", n, ng, kind, depth, timeout, sched)
		for i := range got {
			a := got[i]
			want, body := iproto.RetCode(codes[i]), answer(i)
			lapsed := a.Code == iproto.RcTimeout && kind == "pool" && timeout > 0
			if early[i] == 0 {
				want, body = iproto.RcCanceled, ""
			}
			if a.Id != uint32(i) || a.Msg != 5 || !lapsed && (a.Code != want || string(a.Body) != body) {
				t.Fatalf("request %d is answered %v: %s", i, a, desc)
			}
			for d := range reports {
				rs := reports[d][uint32(i)]
				if early[i] == 0 {
					if len(rs) != 0 {
						t.Fatalf("a request completed before it was sent is reported: %s", desc)
					}
					continue
				}
				if len(rs) != 1 {
					t.Fatalf("request %d was reported %d times by wrapping %d: %s", i, len(rs), d, desc)
				}
				if rs[0].code != a.Code {
					t.Fatalf("request %d was reported with code %#x and answered with %#x: %s", i, uint32(rs[0].code), uint32(a.Code), desc)
				}
				if rs[0].took < 0 || rs[0].took > total+time.Second {
					t.Fatalf("request %d took %v of %v: %s", i, rs[0].took, total, desc)
				}
				if !lapsed && rs[0].took < time.Duration(sleeps[i])*time.Microsecond {
					t.Fatalf("request %d took %v, its handler slept %d us: %s", i, rs[0].took, sleeps[i], desc)
				}
			}
			select {
			case b := <-res[i]:
				t.Fatalf("request %d is answered again: %v: %s", i, b, desc)
			default:
			}
		}
		c.Class(kind)
		if ng > 1 {
			c.NonTrivial(desc + fmt.Sprint(sleeps, early, codes, bodies))
			c.Sample("%s", desc)
		}
	})
}
