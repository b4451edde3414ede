package c16

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/h"
	"verif/ref"
	"verif/wire"

	"github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const wait = 30 * time.Second

// call is a frame of a client and its expected answer.
type call struct {
	n    int
	ping bool
	msg  uint32
	id   uint32
	body []byte
	code uint32
	how  int // how the service answers
	ans  []byte
	seen int
}

type client struct {
	calls  []*call
	sizes  []int
	pause  time.Duration
	burst  int // frames written before the answers are awaited; 0: all
	slow   time.Duration
	half   bool // half-close when everything is sent
	conn   wire.Conn
	key    uint32
	err    string
	byMark map[string]*call
}

func (cl *client) String() string {
	s := fmt.Sprintf("{chunks %v pause %v burst %d slow %v half %v:", cl.sizes, cl.pause, cl.burst, cl.slow, cl.half)
	for i, q := range cl.calls {
		if i > 6 {
			return s + fmt.Sprintf(" ...%d calls}", len(cl.calls))
		}
		if q.ping {
			s += fmt.Sprintf(" ping#%x", q.id)
		} else {
			s += fmt.Sprintf(" %x#%x+%d->%#x+%d", q.msg, q.id, len(q.body), q.code, len(q.ans))
		}
	}
	return s + "}"
}

// TestAnswers: every request frame gets its answer, whatever the order.
func TestAnswers(t *testing.T) {
	h.Run(t, "1-4 raw connections to a server with drawn code width and code map send 0-700 request and ping frames each, in drawn chunks and bursts; the service answers from 1-4 goroutines in drawn order, at once or when all have arrived; clients read fast or slowly and half-close or not; non-trivial with at least 3 requests answered out of order or more than 128 answers at once; distinct by plan", 700, func(t *rapid.T, c *h.Case) {
		rc := wire.GenRC(t)
		tcp := rapid.IntRange(0, 3).Draw(t, "tcp") == 0
		rcmap := map[iproto.RetCode]iproto.RetCode{}
		for i := rapid.IntRange(0, 3).Draw(t, "map"); i > 0; i-- {
			k := rapid.SampledFrom([]uint32{0x03, 0xfb, 0xff03, 0xfe03, 0xfd03, 0xfc03, 0x12345603}).Draw(t, "k")
			v := ref.Uint(t, 32)
			if v&7 == 3 {
				v ^= 1
			}
			if rapid.IntRange(0, 4).Draw(t, "to ok") == 0 {
				v = 0
			}
			rcmap[iproto.RetCode(k)] = iproto.RetCode(v)
		}
		genCode := func() uint32 {
			k := rapid.SampledFrom([]uint32{0, 0, 1, 2, 3, 4, 7, 0xff03, 0xfe03, 0xfd03, 0xfc03, 0x12345603, 0xfc02, 0xffffffff, 0xfffffffb, 8, 0x1000}).Draw(t, "code")
			if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
				k = uint32(ref.Uint(t, 32))
			}
			return k
		}
		expect := func(code uint32) uint32 {
			if code&7 == 3 {
				if v, ok := rcmap[iproto.RetCode(code)]; ok {
					code = uint32(v)
				} else {
					code = code&^7 | 2
				}
			}
			return rc.Cut(code)
		}
		var cls []*client
		total, marks := 0, 0
		for i := rapid.IntRange(1, 4).Draw(t, "clients"); i > 0; i-- {
			cl := &client{byMark: map[string]*call{}, key: uint32(len(cls))}
			cl.sizes = rapid.SampledFrom([][]int{{0}, {0}, {1}, {11, 1}, {13}, {5000}, {7, 100}}).Draw(t, "sizes")
			cl.burst = rapid.SampledFrom([]int{0, 0, 0, 1, 5}).Draw(t, "burst")
			cl.half = rapid.Bool().Draw(t, "half")
			if rapid.IntRange(0, 3).Draw(t, "slow") == 0 {
				cl.slow = time.Duration(rapid.IntRange(1, 200).Draw(t, "slowness")) * time.Microsecond
			}
			n := rapid.IntRange(0, 12).Draw(t, "n")
			kind := rapid.IntRange(0, 8).Draw(t, "many")
			if kind == 0 {
				n = rapid.IntRange(120, 700).Draw(t, "n")
			}
			if cl.sizes[0] == 1 && rapid.IntRange(0, 2).Draw(t, "pausing") == 0 {
				cl.pause = 10 * time.Microsecond
			}
			base := rapid.SampledFrom([]uint32{0, 1, 0x7ffffff0, 0xffffff00, 0xffffffff}).Draw(t, "base")
			for k := 0; k < n; k++ {
				q := &call{n: total, id: base + uint32(k)}
				total++
				if kind == 0 {
					// a long list is made by rule
					q.msg, q.code, q.how = uint32(k*37), uint32(k), k%3
					q.ping = k%50 == 49
					q.body = wire.Fill(k%20, uint64(k))
					q.ans = wire.Fill(k%60, uint64(k+1))
				} else {
					q.ping = rapid.IntRange(0, 4).Draw(t, "ping") == 0
					q.msg, q.code, q.how = uint32(ref.Uint(t, 32)), genCode(), rapid.IntRange(0, 2).Draw(t, "how")
					size := rapid.SampledFrom([]int{0, 1, 10, 100, 5000, 70000})
					q.body = wire.Fill(size.Draw(t, "body"), uint64(total))
					q.ans = wire.Fill(size.Draw(t, "answer"), uint64(total)*3)
				}
				if q.msg == wire.Ping {
					q.msg++
				}
				if q.ping {
					q.msg, q.body = wire.Ping, nil
					if cl.calls != nil && rapid.IntRange(0, 3).Draw(t, "samepingid") == 0 {
						q.id = wire.PingId
					}
				}
				if q.how == 1 {
					q.ans = nil
				}
				cl.calls = append(cl.calls, q)
			}
			cls = append(cls, cl)
		}
		// a ping may have the id of a request, but not of another ping
		for _, cl := range cls {
			pings := map[uint32]bool{}
			for _, q := range cl.calls {
				if q.ping {
					for pings[q.id] {
						q.id--
					}
					pings[q.id] = true
				}
			}
		}
		hold := rapid.Bool().Draw(t, "hold")
		for _, cl := range cls {
			if cl.burst != 0 {
				hold = false
			}
		}
		workers := rapid.IntRange(1, 4).Draw(t, "workers")
		inline := !hold && rapid.IntRange(0, 4).Draw(t, "inline") == 0
		shuffle := uint64(rapid.IntRange(0, 1000).Draw(t, "shuffle"))
		var timeout time.Duration
		if rapid.Bool().Draw(t, "timeouts") {
			timeout = time.Hour
		}
		stop, sched := h.Sched(t)
		defer stop()
		desc := func() string {
			return fmt.Sprintf("%v, tcp %v, map %v, hold %v, inline %v, %d workers, shuffle %d, clients %v, schedule %s", rc, tcp, rcmap, hold, inline, workers, shuffle, cls, sched)
		}
		// the service finds a request by its connection's first message: bodies
		// start with nothing special, so the id and the message identify it
		type job struct {
			r *iproto.Request
			q *call
		}
		var mu sync.Mutex
		var held []job
		var bad []string
		fail := func(f string, a ...interface{}) {
			mu.Lock()
			if len(bad) < 4 {
				bad = append(bad, fmt.Sprintf(f, a...))
			}
			mu.Unlock()
		}
		find := map[string]*call{}
		requests := 0
		for ci, cl := range cls {
			for _, q := range cl.calls {
				if q.ping {
					continue
				}
				requests++
				// the type makes the request unique
				q.msg = q.msg&^0xfff | uint32(ci)<<10 | q.msg&0x3ff
				if q.msg == wire.Ping {
					q.msg ^= 1
				}
				k := fmt.Sprintf("%x#%x+%x", q.msg, q.id, q.body)
				for find[k] != nil {
					q.msg ^= 0x80000000 + uint32(marks)<<16
					marks++
					k = fmt.Sprintf("%x#%x+%x", q.msg, q.id, q.body)
				}
				find[k] = q
			}
		}
		jobs := make(chan job, 10000)
		answer := func(j job) {
			switch j.q.how {
			case 0:
				j.r.RespondBytes(iproto.RetCode(j.q.code), j.q.ans)
			case 1:
				j.r.RespondFail(iproto.RetCode(j.q.code))
			case 2:
				j.r.Respond(iproto.RetCode(j.q.code), iproto.Body(j.q.ans))
			}
		}
		outOfOrder := requests > 2 && (workers > 1 || hold)
		var arrived int
		svc := iproto.SF(func(r *iproto.Request) {
			k := fmt.Sprintf("%x#%x+%x", uint32(r.Msg), r.Id, []byte(r.Body))
			mu.Lock()
			q := find[k]
			if q != nil {
				q.seen++
				if q.seen > 1 {
					q = nil
				}
			}
			arrived++
			all := arrived == requests
			if hold && q != nil {
				held = append(held, job{r, q})
			}
			mu.Unlock()
			if q == nil {
				fail("the service got request %.60s, which nobody sent, or twice", k)
				r.RespondFail(1)
				return
			}
			switch {
			case inline:
				answer(job{r, q})
			case !hold:
				jobs <- job{r, q}
			case all:
				mu.Lock()
				x := shuffle*2654435761 + 1
				for i := len(held) - 1; i > 0; i-- {
					x = x*6364136223846793005 + 1442695040888963407
					k := int(x>>33) % (i + 1)
					held[i], held[k] = held[k], held[i]
				}
				hs := held
				mu.Unlock()
				for _, j := range hs {
					jobs <- j
				}
			}
		})
		var ws sync.WaitGroup
		for i := 0; i < workers; i++ {
			ws.Add(1)
			go func() {
				defer ws.Done()
				for j := range jobs {
					answer(j)
				}
			}()
		}
		network, addr := wire.Address(tcp)
		cfg := server.Config{Network: network, Address: addr, EndPoint: svc, RCType: rc.Type, ReadTimeout: timeout, WriteTimeout: timeout}
		if len(rcmap) > 0 {
			cfg.RCMap = rcmap
		}
		srv := cfg.NewServer()
		if err := srv.Run(); err != nil {
			if tcp && strings.Contains(err.Error(), "in use") {
				t.SkipNow()
			}
			t.Fatalf("Run: %v", err)
		}
		var wg sync.WaitGroup
		for _, cl := range cls {
			cl := cl
			conn, err := wire.Dial(network, addr)
			if err != nil {
				t.Fatalf("cannot connect: %v: %s", err, desc())
			}
			cl.conn = conn
			wg.Add(1)
			go func() { defer wg.Done(); cl.play(rc, expect) }()
		}
		h.Within(t, "the clients: "+desc(), wg.Wait)
		mu.Lock()
		if len(bad) > 0 {
			t.Fatalf("%v: %s", bad, desc())
		}
		mu.Unlock()
		for _, cl := range cls {
			cl.conn.Close()
			if cl.err != "" {
				t.Fatalf("client %d: %s: %s", cl.key, cl.err, desc())
			}
		}
		h.Within(t, "Stop: "+desc(), func() { srv.Stop(); <-srv.Running })
		close(jobs)
		ws.Wait()
		flood := hold && requests > 128*len(cls)
		c.ClassIf(flood, "more than 128 answers at once")
		c.ClassIf(outOfOrder, "out of order")
		c.ClassIf(len(rcmap) > 0, "mapped codes")
		c.Class(rc.String())
		if outOfOrder || flood {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
	})
}

// play sends the frames and reads the answers.
func (cl *client) play(rc wire.RC, expect func(uint32) uint32) {
	type key struct{ msg, id uint32 }
	open := map[key]*call{}
	var mu sync.Mutex
	answered := 0
	cond := sync.NewCond(&mu)
	over := false
	var rd sync.WaitGroup
	rd.Add(1)
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		if cl.err == "" {
			cl.err = fmt.Sprintf(f, a...)
		}
		over = true
		cond.Broadcast()
		mu.Unlock()
		cl.conn.Close()
	}
	go func() {
		defer rd.Done()
		cl.conn.SetReadDeadline(time.Now().Add(wait))
		br := bufio.NewReaderSize(cl.conn, 16384)
		if cl.slow > 0 {
			br = bufio.NewReaderSize(cl.conn, 64)
		}
		for {
			mu.Lock()
			if answered == len(cl.calls) && !cl.half {
				mu.Unlock()
				return
			}
			mu.Unlock()
			f, err := wire.Read(br)
			if err != nil {
				mu.Lock()
				n := answered
				mu.Unlock()
				if err != io.EOF || !cl.half || n < len(cl.calls) {
					fail("%d of %d answers, then %v", n, len(cl.calls), err)
				}
				return
			}
			if cl.slow > 0 && answered < 100 {
				time.Sleep(cl.slow)
			}
			code, body, err := rc.Split(f)
			if err != nil {
				fail("%v", err)
				return
			}
			k := key{f.Msg, f.Id}
			mu.Lock()
			q := open[k]
			delete(open, k)
			mu.Unlock()
			if q == nil {
				fail("an answer with type %#x and id %#x to no request", f.Msg, f.Id)
				return
			}
			if q.ping {
				if len(body) != 0 {
					fail("a ping answer with %d bytes", len(body))
					return
				}
			} else if code != expect(q.code) || !bytes.Equal(body, q.ans) {
				fail("the answer to %x#%x is %#x with %d bytes instead of %#x with %d bytes (from %#x)", q.msg, q.id, code, len(body), expect(q.code), len(q.ans), q.code)
				return
			}
			mu.Lock()
			answered++
			cond.Broadcast()
			mu.Unlock()
		}
	}()
	var out []byte
	for i, q := range cl.calls {
		mu.Lock()
		open[key{q.msg, q.id}] = q
		mu.Unlock()
		out = wire.Frame{Msg: q.msg, Id: q.id, Body: q.body}.Enc(out)
		if cl.burst == 0 && i < len(cl.calls)-1 {
			continue
		}
		if cl.burst != 0 && i%cl.burst != cl.burst-1 && i < len(cl.calls)-1 {
			continue
		}
		if err := wire.Chunks(cl.conn, out, cl.sizes, cl.pause); err != nil {
			fail("write: %v", err)
			break
		}
		out = nil
		if cl.burst != 0 {
			mu.Lock()
			for answered < i+1 && !over {
				cond.Wait()
			}
			mu.Unlock()
		}
	}
	if cl.half {
		cl.conn.CloseWrite()
	}
	rd.Wait()
}
