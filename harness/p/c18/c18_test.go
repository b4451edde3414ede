package c18

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"
	"verif/wire"

	"github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const wait = 30 * time.Second

func until(cond func() bool) bool {
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

// The plan of a request follows from its number.
type plan struct {
	n     int
	seed  uint64
	sizes []int
	codes []uint32
}

func (p plan) mix(k uint64) uint64 {
	x := p.seed + uint64(p.n)*0x9e3779b97f4a7c15 + k*0xbf58476d1ce4e5b9
	x ^= x >> 31
	x *= 0x94d049bb133111eb
	return x ^ x>>29
}

func (p plan) msg() uint32 {
	if p.mix(8)%16 == 0 {
		return wire.Ping // it is the id that makes a ping of the connection
	}
	return uint32(p.mix(1))
}

func (p plan) body() []byte {
	b := binary.LittleEndian.AppendUint64(nil, uint64(p.n))
	return append(b, wire.Fill(p.sizes[p.mix(2)%uint64(len(p.sizes))], p.mix(3))...)
}

func (p plan) code() uint32 {
	if p.msg() == wire.Ping {
		return 0 // such answers have none
	}
	if k := p.mix(4); k&3 == 0 {
		return p.codes[k>>2%uint64(len(p.codes))]
	}
	return uint32(p.mix(5))
}

func (p plan) answer() []byte {
	return wire.Fill(p.sizes[p.mix(6)%uint64(len(p.sizes))], p.mix(7))
}

type call struct {
	plan
	r         *iproto.Request
	id        uint32 // the caller's
	timed     bool
	cancel    int32
	missing   bool // not answered until the end
	got       int32
	res       iproto.Response
	answering int32 // the peer answers
	seen      int32
}

type peer struct {
	rc       wire.RC
	l        net.Listener
	mu       sync.Mutex
	conns    []*pconn
	err      string
	window   int
	order    string
	extras   int // of 16: repeated, unknown and ping answers
	chunks   []int
	seed     int64
	pings    bool // are answered
	byN      func(n uint64) *call
	late     bool // missing ones are answered now
	disorder int  // answers that overtook others
	repeats  int
	unknown  int
	most     int // in flight
	stopping int32
}

type pconn struct {
	wire.Conn
	pending map[uint32]*call // unanswered
	missing []uint32
	maxId   uint32
	wmu     sync.Mutex
	eof     bool
	frames  chan item
}

type item struct {
	wire.Frame
	c *call
}

func (p *peer) fail(f string, a ...interface{}) {
	p.mu.Lock()
	if p.err == "" {
		p.err = fmt.Sprintf(f, a...)
	}
	p.mu.Unlock()
}

func (p *peer) listen() {
	for {
		cn, err := p.l.Accept()
		if err != nil {
			return
		}
		pc := &pconn{Conn: cn.(wire.Conn), pending: map[uint32]*call{}, frames: make(chan item, 100000)}
		p.mu.Lock()
		p.conns = append(p.conns, pc)
		k := len(p.conns)
		p.mu.Unlock()
		go p.read(pc)
		go p.answer(pc, rand.New(rand.NewSource(p.seed+int64(k))))
	}
}

func (p *peer) read(pc *pconn) {
	defer close(pc.frames)
	br := bufio.NewReader(pc)
	first := true
	for {
		f, err := wire.Read(br)
		if err != nil {
			p.mu.Lock()
			pc.eof = true
			p.mu.Unlock()
			// a ping that is answered after the end resets the connection
			if err != io.EOF && atomic.LoadInt32(&p.stopping) == 0 {
				p.fail("a connection of the client ends with %v", err)
			}
			return
		}
		if f.Msg == wire.Ping && f.Id == wire.PingId {
			if len(f.Body) != 0 {
				p.fail("a ping has %d bytes", len(f.Body))
			}
			if first || p.pings {
				pc.frames <- item{f, nil}
			}
			first = false
			continue
		}
		if first {
			p.fail("the first frame of a connection is %x#%x", f.Msg, f.Id)
		}
		if f.Id == wire.PingId {
			p.fail("a request has the id of pings")
		}
		if len(f.Body) < 8 {
			p.fail("a request with %d bytes was not sent", len(f.Body))
			continue
		}
		c := p.byN(binary.LittleEndian.Uint64(f.Body))
		if c == nil || f.Msg != c.msg() || !bytes.Equal(f.Body, c.body()) {
			p.fail("a request was sent differently: %x#%x with %d bytes", f.Msg, f.Id, len(f.Body))
			continue
		}
		if atomic.AddInt32(&c.seen, 1) > 1 {
			p.fail("request %d comes twice", c.n)
		}
		p.mu.Lock()
		old := pc.pending[f.Id]
		pc.pending[f.Id] = c
		if len(pc.pending) > p.most {
			p.most = len(pc.pending)
		}
		p.mu.Unlock()
		if old != nil {
			p.fail("requests %d and %d are on their way with the same id %x", old.n, c.n, f.Id)
		}
		pc.frames <- item{f, c}
	}
}

func (p *peer) answer(pc *pconn, rng *rand.Rand) {
	tm := time.NewTimer(time.Hour)
	defer tm.Stop()
	var dead []uint32 // answered ids
	var last time.Time
	var held []item          // are answered when nothing else comes
	rows := map[uint32]int{} // frames until one is held
	for {
		var batch []item
		idle := false
		if len(held) > 0 {
			tm.Reset(time.Until(last.Add(4 * time.Millisecond)))
			select {
			case it, ok := <-pc.frames:
				if !ok { // the client says that nothing more will come
					batch, held, idle = held, nil, true
					break
				}
				batch = append(batch, it)
			case <-tm.C:
				batch, held, idle = held, nil, true
			}
		} else {
			it, ok := <-pc.frames
			if !ok {
				return
			}
			batch = append(batch, it)
		}
		tm.Reset(300 * time.Microsecond)
	Collect:
		for len(batch) < p.window {
			select {
			case it, ok := <-pc.frames:
				if !ok {
					break Collect
				}
				batch = append(batch, it)
			case <-tm.C:
				break Collect
			}
		}
		if p.order == "stragglers" && !idle {
			// one of about 256 neighbours waits
			rest := batch[:0:0]
			for _, it := range batch {
				if it.c != nil {
					last = time.Now() // pings do not count
				}
				k, ok := rows[it.Id>>8]
				if !ok {
					k = rng.Intn(250)
				}
				if rows[it.Id>>8] = k - 1; k == 0 && it.c != nil {
					held = append(held, it)
				} else {
					rest = append(rest, it)
				}
			}
			batch = rest
		}
		idx := make([]int, len(batch))
		for i := range idx {
			idx[i] = i
		}
		switch p.order {
		case "last":
			for i := range idx {
				idx[i] = len(idx) - 1 - i
			}
		case "any", "stragglers":
			rng.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
		}
		var out []byte
		max := -1
		for _, i := range idx {
			it := batch[i]
			if it.Id > pc.maxId && it.Id != wire.PingId {
				pc.maxId = it.Id
			}
			if it.c == nil {
				out = p.rc.Response(out, wire.Ping, wire.PingId, 0, nil)
				continue
			}
			p.mu.Lock()
			if it.c.missing && !p.late {
				pc.missing = append(pc.missing, it.Id)
				p.mu.Unlock()
				continue
			}
			delete(pc.pending, it.Id)
			if i < max {
				p.disorder++
			}
			p.mu.Unlock()
			if i > max {
				max = i
			}
			atomic.StoreInt32(&it.c.answering, 1)
			out = p.rc.Response(out, it.c.msg(), it.Id, it.c.code(), it.c.answer())
			dead = append(dead, it.Id)
			if rng.Intn(16) < p.extras {
				k := 0
				switch rng.Intn(3) {
				case 0:
					id := dead[len(dead)-1-rng.Intn(len(dead))]
					if rng.Intn(2) == 0 {
						id = it.Id
					}
					for k = rng.Intn(3); k >= 0; k-- {
						out = p.rc.Response(out, it.c.msg(), id, 0x55, []byte("repeated"))
					}
					p.mu.Lock()
					p.repeats++
					p.mu.Unlock()
				case 1:
					// far from what can be on the way
					id := []uint32{pc.maxId + 1<<20, 0x80000000 + uint32(rng.Intn(1<<20)), 0xffffff00, 0xfffffffe, 1 << 30}[rng.Intn(5)]
					out = p.rc.Response(out, it.c.msg(), id, 0x55, []byte("unknown"))
					p.mu.Lock()
					p.unknown++
					p.mu.Unlock()
				case 2:
					for k = rng.Intn(3); k >= 0; k-- {
						out = p.rc.Response(out, wire.Ping, wire.PingId, 0, nil)
					}
				}
			}
		}
		pc.wmu.Lock()
		err := wire.Chunks(pc, out, p.chunks, 0)
		pc.wmu.Unlock()
		if err != nil {
			if atomic.LoadInt32(&p.stopping) != 0 {
				return
			}
			p.fail("the client closed a connection: %v", err)
			return
		}
	}
}

// lateAnswers answers those that were not answered.
func (p *peer) lateAnswers() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.late = true
	for _, pc := range p.conns {
		var out []byte
		for _, id := range pc.missing {
			out = p.rc.Response(out, 1, id, 0x55, []byte("late"))
			delete(pc.pending, id)
		}
		pc.missing = nil
		pc := pc
		go func() {
			pc.wmu.Lock()
			pc.Write(out)
			pc.wmu.Unlock()
		}()
	}
}

var leaked bool

// gone checks that a stopped client left nothing behind.
func gone(t *rapid.T, desc func() string) {
	if leaked {
		return // told already
	}
	if !until(func() bool {
		for _, g := range strings.Split(h.Stacks(), "\n\n") {
			if strings.Contains(g, "/net/client") && !strings.Contains(g, "client.(*Server).shutDown") {
				return false
			}
		}
		return true
	}) {
		leaked = true
		t.Fatalf("goroutines of a stopped client remain: %s\n%s", desc(), h.Stacks())
	}
}

// TestPairs: every request gets its own answer.
func TestPairs(t *testing.T) {
	h.Run(t, "1-4 senders send 1-3000 requests (plain, timed, cancelled) with drawn sizes through a client with 1-4 connections to a scripted peer that answers in windows of 1-600, in, against or without order, in chunks, with repeated, unknown, missing and late answers and pings in between; non-trivial with answers that overtook others or with unusual answers; distinct by plan", 300, func(t *rapid.T, c *h.Case) {
		rc := wire.GenRC(t)
		tcp := rapid.IntRange(0, 3).Draw(t, "tcp") == 0
		seed := rapid.Uint64().Draw(t, "seed")
		nconn := rapid.IntRange(1, 4).Draw(t, "conns")
		senders := rapid.IntRange(1, 4).Draw(t, "senders")
		n := rapid.IntRange(1, 60).Draw(t, "n")
		switch rapid.IntRange(0, 5).Draw(t, "many") {
		case 0:
			n = rapid.IntRange(250, 1100).Draw(t, "n")
		case 1:
			n = rapid.IntRange(500, 3000).Draw(t, "n")
		}
		order := rapid.SampledFrom([]string{"first", "last", "any", "any", "stragglers"}).Draw(t, "order")
		if order == "stragglers" && rapid.Bool().Draw(t, "very many") {
			n = rapid.IntRange(1500, 6000).Draw(t, "n")
			nconn = rapid.IntRange(1, 2).Draw(t, "conns")
		}
		burst := rapid.SampledFrom([]int{1, 3, 20, 100000}).Draw(t, "burst")
		sizes := rapid.SampledFrom([][]int{{0}, {0, 1, 2}, {0, 1, 10, 100}, {0, 30, 5000, 9000}, {70000, 0, 1}}).Draw(t, "sizes")
		if n > 200 && sizes[len(sizes)-1] > 200 || sizes[0] == 70000 && n > 30 {
			sizes = []int{0, 300, 17}
		}
		codes := []uint32{0, 1, 2, 3, 0xff03, 0xfe03, 0xfd03, 0xfc03, 0xfc02, 0x0302, 0xffffffff}
		timed := rapid.IntRange(0, 4).Draw(t, "timed")       // of 16
		cancelled := rapid.IntRange(0, 4).Draw(t, "cancels") // of 16
		missing := rapid.IntRange(0, 12).Draw(t, "missing")  // of 16 of those
		var timeout time.Duration
		if rapid.IntRange(0, 3).Draw(t, "servertimeout") == 0 {
			timeout = time.Hour
		}
		ping := rapid.SampledFrom([]time.Duration{-1, 0, time.Hour, time.Millisecond, 20 * time.Millisecond}).Draw(t, "ping")
		p := &peer{rc: rc, seed: int64(seed >> 1)}
		p.pings = rapid.IntRange(0, 3).Draw(t, "pings") > 0
		p.window = rapid.SampledFrom([]int{1, 2, 5, 30, 600}).Draw(t, "window")
		p.order = order
		if order == "stragglers" {
			burst = 100000
		}
		p.extras = rapid.SampledFrom([]int{0, 1, 8}).Draw(t, "extras")
		p.chunks = rapid.SampledFrom([][]int{{0}, {0}, {1}, {13}, {16, 3}, {4096}}).Draw(t, "chunks")
		if p.chunks[0] < 20 && p.chunks[0] > 0 && (sizes[len(sizes)-1] > 1000 || n > 60) {
			p.chunks = []int{8000, 3000}
		}
		stop, sched := h.Sched(t)
		defer stop()
		desc := func() string {
			return fmt.Sprintf("%v, tcp %v, %d connections, %d senders, %d requests in bursts of %d, sizes %v, timed %d/16 cancelled %d/16 missing %d/16, ping %v (answered %v), window %d, order %s, extras %d/16, chunks %v, seed %x, schedule %s",
				rc, tcp, nconn, senders, n, burst, sizes, timed, cancelled, missing, ping, p.pings, p.window, p.order, p.extras, p.chunks, seed, sched)
		}
		calls := make([]*call, n+50)
		for i := range calls {
			q := &call{plan: plan{n: i, seed: seed, sizes: sizes, codes: codes}}
			q.id = uint32(q.mix(10))
			if i < n {
				q.timed = int(q.mix(11)%16) < timed
				if int(q.mix(12)%16) < cancelled {
					q.cancel = 1
				}
				q.missing = (q.timed || q.cancel > 0) && int(q.mix(13)%16) < missing
			}
			calls[i] = q
		}
		p.byN = func(n uint64) *call {
			if n < uint64(len(calls)) {
				return calls[n]
			}
			return nil
		}
		network, addr := wire.Address(tcp)
		l, err := net.Listen(network, addr)
		if err != nil {
			t.SkipNow()
		}
		p.l = l
		go p.listen()
		defer func() {
			l.Close()
			p.mu.Lock()
			for _, pc := range p.conns {
				pc.Close()
			}
			p.mu.Unlock()
		}()
		conf := client.ServerConfig{Network: network, Address: addr, Connections: nconn, PingInterval: ping, RetCodeType: rc.Type, Timeout: timeout}
		if rapid.Bool().Draw(t, "default network") {
			conf.Network = "" // follows from the address
		}
		if nconn == 1 && rapid.Bool().Draw(t, "default connections") {
			conf.Connections = 0
		}
		if rapid.Bool().Draw(t, "iotimeouts") {
			conf.WriteTimeout, conf.ReadTimeout = time.Hour, time.Hour
		}
		srv := conf.NewServer()
		iproto.Run(srv)
		send := func(q *call, done chan<- bool) {
			q.r = &iproto.Request{Id: q.id, Msg: iproto.RequestType(q.msg()), Body: q.body()}
			q.r.Responder = iproto.Callback(func(r *iproto.Response) {
				if atomic.AddInt32(&q.got, 1) == 1 {
					q.res = *r
					done <- true
				}
			})
			if q.timed {
				q.r.SetTimeout(time.Duration(1+q.mix(14)%8000) * time.Microsecond)
			}
			srv.Send(q.r)
			if q.cancel > 0 {
				r := q.r
				if q.mix(15)%4 == 0 {
					r.Cancel()
				} else {
					time.AfterFunc(time.Duration(q.mix(16)%3000)*time.Microsecond, r.Cancel)
				}
			}
		}
		stuck := func(what string) {
			p.mu.Lock()
			e := p.err
			p.mu.Unlock()
			miss := ""
			for _, q := range calls {
				if q.r != nil && atomic.LoadInt32(&q.got) == 0 {
					miss += fmt.Sprintf(" %d (seen by the peer %d, answered %d, timed %v)", q.n, atomic.LoadInt32(&q.seen), atomic.LoadInt32(&q.answering), q.timed)
				}
			}
			if len(miss) > 600 {
				miss = miss[:600]
			}
			t.Fatalf("%s: no answer for requests%s (peer says %q): %s\n%s", what, miss, e, desc(), h.Stacks())
		}
		var wg sync.WaitGroup
		for s := 0; s < senders; s++ {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				done := make(chan bool, n)
				open := 0
				for i := s; i < n; i += senders {
					send(calls[i], done)
					if open++; open == burst {
						for ; open > 0; open-- {
							<-done
						}
					}
				}
				for ; open > 0; open-- {
					<-done
				}
			}()
		}
		sent := make(chan bool)
		go func() { wg.Wait(); close(sent) }()
		select {
		case <-sent:
		case <-time.After(wait):
			stuck("stream")
		}
		// what the peer did not answer is answered late, and then all goes on
		p.lateAnswers()
		done := make(chan bool, 50)
		for _, q := range calls[n:] {
			send(q, done)
		}
		tm := time.After(wait)
		for range calls[n:] {
			select {
			case <-done:
			case <-tm:
				stuck("after late answers")
			}
		}
		ok := until(func() bool {
			p.mu.Lock()
			defer p.mu.Unlock()
			return len(p.conns) >= nconn
		})
		p.mu.Lock()
		k := len(p.conns)
		p.mu.Unlock()
		if !ok || k != nconn {
			t.Fatalf("%d connections were made: %s", k, desc())
		}
		atomic.StoreInt32(&p.stopping, 1)
		h.Within(t, "Stop: "+desc(), srv.Stop)
		// everything is answered, so the connections end
		if !until(func() bool {
			p.mu.Lock()
			defer p.mu.Unlock()
			for _, pc := range p.conns {
				if !pc.eof {
					return false
				}
			}
			return true
		}) {
			t.Fatalf("a stopped client without requests in flight keeps connections: %s\n%s", desc(), h.Stacks())
		}
		p.mu.Lock()
		defer p.mu.Unlock()
		if p.err != "" {
			t.Fatalf("%s: %s", p.err, desc())
		}
		for _, q := range calls {
			if g := atomic.LoadInt32(&q.got); g != 1 {
				t.Fatalf("request %d is answered %d times: %s", q.n, g, desc())
			}
			if q.res.Id != q.id || uint32(q.res.Msg) != q.msg() {
				t.Fatalf("the answer of request %d (%x#%x) is for %x#%x: %s", q.n, q.msg(), q.id, q.res.Msg, q.res.Id, desc())
			}
			own := atomic.LoadInt32(&q.answering) > 0 && uint32(q.res.Code) == rc.Cut(q.code()) && bytes.Equal(q.res.Body, q.answer())
			switch {
			case own:
			case len(q.res.Body) == 0 && q.timed && q.res.Code == iproto.RcTimeout:
				c.Class("expired")
			case len(q.res.Body) == 0 && q.cancel > 0 && q.res.Code == iproto.RcCanceled:
				c.Class("cancelled")
			default:
				t.Fatalf("request %d (timed %v, cancelled %v, seen by the peer %d times, answered %v) gets code %x and %d bytes %.40q instead of %x and %d bytes: %s", q.n, q.timed, q.cancel > 0, q.seen, q.answering > 0, q.res.Code, len(q.res.Body), q.res.Body, rc.Cut(q.code()), len(q.answer()), desc())
			}
		}
		c.ClassIf(p.disorder > 0, "overtaking answers")
		c.ClassIf(p.repeats > 0, "repeated answers")
		c.ClassIf(p.unknown > 0, "unknown answers")
		c.ClassIf(p.most > 256, "more than 256 in flight on a connection")
		c.ClassIf(missing > 0 && timed+cancelled > 0, "missing and late answers")
		if p.disorder+p.repeats+p.unknown > 0 {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
		gone(t, desc)
	})
}

// TestForged: answers for ids that are not on their way are ignored.
func TestForged(t *testing.T) {
	h.Run(t, "one connection, 1-300 calls one after another (or 2-5 at once), before each true answer the peer sends answers with ids around it that are not in use; non-trivial with at least 2 calls and 2 forged answers; distinct by plan", 500, func(t *rapid.T, c *h.Case) {
		rc := wire.GenRC(t)
		n := rapid.IntRange(1, 30).Draw(t, "n")
		if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
			n = rapid.IntRange(200, 700).Draw(t, "n")
		}
		offs := rapid.SliceOfN(rapid.SampledFrom([]int64{-600, -300, -256, -255, -3, -2, -1, 1, 1, 2, 3, 4, 254, 255, 256, 257, 512, 1 << 20, 1 << 31, -1 << 31}), 0, 6).Draw(t, "forged")
		repeat := rapid.IntRange(0, 2).Draw(t, "repeat")
		dead := rapid.IntRange(0, 3).Draw(t, "dead") // requests that are cancelled when the client gets them
		stop, sched := h.Sched(t)
		defer stop()
		desc := func() string {
			return fmt.Sprintf("%v, %d calls, %d dead ones before each, forged answers at %v, each true answer repeated %d times, schedule %s", rc, n, dead, offs, repeat, sched)
		}
		network, addr := wire.Address(false)
		l, err := net.Listen(network, addr)
		if err != nil {
			t.SkipNow()
		}
		defer l.Close()
		var perr atomic.Value
		end := make(chan bool)
		forged := 0
		go func() {
			defer close(end)
			cn, err := l.Accept()
			if err != nil {
				return
			}
			defer cn.Close()
			br := bufio.NewReader(cn)
			for {
				f, err := wire.Read(br)
				if err != nil {
					if err != io.EOF {
						perr.Store(err.Error())
					}
					return
				}
				var out []byte
				if f.Msg == wire.Ping && f.Id == wire.PingId {
					cn.Write(rc.Response(out, wire.Ping, wire.PingId, 0, nil))
					continue
				}
				if f.Id == wire.PingId {
					perr.Store("a request has the id of pings")
				}
				for _, o := range offs {
					if string(f.Body) == "dead" {
						break // more requests may be on their way
					}
					if id := uint32(int64(f.Id) + o); id != f.Id {
						out = rc.Response(out, f.Msg, id, 0x55, []byte("forged"))
						forged++
					}
				}
				out = rc.Response(out, f.Msg, f.Id, f.Msg*2, append([]byte("answer"), f.Body...))
				for i := 0; i < repeat; i++ {
					out = rc.Response(out, f.Msg, f.Id, 0x55, []byte("repeated"))
				}
				if _, err = cn.Write(out); err != nil {
					perr.Store("the client closed the connection: " + err.Error())
					return
				}
			}
		}()
		srv := client.ServerConfig{Network: network, Address: addr, PingInterval: -1, RetCodeType: rc.Type}.NewServer()
		iproto.Run(srv)
		for i := 0; i < n; i++ {
			for k := 0; k < dead; k++ {
				r := &iproto.Request{Msg: 7, Body: []byte("dead"), Responder: iproto.Callback(func(*iproto.Response) {})}
				if k&1 == 0 {
					r.SetTimeout(1)
					for !r.Performed() {
						runtime.Gosched()
					}
				}
				srv.Send(r)
				r.Cancel()
			}
			body := wire.Fill(i%9, uint64(i))
			ch := make(iproto.Chan, 4)
			srv.Send(&iproto.Request{Msg: iproto.RequestType(i + 100), Id: uint32(i * 3), Body: body, Responder: ch})
			select {
			case r := <-ch:
				if uint32(r.Code) != rc.Cut(uint32(i+100)*2) || string(r.Body) != "answer"+string(body) || r.Id != uint32(i*3) {
					t.Fatalf("call %d gets %x, %.40q: %s", i, r.Code, r.Body, desc())
				}
			case <-time.After(wait):
				t.Fatalf("call %d gets no answer (peer: %v): %s\n%s", i, perr.Load(), desc(), h.Stacks())
			}
			h.Alive()
		}
		h.Within(t, "Stop: "+desc(), srv.Stop)
		select {
		case <-end:
		case <-time.After(wait):
			t.Fatalf("a stopped client without requests in flight keeps its connection: %s\n%s", desc(), h.Stacks())
		}
		if e := perr.Load(); e != nil {
			t.Fatalf("%v: %s", e, desc())
		}
		gone(t, desc)
		if n > 1 && len(offs)+repeat > 1 {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
	})
}
