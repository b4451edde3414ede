package c17

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"
	"verif/wire"

	"github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const wait = 30 * time.Second

func until(cond func() bool) bool {
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

func sockets() (n int) {
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		if l, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return
}

var leaked bool

// gone checks that a stopped server left nothing behind.
func gone(t *rapid.T, before int, desc func() string) {
	if leaked {
		return // told already
	}
	if !until(func() bool { return !strings.Contains(h.Stacks(), "/net/server.") }) {
		leaked = true
		t.Fatalf("goroutines of a stopped server remain: %s\n%s", desc(), h.Stacks())
	}
	// connections that were shut down in both directions are closed by the collector
	if !until(func() bool {
		if sockets() <= before {
			return true
		}
		runtime.GC()
		return false
	}) {
		t.Fatalf("%d sockets were open before the server was started and %d after it was stopped: %s", before, sockets(), desc())
	}
}

// bad is a client that misbehaves.
type bad struct {
	kind   string
	n      int  // requests
	pings  bool // every other frame is a ping
	body   int
	cutAt  int
	end    string // how it goes: "fin", "rst", "half"
	early  bool   // goes before the others have worked
	conn   wire.Conn
	held   int
	answer int // size of the answers
}

func (b *bad) String() string {
	return fmt.Sprintf("{%s %d requests (pings %v, %d bytes, hold %d, answers of %d) cut %d end %s early %v}", b.kind, b.n, b.pings, b.body, b.held, b.answer, b.cutAt, b.end, b.early)
}

func (b *bad) stream(key uint32) []byte {
	var out []byte
	for i := 0; i < b.n; i++ {
		id := uint32(i)
		if b.kind == "dup" {
			id = 7
		}
		out = wire.Frame{Msg: 0x1000 + key, Id: id, Body: wire.Fill(b.body, uint64(i))}.Enc(out)
		if b.pings {
			out = wire.Frame{Msg: wire.Ping, Id: id}.Enc(out)
		}
	}
	return out
}

func (b *bad) leave() {
	switch b.end {
	case "rst":
		if tc, ok := b.conn.(*net.TCPConn); ok {
			tc.SetLinger(0)
		}
	case "half":
		b.conn.CloseWrite()
		time.Sleep(100 * time.Microsecond)
	}
	b.conn.Close()
}

// TestBadClients: some clients misbehave, the others must not notice.
func TestBadClients(t *testing.T) {
	h.Run(t, "1-5 misbehaving clients (cut streams, stalls, floods of requests and pings, garbage, false lengths, repeated ids) next to 1-2 good ones, answers at once or after the clients have gone; non-trivial if a bad client had requests with the service when it went or stalled with more than 200 answers; distinct by plan", 400, func(t *rapid.T, c *h.Case) {
		tcp := rapid.IntRange(0, 2).Draw(t, "tcp") == 0
		var writeTimeout, readTimeout time.Duration
		switch rapid.IntRange(0, 3).Draw(t, "timeouts") {
		case 0:
			writeTimeout = 60 * time.Millisecond
		case 1:
			writeTimeout, readTimeout = time.Hour, time.Hour
		}
		nbad := rapid.IntRange(1, 5).Draw(t, "nbad")
		var bads []*bad
		stalls := false
		for i := 0; i < nbad; i++ {
			b := &bad{kind: rapid.SampledFrom([]string{"cut", "cut", "stall", "stall", "garbage", "liar", "dup", "nothing"}).Draw(t, "kind")}
			b.end = rapid.SampledFrom([]string{"fin", "rst", "half"}).Draw(t, "end")
			b.early = rapid.Bool().Draw(t, "early")
			b.body = rapid.SampledFrom([]int{0, 1, 30, 3000}).Draw(t, "body")
			b.pings = rapid.IntRange(0, 2).Draw(t, "pings") == 0
			b.answer = rapid.SampledFrom([]int{0, 10, 2000}).Draw(t, "answer")
			switch b.kind {
			case "cut", "dup":
				b.n = rapid.SampledFrom([]int{1, 2, 5, 30, 300}).Draw(t, "n")
				b.cutAt = rapid.IntRange(0, len(b.stream(0))).Draw(t, "cutat")
				if rapid.Bool().Draw(t, "whole") {
					b.cutAt = len(b.stream(0))
				}
				b.held = rapid.SampledFrom([]int{0, 1, 4, 1000}).Draw(t, "held")
			case "stall":
				stalls = true
				b.n = rapid.SampledFrom([]int{10, 300, 1000, 3000}).Draw(t, "n")
				if b.body > 30 {
					b.body = 30
				}
				b.held = rapid.SampledFrom([]int{0, 0, 20}).Draw(t, "held")
			}
			bads = append(bads, b)
		}
		ngood := rapid.IntRange(1, 2).Draw(t, "ngood")
		workers := rapid.IntRange(1, 3).Draw(t, "workers")
		stop, sched := h.Sched(t)
		defer stop()
		desc := func() string {
			return fmt.Sprintf("tcp %v, write timeout %v, %d workers, %d good and bad clients %v, schedule %s", tcp, writeTimeout, workers, ngood, bads, sched)
		}
		before := sockets()
		var mu sync.Mutex
		type req struct {
			r    *iproto.Request
			held bool
		}
		byBad := make([][]*req, nbad)
		released := make([]bool, nbad)
		jobs := make(chan *iproto.Request, 100000)
		var responding int64 // when a worker began to answer
		svc := iproto.SF(func(r *iproto.Request) {
			if k := int(r.Msg) - 0x1000; k >= 0 && k < nbad && bads[k].kind != "garbage" && bads[k].kind != "liar" {
				mu.Lock()
				q := &req{r: r, held: len(byBad[k]) < bads[k].held && !released[k]}
				byBad[k] = append(byBad[k], q)
				mu.Unlock()
				if q.held {
					return
				}
			}
			jobs <- r
		})
		var ws sync.WaitGroup
		for i := 0; i < workers; i++ {
			ws.Add(1)
			go func() {
				defer ws.Done()
				for r := range jobs {
					atomic.StoreInt64(&responding, time.Now().UnixNano())
					if k := int(r.Msg) - 0x1000; k >= 0 && k < nbad {
						r.RespondBytes(0, make([]byte, bads[k].answer))
					} else {
						r.RespondBytes(iproto.RetCode(r.Id*8), r.Body)
					}
				}
			}()
		}
		network, addr := wire.Address(tcp)
		srv := (&server.Config{Network: network, Address: addr, EndPoint: svc, WriteTimeout: writeTimeout, ReadTimeout: readTimeout}).NewServer()
		if err := srv.Run(); err != nil {
			if tcp && strings.Contains(err.Error(), "in use") {
				t.SkipNow()
			}
			t.Fatalf("Run: %v", err)
		}
		var conns []net.Conn
		defer func() {
			for _, cn := range conns {
				cn.Close()
			}
		}()
		dial := func() wire.Conn {
			cn, err := wire.Dial(network, addr)
			if err != nil {
				t.Fatalf("cannot connect: %v: %s", err, desc())
			}
			conns = append(conns, cn)
			return cn
		}
		// good clients
		quit := make(chan bool)
		var good sync.WaitGroup
		var gmu sync.Mutex
		var gerr string
		var calls int64
		var goods []wire.Conn
		for i := 0; i < ngood; i++ {
			cn := dial()
			goods = append(goods, cn)
			good.Add(1)
			go func() {
				defer good.Done()
				br := bufio.NewReader(cn)
				for id := uint32(1); ; id++ {
					select {
					case <-quit:
						return
					default:
					}
					body := wire.Fill(int(id%50), uint64(id))
					cn.SetDeadline(time.Now().Add(wait))
					_, err := cn.Write(wire.Frame{Msg: 5, Id: id, Body: body}.Enc(nil))
					var f wire.Frame
					if err == nil {
						f, err = wire.Read(br)
					}
					if want := (wire.RC{Len: 4}).Response(nil, 5, id, id*8, body); err != nil || !bytes.Equal(f.Enc(nil), want) {
						gmu.Lock()
						gerr = fmt.Sprintf("a good client's call %d: %v, got %+v", id, err, f)
						gmu.Unlock()
						return
					}
					atomic.AddInt64(&calls, 1)
					time.Sleep(20 * time.Microsecond)
				}
			}()
		}
		// bad clients
		var bw sync.WaitGroup
		for i, b := range bads {
			i, b := i, b
			b.conn = dial()
			bw.Add(1)
			go func() {
				defer bw.Done()
				b.conn.SetWriteDeadline(time.Now().Add(20 * time.Millisecond))
				switch b.kind {
				case "cut", "dup":
					// it does not read, so the server may stop reading from it
					b.conn.SetWriteDeadline(time.Now().Add(100 * time.Millisecond))
					b.conn.Write(b.stream(uint32(i))[:b.cutAt])
				case "stall":
					// it writes as long as the server takes it, and never reads
					b.conn.Write(b.stream(uint32(i)))
				case "garbage":
					b.conn.Write(wire.Fill(1+b.body*3, uint64(i+b.body)))
				case "liar":
					f := wire.Frame{Msg: 0x1000 + uint32(i), Id: 1, Body: wire.Fill(b.body, 2)}.Enc(nil)
					f[7] = 0x70 // a length of almost 2 GB
					b.conn.Write(f)
				}
				if b.early {
					b.leave()
				}
			}()
		}
		h.Within(t, "the bad clients: "+desc(), bw.Wait)
		if stalls && writeTimeout == 60*time.Millisecond {
			time.Sleep(100 * time.Millisecond)
		}
		// the good ones go on
		for k, want := 0, atomic.LoadInt64(&calls); k < ngood; k++ {
			if !until(func() bool {
				gmu.Lock()
				defer gmu.Unlock()
				return gerr != "" || atomic.LoadInt64(&calls) > want+3
			}) {
				t.Fatalf("a good client is not served: %s\n%s", desc(), h.Stacks())
			}
		}
		for _, b := range bads {
			if !b.early {
				b.leave()
			}
		}
		h.Within(t, "the workers: "+desc(), func() {
			// everything that is queued gets answered
			for len(jobs) > 0 {
				time.Sleep(50 * time.Microsecond)
			}
		})
		// what is left of the clients that have gone
		nontriv := false
		for i, b := range bads {
			pending := func() (qs []*req) {
				mu.Lock()
				defer mu.Unlock()
				for _, q := range byBad[i] {
					if !q.r.Performed() {
						qs = append(qs, q)
					}
				}
				return
			}
			// the reader of the connection may still be at it
			var qs []*req
			if b.kind == "cut" && b.cutAt > 0 || b.kind == "stall" {
				until2(func() bool { qs = pending(); return len(qs) > 0 })
			}
			nontriv = nontriv || len(qs) > 0 || b.kind == "stall" && b.n > 200
			mu.Lock()
			released[i] = true // what is read from now on is answered at once
			mu.Unlock()
			for k := 0; ; k++ {
				qs = pending()
				if len(qs) == 0 {
					break
				}
				sure := network == "unix" || b.end == "rst"
				if k == 0 || !sure {
					h.Within(t, "answering: "+desc(), func() { qs[0].r.RespondBytes(0, []byte("late")) })
				}
				if b.kind == "dup" {
					// only one of those with the same id belongs to the connection
					for _, q := range qs {
						q.r.RespondBytes(0, nil)
					}
					break
				}
				if sure {
					// the answer cannot be written, so the rest is cancelled
					if !until(func() bool { return len(pending()) == 0 }) {
						t.Fatalf("%d requests of a client that has gone are not cancelled (client %d, %v): %s\n%s", len(pending()), i, b, desc(), h.Stacks())
					}
				} else {
					time.Sleep(time.Millisecond)
				}
			}
		}
		close(quit)
		h.Within(t, "the good clients: "+desc(), good.Wait)
		if gerr != "" {
			t.Fatalf("%s: %s", gerr, desc())
		}
		late := rapid.Bool().Draw(t, "closegood")
		if late {
			for _, cn := range goods {
				cn.Close()
			}
		}
		h.Within(t, "Stop: "+desc(), func() { srv.Stop(); <-srv.Running })
		if !late {
			for _, cn := range goods {
				cn.SetReadDeadline(time.Now().Add(wait))
				if n, err := cn.Read(make([]byte, 1)); n != 0 || err != io.EOF {
					t.Fatalf("a good client gets %v instead of the end of the stream: %s", err, desc())
				}
				cn.Close()
			}
		}
		close(jobs)
		ws.Wait()
		gone(t, before, desc)
		for _, b := range bads {
			c.Class(b.kind)
			c.ClassIf(b.kind == "stall" && writeTimeout == 60*time.Millisecond, "stall with a write timeout")
		}
		if nontriv {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
	})
}

// until2 gives something that may not happen a short time.
func until2(cond func() bool) {
	for i := 0; i < 10 && !cond(); i++ {
		time.Sleep(50 * time.Microsecond)
	}
}

// TestStall: a client that stopped reading is dropped after the write timeout,
// and sees that when it comes back.
func TestStall(t *testing.T) {
	h.Run(t, "a client sends 300-4000 requests or pings and does not read until the write timeout has passed; all cases are non-trivial; distinct by plan", 24, func(t *rapid.T, c *h.Case) {
		tcp := rapid.Bool().Draw(t, "tcp")
		pings := rapid.Bool().Draw(t, "pings")
		n := rapid.IntRange(300, 4000).Draw(t, "n")
		held := rapid.IntRange(1, 5).Draw(t, "held")
		size := rapid.SampledFrom([]int{3000, 9000}).Draw(t, "size")
		desc := func() string {
			return fmt.Sprintf("tcp %v, pings %v, %d requests, %d held, answers of %d", tcp, pings, n, held, size)
		}
		before := sockets()
		var mu sync.Mutex
		var hs []*iproto.Request
		svc := iproto.SF(func(r *iproto.Request) {
			mu.Lock()
			if len(hs) < held {
				hs = append(hs, r)
				mu.Unlock()
				return
			}
			mu.Unlock()
			r.RespondBytes(0, make([]byte, size))
		})
		network, addr := wire.Address(tcp)
		srv := (&server.Config{Network: network, Address: addr, EndPoint: svc, WriteTimeout: 50 * time.Millisecond}).NewServer()
		if err := srv.Run(); err != nil {
			t.SkipNow()
		}
		cn, err := wire.Dial(network, addr)
		if err != nil {
			t.Fatalf("cannot connect: %v", err)
		}
		defer cn.Close()
		var out []byte
		for i := 0; i < n; i++ {
			out = wire.Frame{Msg: 3, Id: uint32(i)}.Enc(out)
			if pings {
				out = wire.Frame{Msg: wire.Ping, Id: uint32(i)}.Enc(out)
			}
		}
		cn.SetWriteDeadline(time.Now().Add(2 * time.Second))
		cn.Write(out)
		// pings fill the pipe slowly: more of them until it is full or the server has gone
		if n*size < 1<<23 {
			ping := bytes.Repeat(append(wire.Frame{Msg: 3, Id: 1 << 20}.Enc(nil), wire.Frame{Msg: wire.Ping, Id: 1}.Enc(nil)...), 5000)
			for i := 0; i < 40; i++ {
				cn.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
				if _, err := cn.Write(ping); err != nil {
					break
				}
			}
		}
		// whoever is held gets cancelled when the connection is dropped
		if !until(func() bool {
			mu.Lock()
			defer mu.Unlock()
			for _, r := range hs {
				if !r.Performed() {
					return false
				}
			}
			return len(hs) == held
		}) {
			t.Fatalf("requests of a stalled client are not cancelled after the write timeout: %s\n%s", desc(), h.Stacks())
		}
		cn.SetReadDeadline(time.Now().Add(wait))
		k, err := io.Copy(io.Discard, cn)
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			t.Fatalf("a dropped client gets %d bytes and no end: %s\n%s", k, desc(), h.Stacks())
		}
		cn.Close()
		h.Within(t, "Stop: "+desc(), func() { srv.Stop(); <-srv.Running })
		gone(t, before, desc)
		c.ClassIf(pings, "pings")
		c.NonTrivial(desc())
		c.Sample("%s", desc())
	})
}

// TestStop: a stop at any time loses nothing that was received.
func TestStop(t *testing.T) {
	h.Run(t, "0-4 clients with 0-60 pipelined requests each; the server is stopped when a drawn number of requests has come, those that are held are answered later; non-trivial if at least 2 requests were unanswered at the stop; distinct by plan", 900, func(t *rapid.T, c *h.Case) {
		tcp := rapid.IntRange(0, 2).Draw(t, "tcp") == 0
		ncl := rapid.IntRange(0, 4).Draw(t, "clients")
		type cl struct {
			n, size int
			half    bool
			pings   bool
			chunks  []int
			pause   time.Duration
			conn    wire.Conn
			got     map[uint32]bool
			err     string
			end     string
			lossy   bool
		}
		var cls []*cl
		total := 0
		for i := 0; i < ncl; i++ {
			k := &cl{n: rapid.IntRange(0, 60).Draw(t, "n"), half: rapid.IntRange(0, 2).Draw(t, "half") == 0, got: map[uint32]bool{}}
			k.pings = rapid.IntRange(0, 2).Draw(t, "pings") == 0
			k.size = rapid.SampledFrom([]int{0, 20, 9000}).Draw(t, "size")
			k.chunks = rapid.SampledFrom([][]int{{0}, {7}, {500}}).Draw(t, "chunks")
			k.pause = time.Duration(rapid.IntRange(0, 10).Draw(t, "pause")) * time.Microsecond
			total += k.n
			cls = append(cls, k)
		}
		stopAt := rapid.IntRange(0, total).Draw(t, "stopat")
		holdRate := rapid.IntRange(0, 4).Draw(t, "hold")
		after := time.Duration(rapid.IntRange(0, 2000).Draw(t, "after")) * time.Microsecond
		workers := rapid.IntRange(1, 3).Draw(t, "workers")
		newcomer := rapid.Bool().Draw(t, "newcomer")
		stop, sched := h.Sched(t)
		defer stop()
		desc := func() string {
			s := fmt.Sprintf("tcp %v, stop after %d of %d requests, hold rate %d, answers %v later, schedule %s, clients", tcp, stopAt, total, holdRate, after, sched)
			for _, k := range cls {
				s += fmt.Sprintf(" {%d requests, %d bytes, half %v pings %v chunks %v pause %v}", k.n, k.size, k.half, k.pings, k.chunks, k.pause)
			}
			return s
		}
		before := sockets()
		type seen struct {
			r    *iproto.Request
			held bool
		}
		var mu sync.Mutex
		var all []*seen
		var held []*iproto.Request
		released := false
		reached := make(chan bool)
		jobs := make(chan *iproto.Request, 10000)
		size := func(r *iproto.Request) int { return cls[uint32(r.Msg)-1].size }
		var answers int64
		svc := iproto.SF(func(r *iproto.Request) {
			if len(r.Body) != 4 || r.Msg == 0 || int(r.Msg) > ncl {
				panic("the service got a request that was not sent")
			}
			mu.Lock()
			q := &seen{r: r, held: !released && len(all)%5 < holdRate}
			all = append(all, q)
			if len(all) == stopAt {
				close(reached)
			}
			if q.held {
				held = append(held, r)
			}
			mu.Unlock()
			if !q.held {
				jobs <- r
			}
		})
		answer := func(r *iproto.Request) {
			id := uint64(r.Id)
			n := size(r)
			atomic.AddInt64(&answers, 1)
			r.RespondBytes(0, wire.Fill(n, id))
		}
		var ws sync.WaitGroup
		for i := 0; i < workers; i++ {
			ws.Add(1)
			go func() {
				defer ws.Done()
				for r := range jobs {
					answer(r)
				}
			}()
		}
		network, addr := wire.Address(tcp)
		srv := (&server.Config{Network: network, Address: addr, EndPoint: svc}).NewServer()
		if err := srv.Run(); err != nil {
			if tcp && strings.Contains(err.Error(), "in use") {
				t.SkipNow()
			}
			t.Fatalf("Run: %v", err)
		}
		var wg sync.WaitGroup
		for i, k := range cls {
			i, k := i, k
			cn, err := wire.Dial(network, addr)
			if err != nil {
				t.Fatalf("cannot connect: %v: %s", err, desc())
			}
			k.conn = cn
			wg.Add(2)
			var out []byte
			for j := 0; j < k.n; j++ {
				if k.pings {
					out = wire.Frame{Msg: wire.Ping, Id: uint32(j)}.Enc(out)
				}
				out = wire.Frame{Msg: uint32(i) + 1, Id: uint32(j), Body: []byte("1234")}.Enc(out)
			}
			go func() {
				defer wg.Done()
				wire.Chunks(cn, out, k.chunks, k.pause) // fails when the server stops
				if k.half {
					cn.CloseWrite()
				}
			}()
			go func() {
				defer wg.Done()
				cn.SetReadDeadline(time.Now().Add(wait))
				br := bufio.NewReader(cn)
				for {
					f, err := wire.Read(br)
					if err != nil {
						if err != io.EOF {
							k.end = err.Error()
						}
						return
					}
					if f.Msg == wire.Ping {
						continue
					}
					if f.Msg != uint32(i)+1 || k.got[f.Id] || len(f.Body) < 4 || !bytes.Equal(f.Body[4:], wire.Fill(k.size, uint64(f.Id))) {
						k.err = fmt.Sprintf("answer %x#%x with %d bytes", f.Msg, f.Id, len(f.Body))
						return
					}
					k.got[f.Id] = true
				}
			}()
		}
		if stopAt > 0 {
			select {
			case <-reached:
			case <-time.After(wait):
				t.Fatalf("the service got %d requests: %s", len(all), desc())
			}
		}
		ncwg := sync.WaitGroup{}
		if newcomer {
			ncwg.Add(1)
			go func() {
				defer ncwg.Done()
				if cn, err := wire.Dial(network, addr); err == nil {
					cn.SetDeadline(time.Now().Add(wait))
					if _, err := io.Copy(io.Discard, cn); err != nil && strings.Contains(err.Error(), "timeout") {
						mu.Lock()
						cls = append(cls, &cl{err: "a connection made during the stop is kept"})
						mu.Unlock()
					}
					cn.Close()
				}
			}()
		}
		mu.Lock()
		k := len(all)
		open := 0
		for _, q := range all {
			if !q.r.Performed() {
				open++
			}
		}
		mu.Unlock()
		h.Within(t, "Stop: "+desc(), srv.Stop)
		time.Sleep(after)
		select {
		case <-srv.Running:
			mu.Lock()
			for _, q := range all[:k] {
				if q.held && !q.r.Performed() {
					t.Fatalf("the server says it has stopped with unanswered requests: %s", desc())
				}
			}
			mu.Unlock()
		default:
		}
		mu.Lock()
		released = true
		hs := held
		mu.Unlock()
		for _, r := range hs {
			jobs <- r
		}
		select {
		case <-srv.Running:
		case <-time.After(wait):
			t.Fatalf("the stop does not end: %s\n%s", desc(), h.Stacks())
		}
		h.Within(t, "the clients to see the end: "+desc(), func() { wg.Wait(); ncwg.Wait() })
		mu.Lock()
		seenOf := make([]int, ncl)
		for _, q := range all {
			seenOf[uint32(q.r.Msg)-1]++
		}
		mu.Unlock()
		for i, k := range cls {
			// TCP resets a connection that was closed with requests unread or
			// on the way, and with it what was sent last
			k.lossy = tcp && k.conn != nil && seenOf[i] < k.n
			c.ClassIf(k.lossy, "reset possible")
			// so are those that were never accepted, by all networks
			refused := seenOf[i] == 0 && len(k.got) == 0 && strings.Contains(k.end, "reset")
			if k.err == "" && (!k.lossy && !refused || strings.Contains(k.end, "timeout")) {
				k.err = k.end
			}
			if k.err != "" {
				t.Fatalf("client %d: %s: %s", i, k.err, desc())
			}
			if k.conn != nil {
				k.conn.Close()
			}
		}
		mu.Lock()
		for j, q := range all {
			if cl := cls[uint32(q.r.Msg)-1]; j < k && !cl.got[q.r.Id] && !cl.lossy {
				t.Fatalf("request %d of client %d was received before the stop, and its answer does not arrive: %s", q.r.Id, uint32(q.r.Msg)-1, desc())
			}
		}
		mu.Unlock()
		if cn, err := wire.Dial(network, addr); err == nil {
			cn.Close()
			t.Fatalf("a stopped server accepts: %s", desc())
		}
		close(jobs)
		ws.Wait()
		gone(t, before, desc)
		c.ClassIf(open > 1, "unanswered requests at the stop")
		c.ClassIf(ncl == 0, "no clients")
		c.ClassIf(k < total, "stopped before all requests came")
		if open > 1 {
			c.NonTrivial(desc())
			c.Sample("%s", desc())
		}
	})
}

// TestIdle: with a read timeout, a client that has gone silent is let go, not
// before the timeout and with all its answers, and one that keeps talking stays.
func TestIdle(t *testing.T) {
	h.Run(t, "2-8 clients of a server with a read timeout of 60-300 ms: silent from the start, after some requests, within a frame, with requests held, or talking on; all cases are non-trivial; distinct by plan", 40, func(t *rapid.T, c *h.Case) {
		tcp := rapid.Bool().Draw(t, "tcp")
		timeout := time.Duration(rapid.SampledFrom([]int{60, 150, 300}).Draw(t, "timeout")) * time.Millisecond
		type client struct {
			n, held, part int
			talks         bool
		}
		cls := make([]client, rapid.IntRange(2, 8).Draw(t, "clients"))
		for i := range cls {
			cls[i].n = rapid.SampledFrom([]int{0, 0, 1, 3, 200}).Draw(t, "n")
			if cls[i].n > 0 {
				cls[i].held = rapid.IntRange(0, 1).Draw(t, "held")
			}
			cls[i].part = rapid.SampledFrom([]int{0, 0, 1, 11, 12, 20}).Draw(t, "part")
			cls[i].talks = rapid.IntRange(0, 3).Draw(t, "talks") == 0
		}
		desc := func() string { return fmt.Sprintf("tcp %v, read timeout %v, %+v", tcp, timeout, cls) }
		before := sockets()
		release := make(chan bool)
		svc := iproto.SF(func(r *iproto.Request) {
			if r.Msg == 4 {
				go func() { <-release; r.RespondBytes(0, r.Body) }()
				return
			}
			r.RespondBytes(0, r.Body)
		})
		network, addr := wire.Address(tcp)
		srv := (&server.Config{Network: network, Address: addr, EndPoint: svc, ReadTimeout: timeout, RCType: 2}).NewServer()
		if err := srv.Run(); err != nil {
			t.SkipNow()
		}
		errs := make(chan string, len(cls))
		run := func(cl client) (res string) {
			cn, err := wire.Dial(network, addr)
			if err != nil {
				return "cannot connect"
			}
			defer cn.Close()
			cn.SetDeadline(time.Now().Add(wait))
			br := bufio.NewReader(cn)
			last := time.Now()
			if cl.talks {
				for end := last.Add(4 * timeout); last.Before(end); {
					time.Sleep(timeout / 10)
					now := time.Now()
					if now.Sub(last) > timeout/3 {
						return "" // too slow a machine to tell
					}
					last = now
					_, err := cn.Write(wire.Frame{Msg: wire.Ping, Id: 7}.Enc(nil))
					if err == nil {
						_, err = wire.Read(br)
					}
					if err != nil {
						if time.Since(last) > timeout/3 {
							return ""
						}
						return fmt.Sprintf("a client that sends something every %v is not served: %v", timeout/10, err)
					}
				}
			}
			var out []byte
			for i := 0; i < cl.n; i++ {
				msg := uint32(3)
				if i < cl.held {
					msg = 4
				}
				out = wire.Frame{Msg: msg, Id: uint32(i), Body: wire.Fill(i%40, uint64(i))}.Enc(out)
			}
			out = append(out, wire.Frame{Msg: 3, Id: 1 << 20, Body: make([]byte, 9)}.Enc(nil)[:cl.part]...)
			if last = time.Now(); len(out) > 0 {
				if _, err := cn.Write(out); err != nil {
					return ""
				}
			}
			if cl.held > 0 {
				time.Sleep(timeout + timeout/2)
				release <- true
			}
			got := map[uint32]bool{}
			for {
				f, err := wire.Read(br)
				if err == io.EOF {
					break
				}
				if err != nil {
					return fmt.Sprintf("a silent client sees %v after %d answers of %d and %v", err, len(got), cl.n, time.Since(last))
				}
				if got[f.Id] || f.Id >= uint32(cl.n) || !bytes.HasSuffix(f.Body, wire.Fill(int(f.Id)%40, uint64(f.Id))) {
					return fmt.Sprintf("unexpected answer %+v", f)
				}
				got[f.Id] = true
			}
			if len(got) != cl.n {
				return fmt.Sprintf("a silent client gets %d answers of %d", len(got), cl.n)
			}
			if d := time.Since(last); d < timeout {
				return fmt.Sprintf("a client is let go after %v", d)
			}
			return ""
		}
		for _, cl := range cls {
			go func(cl client) { errs <- run(cl) }(cl)
		}
		for range cls {
			if e := <-errs; e != "" {
				close(release)
				t.Fatalf("%s: %s\n%s", e, desc(), h.Stacks())
			}
		}
		h.Within(t, "Stop: "+desc(), func() { srv.Stop(); <-srv.Running })
		gone(t, before, desc)
		c.NonTrivial(desc())
		c.Sample("%s", desc())
	})
}
