package c19

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"
	"verif/wire"

	"github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const wait = 30 * time.Second

func until(cond func() bool) bool {
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(300 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

type call struct {
	n        int
	big      bool
	got      int32
	code     iproto.RetCode
	body     []byte
	seen     bool // the rest is under the lock of the peer
	answered bool
	conn     *pconn
	id       uint32
}

func (c *call) request() []byte {
	b := binary.LittleEndian.AppendUint64(nil, uint64(c.n))
	if c.big {
		b = append(b, make([]byte, 60000)...)
	}
	return b
}

func (c *call) answer() []byte { return wire.Fill(c.n%40, uint64(c.n)) }
func (c *call) own(rc wire.RC) bool {
	return uint32(c.code) == rc.Cut(uint32(c.n)*8) && bytes.Equal(c.body, c.answer())
}

type pconn struct {
	wire.Conn
	ready, gone bool
	held        []*call
	deaf        bool
	muted       bool // in mode "mixed"
	asked       bool
}

// peer is a server whose failures are scripted.
type peer struct {
	rc      wire.RC
	network string
	addr    string
	mu      sync.Mutex
	l       net.Listener
	mode    string // "up", "down", "mute", "slam", "garbage", "wrongping", "mixed"
	mutes   int    // in mode "mixed" so many connections get no answer, others are ended
	conns   []*pconn
	hold    bool
	silent  bool // pings are not answered
	err     string
	byN     func(uint64) *call
	total   int
}

func (p *peer) fail(f string, a ...interface{}) {
	if p.err == "" {
		p.err = fmt.Sprintf(f, a...)
	}
}

// setMode is called under the lock.
func (p *peer) setMode(mode string) {
	p.mode = mode
	if mode == "down" {
		if p.l != nil {
			p.l.Close()
			p.l = nil
		}
	} else if p.l == nil {
		for i := 0; ; i++ {
			l, err := net.Listen(p.network, p.addr)
			if err == nil {
				p.l = l
				break
			}
			if i == 100 {
				p.fail("cannot listen: %v", err)
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		go p.accept(p.l)
	}
}

func (p *peer) accept(l net.Listener) {
	for {
		cn, err := l.Accept()
		if err != nil {
			return
		}
		pc := &pconn{Conn: cn.(wire.Conn)}
		p.mu.Lock()
		p.conns = append(p.conns, pc)
		mode := p.mode
		if mode == "mixed" {
			k := 0
			for _, o := range p.conns {
				if o.muted && !o.gone {
					k++
				}
			}
			if k < p.mutes {
				pc.muted = true
			} else {
				mode = "slam"
			}
		}
		p.mu.Unlock()
		if mode == "slam" {
			p.drop(pc)
			continue
		}
		go p.read(pc)
	}
}

func (p *peer) drop(pc *pconn) {
	p.mu.Lock()
	pc.gone = true
	p.mu.Unlock()
	pc.Close()
}

func (p *peer) read(pc *pconn) {
	defer func() {
		// the client has ended; requests that are held are still answered
		p.mu.Lock()
		pc.gone = true
		last := len(pc.held) == 0
		p.mu.Unlock()
		if last {
			pc.Close()
		}
	}()
	br := bufio.NewReader(pc)
	for {
		for {
			p.mu.Lock()
			deaf := pc.deaf
			p.mu.Unlock()
			if !deaf {
				break
			}
			time.Sleep(time.Millisecond)
			var one [0]byte
			if _, err := pc.Write(one[:]); err != nil {
				return
			}
		}
		f, err := wire.Read(br)
		if err != nil {
			return
		}
		p.mu.Lock()
		if f.Msg == wire.Ping && f.Id == wire.PingId {
			out := p.rc.Response(nil, wire.Ping, wire.PingId, 0, nil)
			pc.asked = true
			switch {
			case p.mode == "mixed" && !pc.ready:
				out = nil
			case pc.ready && p.silent:
				out = nil
			case pc.ready:
			case p.mode == "mute":
				out = nil
			case p.mode == "garbage":
				out = wire.Fill(40, 5)
			case p.mode == "wrongping":
				out = p.rc.Response(nil, wire.Ping, 1, 0, nil)
			default:
				pc.ready = true
			}
			p.mu.Unlock()
			if out != nil {
				pc.Write(out)
			}
			continue
		}
		if !pc.ready {
			p.fail("a request on a connection whose first ping was not answered")
		}
		if len(f.Body) < 8 {
			p.fail("a request with %d bytes", len(f.Body))
			p.mu.Unlock()
			continue
		}
		c := p.byN(binary.LittleEndian.Uint64(f.Body))
		if c == nil || f.Msg != uint32(c.n)+1 || !bytes.Equal(f.Body, c.request()) || f.Id == wire.PingId {
			p.fail("a request that was not sent: %x#%x with %d bytes", f.Msg, f.Id, len(f.Body))
			p.mu.Unlock()
			continue
		}
		if c.seen {
			p.fail("request %d comes twice", c.n)
		}
		c.seen, c.conn, c.id = true, pc, f.Id
		if p.hold {
			pc.held = append(pc.held, c)
		} else {
			p.reply(c)
		}
		p.mu.Unlock()
	}
}

// reply is called under the lock.
func (p *peer) reply(c *call) {
	pc := c.conn
	pc.SetWriteDeadline(time.Now().Add(wait))
	if _, err := pc.Write(p.rc.Response(nil, uint32(c.n)+1, c.id, uint32(c.n)*8, c.answer())); err == nil {
		c.answered = true
	}
}

// release answers what is held.
func (p *peer) release(n, of int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, pc := range p.conns {
		var rest []*call
		for i, c := range pc.held {
			if i%of < n {
				p.reply(c)
			} else {
				rest = append(rest, c)
			}
		}
		pc.held = rest
		if pc.gone && len(rest) == 0 {
			pc.Close()
		}
	}
}

func (p *peer) live() (n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, pc := range p.conns {
		if pc.ready && !pc.gone {
			n++
		}
	}
	return
}

// smash breaks connections (all or one).
func (p *peer) smash(kind string, all bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, pc := range p.conns {
		if pc.gone || !pc.ready {
			continue
		}
		switch kind {
		case "rst":
			if tc, ok := pc.Conn.(*net.TCPConn); ok {
				tc.SetLinger(0)
			}
			pc.Close()
		case "cut":
			if len(pc.held) > 0 {
				c := pc.held[0]
				b := p.rc.Response(nil, uint32(c.n)+1, c.id, 1, c.answer())
				pc.Write(b[:1+c.n%(len(b)-1)])
			} else {
				pc.Write([]byte{1, 2, 3})
			}
			pc.Close()
		case "half":
			pc.CloseWrite()
		case "fin":
			pc.Close()
		}
		pc.gone = true
		pc.held = nil
		if !all {
			return
		}
	}
}

type step struct {
	kind  string
	calls int
	frac  int // of 4 are answered before the break
	how   string
	after string
	all   bool
	extra int
	conns int
	check bool
	dead  string // what the peer is like when the client is stopped
	when  int    // microseconds later
}

func (s step) String() string {
	switch s.kind {
	case "break":
		return fmt.Sprintf("break(%s, all %v, %d held, %d/4 answered, then %s, %d sent, resize %d after %d us)", s.how, s.all, s.calls, s.frac, s.after, s.extra, s.conns, s.when)
	case "resize":
		return fmt.Sprintf("resize(%d, %d held)", s.conns, s.calls)
	case "deadstop":
		return fmt.Sprintf("deadstop(%s, %d held, %d/4 answered, then %s, %d sent after %d us)", s.how, s.calls, s.frac, s.dead, s.extra, s.when)
	case "stop":
		return fmt.Sprintf("stop(%d held, %d/4 answered, then %s, %d sent after)", s.calls, s.frac, s.how, s.extra)
	}
	return fmt.Sprintf("%s(%d)", s.kind, s.calls)
}

// lane is a client with its peer and its script.
type lane struct {
	*peer
	tcp    bool
	start  string
	nconn  int
	conf   client.ServerConfig
	steps  []step
	srv    *client.Server
	calls  []*call
	cmu    sync.Mutex
	strict bool
}

func (ln *lane) String() string {
	return fmt.Sprintf("[%v tcp %v, starts %s, %d connections, ping %v dial %v write %v read %v: %v]", ln.rc, ln.tcp, ln.start, ln.conf.Connections, ln.conf.PingInterval, ln.conf.DialTimeout, ln.conf.WriteTimeout, ln.conf.ReadTimeout, ln.steps)
}

// patient is a timeout for dials which is longer than the pauses between them.
const patient = 800 * time.Millisecond

func genLane(t *rapid.T) *lane {
	ln := &lane{peer: &peer{rc: wire.GenRC(t)}}
	ln.tcp = rapid.IntRange(0, 3).Draw(t, "tcp") == 0
	ln.nconn = rapid.IntRange(1, 4).Draw(t, "conns")
	ln.start = rapid.SampledFrom([]string{"up", "up", "up", "down", "mute", "slam", "garbage", "wrongping"}).Draw(t, "start")
	ln.conf = client.ServerConfig{Connections: ln.nconn, RetCodeType: ln.rc.Type}
	ln.conf.PingInterval = rapid.SampledFrom([]time.Duration{-1, time.Hour, 3 * time.Millisecond}).Draw(t, "ping")
	ln.conf.DialTimeout = rapid.SampledFrom([]time.Duration{300 * time.Millisecond, 300 * time.Millisecond, 300 * time.Millisecond, patient}).Draw(t, "dialtimeout")
	if rapid.Bool().Draw(t, "iotimeouts") {
		ln.conf.WriteTimeout, ln.conf.ReadTimeout = time.Hour, time.Hour
	}
	// some lanes are about a peer that gets stuck
	switch rapid.IntRange(0, 7).Draw(t, "stuck") {
	case 0:
		ln.conf.WriteTimeout = 50 * time.Millisecond
	case 1:
		ln.conf.ReadTimeout, ln.conf.PingInterval = 700*time.Millisecond, 20*time.Millisecond
	}
	for i := rapid.IntRange(0, 3).Draw(t, "steps"); i > 0; i-- {
		s := step{kind: rapid.SampledFrom([]string{"break", "break", "break", "resize", "calls", "stuck"}).Draw(t, "step")}
		s.calls = rapid.SampledFrom([]int{0, 1, 2, 10, 40, 300}).Draw(t, "calls")
		switch s.kind {
		case "break":
			s.frac = rapid.IntRange(0, 4).Draw(t, "frac")
			s.how = rapid.SampledFrom([]string{"fin", "rst", "cut", "half"}).Draw(t, "how")
			s.after = rapid.SampledFrom([]string{"up", "up", "down", "down", "mute", "slam", "garbage", "wrongping"}).Draw(t, "after")
			s.all = rapid.IntRange(0, 2).Draw(t, "all") > 0
			s.extra = rapid.SampledFrom([]int{0, 1, 20}).Draw(t, "extra")
			if s.all && rapid.IntRange(0, 2).Draw(t, "resize") == 0 {
				s.conns = rapid.IntRange(1, 5).Draw(t, "newconns")
				s.when = rapid.SampledFrom([]int{0, 100, 5000, 230000}).Draw(t, "when")
			}
		case "resize":
			s.conns = rapid.IntRange(1, 5).Draw(t, "newconns")
		case "stuck":
			if ln.conf.WriteTimeout == 50*time.Millisecond {
				s.kind, s.calls = "deaf", 40
			} else if ln.conf.ReadTimeout == 700*time.Millisecond {
				s.kind = "silent"
			} else {
				s.kind = "calls"
			}
		}
		s.check = rapid.IntRange(0, 2).Draw(t, "check") == 0
		ln.steps = append(ln.steps, s)
	}
	s := step{kind: "stop"}
	s.calls = rapid.SampledFrom([]int{0, 1, 10, 300}).Draw(t, "calls")
	s.frac = rapid.IntRange(0, 4).Draw(t, "frac")
	s.how = rapid.SampledFrom([]string{"fin", "rst", "cut", "half"}).Draw(t, "how")
	s.extra = rapid.SampledFrom([]int{0, 3, 60}).Draw(t, "extra")
	if rapid.IntRange(0, 3).Draw(t, "deadstop") == 0 {
		s.kind = "deadstop"
		s.dead = rapid.SampledFrom([]string{"up", "down", "mute", "mute", "slam", "garbage", "wrongping"}).Draw(t, "dead")
		s.when = rapid.SampledFrom([]int{0, 100, 5000, 230000}).Draw(t, "when")
	}
	ln.steps = append(ln.steps, s)
	return ln
}

func (ln *lane) send(n int, big bool) (cs []*call) {
	for i := 0; i < n; i++ {
		ln.cmu.Lock()
		c := &call{n: len(ln.calls), big: big}
		ln.calls = append(ln.calls, c)
		ln.cmu.Unlock()
		cs = append(cs, c)
		r := &iproto.Request{Msg: iproto.RequestType(c.n + 1), Id: uint32(c.n), Body: c.request()}
		r.Responder = iproto.Callback(func(r *iproto.Response) {
			if g := atomic.LoadInt32(&c.got); g == 0 {
				c.code, c.body = r.Code, r.Body
			}
			atomic.AddInt32(&c.got, 1)
		})
		ln.srv.Send(r)
	}
	return
}

// done waits for the answers.
func (ln *lane) done(what string, cs []*call) string {
	if !until(func() bool {
		for _, c := range cs {
			if atomic.LoadInt32(&c.got) == 0 {
				return false
			}
		}
		return true
	}) {
		k, s := 0, 0
		ln.mu.Lock()
		for _, c := range cs {
			if atomic.LoadInt32(&c.got) == 0 {
				k++
				if c.seen {
					s++
				}
			}
		}
		ln.mu.Unlock()
		return fmt.Sprintf("%s: %d of %d requests are never answered (%d of them were seen by the peer)", what, k, len(cs), s)
	}
	return ""
}

// seen waits until all have come to the peer.
func (ln *lane) seen(what string, cs []*call) string {
	if !until(func() bool {
		ln.mu.Lock()
		defer ln.mu.Unlock()
		for _, c := range cs {
			if !c.seen {
				return false
			}
		}
		return true
	}) {
		return what + ": requests are not sent on a working connection"
	}
	return ""
}

// check looks at the answers.
func (ln *lane) check(what string, cs []*call, own, lost string, strict bool) string {
	ln.mu.Lock()
	defer ln.mu.Unlock()
	for _, c := range cs {
		fail := len(c.body) == 0 && (c.code == iproto.RcIOError && strings.Contains(lost, "io") || c.code == iproto.RcShutdown && strings.Contains(lost, "shutdown"))
		switch {
		case c.own(ln.rc) && c.answered && own != "no":
		case fail && !(c.answered && strict) && own != "all":
		default:
			return fmt.Sprintf("%s: request %d (seen %v, answered %v) gets code %x and %d bytes", what, c.n, c.seen, c.answered, c.code, len(c.body))
		}
	}
	return ""
}

// open counts the connections which the client has not ended.
func (p *peer) open() (n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, pc := range p.conns {
		if !pc.gone {
			n++
		}
	}
	return
}

// crowd looks for too many connections to a peer which does not answer pings.
func (ln *lane) crowd(what string) string {
	ln.mu.Lock()
	mode := ln.mode
	ln.mu.Unlock()
	if mode != "mute" || ln.conf.DialTimeout != patient {
		return ""
	}
	over := 0
	for i := 0; i < 50; i++ {
		if ln.open() > ln.nconn {
			over++
		} else {
			over = 0
		}
		if over == 20 {
			return fmt.Sprintf("%s: %d connections are open or opened, where %d are asked for", what, ln.open(), ln.nconn)
		}
		time.Sleep(10 * time.Millisecond)
	}
	return ""
}

// recover waits until all connections are there and work.
func (ln *lane) recover(what string) string {
	ln.mu.Lock()
	ln.hold, ln.silent = false, false
	ln.setMode("up")
	ln.mu.Unlock()
	if !until(func() bool { return ln.live() == ln.nconn }) {
		return fmt.Sprintf("%s: there are %d connections instead of %d", what, ln.live(), ln.nconn)
	}
	// the last of the dials that failed may still be reported
	end := time.Now().Add(wait)
	for time.Now().Before(end) {
		cs := ln.send(1, false)
		if e := ln.done(what+", probing", cs); e != "" {
			return e
		}
		if e := ln.check(what+", probing", cs, "any", "io", true); e != "" {
			return e
		}
		if cs[0].own(ln.rc) {
			return ""
		}
		time.Sleep(5 * time.Millisecond)
	}
	return what + ": requests fail although the connections are there"
}

func (ln *lane) run() (e string) {
	ln.mu.Lock()
	ln.byN = func(n uint64) *call {
		ln.cmu.Lock()
		defer ln.cmu.Unlock()
		if n < uint64(len(ln.calls)) {
			return ln.calls[n]
		}
		return nil
	}
	ln.setMode(ln.start)
	ln.mu.Unlock()
	defer func() {
		ln.mu.Lock()
		ln.setMode("down")
		for _, pc := range ln.conns {
			pc.Close()
		}
		ln.mu.Unlock()
	}()
	ln.strict = !ln.tcp || ln.conf.PingInterval != 3*time.Millisecond
	ln.srv = ln.conf.NewServer()
	iproto.Run(ln.srv)
	if ln.start != "up" {
		cs := ln.send(5, false)
		if e = ln.done("no connection at the start", cs); e != "" {
			return
		}
		if e = ln.check("no connection at the start", cs, "no", "io", true); e != "" {
			return
		}
	}
	if e = ln.crowd("at the start"); e != "" {
		return
	}
	if e = ln.recover("at the start"); e != "" {
		return
	}
	for i, s := range ln.steps {
		what := fmt.Sprintf("step %d, %v", i, s)
		if e = ln.step(what, s); e != "" {
			return
		}
		ln.mu.Lock()
		e = ln.err
		ln.mu.Unlock()
		if e != "" {
			return what + ": " + e
		}
		h.Alive()
	}
	ln.cmu.Lock()
	defer ln.cmu.Unlock()
	for _, c := range ln.calls {
		if g := atomic.LoadInt32(&c.got); g != 1 {
			return fmt.Sprintf("request %d is answered %d times", c.n, g)
		}
	}
	return ""
}

func (ln *lane) setHold(b bool) {
	ln.mu.Lock()
	ln.hold = b
	ln.mu.Unlock()
}

func (ln *lane) step(what string, s step) (e string) {
	switch s.kind {
	case "calls":
		cs := ln.send(s.calls, false)
		if e = ln.done(what, cs); e == "" {
			e = ln.check(what, cs, "all", "", true)
		}
		return
	case "break":
		ln.setHold(true)
		cs := ln.send(s.calls, false)
		if e = ln.seen(what, cs); e != "" {
			return
		}
		ln.release(s.frac, 4)
		ln.mu.Lock()
		ln.setMode(s.after)
		ln.mu.Unlock()
		ln.smash(s.how, s.all)
		var more []*call
		if s.all && s.after != "up" {
			more = ln.send(s.extra, false)
		}
		if !s.all {
			// those on other connections are still to be answered
			ln.release(4, 4)
		}
		if e = ln.done(what, cs); e == "" {
			// what is sent after the peer has closed makes it reset the connection,
			// and a reset may destroy what was received
			e = ln.check(what, cs, "any", "io", ln.strict && (!ln.tcp || s.how != "rst" && len(more) == 0))
		}
		if e != "" {
			return
		}
		if e = ln.done(what+", requests without connections", more); e == "" {
			e = ln.check(what+", requests without connections", more, "no", "io", true)
		}
		if e != "" {
			return
		}
		if s.conns > 0 {
			time.Sleep(time.Duration(s.when) * time.Microsecond)
			h.Within(laneT{&e}, what, func() { ln.srv.SetConnections(s.conns) })
			if e != "" {
				return
			}
			ln.nconn = s.conns
		}
		if e = ln.crowd(what); e != "" {
			return
		}
		return ln.recover(what)
	case "deadstop":
		ln.setHold(true)
		cs := ln.send(s.calls, false)
		if e = ln.seen(what, cs); e != "" {
			return
		}
		ln.release(s.frac, 4)
		ln.mu.Lock()
		ln.setMode(s.dead)
		ln.mu.Unlock()
		ln.smash(s.how, true)
		time.Sleep(time.Duration(s.when) * time.Microsecond)
		h.Within(laneT{&e}, what, ln.srv.Stop)
		if e != "" {
			return
		}
		ln.setHold(false)
		more := ln.send(s.extra, false)
		if e = ln.done(what, cs); e == "" {
			e = ln.check(what, cs, "any", "io shutdown", ln.strict && !ln.tcp)
		}
		if e != "" {
			return
		}
		if e = ln.done(what+", requests after it", more); e == "" {
			e = ln.check(what+", requests after it", more, "any", "io shutdown", true)
		}
		if e != "" {
			return
		}
		if !until(func() bool { return ln.open() == 0 }) {
			return fmt.Sprintf("%s: %d connections of a stopped client remain", what, ln.open())
		}
		last := ln.send(5, false)
		if e = ln.done(what+", requests long after it", last); e == "" {
			e = ln.check(what+", requests long after it", last, "no", "io shutdown", true)
		}
		return
	case "resize":
		ln.setHold(true)
		cs := ln.send(s.calls, false)
		if e = ln.seen(what, cs); e != "" {
			return
		}
		h.Within(laneT{&e}, what, func() { ln.srv.SetConnections(s.conns) })
		if e != "" {
			return
		}
		ln.nconn = s.conns
		if !until(func() bool { return ln.live() == s.conns }) {
			return fmt.Sprintf("%s: there are %d connections", what, ln.live())
		}
		ln.release(4, 4)
		if e = ln.done(what, cs); e == "" {
			e = ln.check(what, cs, "all", "", true)
		}
		if e != "" {
			return
		}
		ln.setHold(false)
		if e = ln.recover(what); e != "" {
			return
		}
		if s.check {
			time.Sleep(450 * time.Millisecond)
			if k := ln.live(); k != s.conns {
				return fmt.Sprintf("%s: there are %d connections a bit later", what, k)
			}
		}
		return
	case "deaf":
		ln.mu.Lock()
		for _, pc := range ln.conns {
			pc.deaf = true
		}
		ln.mu.Unlock()
		cs := ln.send(s.calls, true)
		// a connection that is not full by now is read again
		time.AfterFunc(400*time.Millisecond, func() {
			ln.mu.Lock()
			for _, pc := range ln.conns {
				pc.deaf = false
			}
			ln.mu.Unlock()
		})
		if e = ln.done(what, cs); e == "" {
			e = ln.check(what, cs, "any", "io", true)
		}
		if e == "" {
			time.Sleep(10 * time.Millisecond)
			e = ln.recover(what)
		}
		return
	case "silent":
		ln.setHold(true)
		cs := ln.send(s.calls, false)
		if e = ln.seen(what, cs); e != "" {
			return
		}
		ln.mu.Lock()
		ln.silent = true
		ln.mu.Unlock()
		if e = ln.done(what, cs); e == "" {
			e = ln.check(what, cs, "no", "io", true)
		}
		if e == "" {
			e = ln.recover(what)
		}
		return
	case "stop":
		ln.setHold(true)
		cs := ln.send(s.calls, false)
		if e = ln.seen(what, cs); e != "" {
			return
		}
		h.Within(laneT{&e}, what, ln.srv.Stop)
		if e != "" {
			return
		}
		more := ln.send(s.extra, false)
		// the client says that nothing more will come
		if !until(func() bool { return ln.live() == 0 }) {
			return fmt.Sprintf("%s: %d connections of a stopped client remain", what, ln.live())
		}
		ln.release(s.frac, 4)
		ln.mu.Lock()
		// requests that were on their way when it stopped
		for _, pc := range ln.conns {
			if len(pc.held) > 0 {
				pc.gone = false
			}
		}
		ln.mu.Unlock()
		ln.smash(s.how, true)
		strict := ln.strict && (s.how != "rst" || !ln.tcp) // a reset may destroy what was sent
		if e = ln.done(what, cs); e == "" {
			e = ln.check(what, cs, "any", "io shutdown", strict)
		}
		if e != "" {
			return
		}
		if e = ln.done(what+", requests after it", more); e == "" {
			e = ln.check(what+", requests after it", more, "any", "io shutdown", strict)
		}
		last := ln.send(5, false)
		if e == "" {
			if e = ln.done(what+", requests long after it", last); e == "" {
				e = ln.check(what+", requests long after it", last, "no", "shutdown", true)
			}
		}
		return
	}
	return "?"
}

// laneT takes the failure of a lane.
type laneT struct{ e *string }

func (l laneT) Fatalf(f string, a ...interface{}) { *l.e = fmt.Sprintf(f, a...) }

var leaked bool

func gone() bool {
	for _, g := range strings.Split(h.Stacks(), "\n\n") {
		if strings.Contains(g, "/net/client") && !strings.Contains(g, "client.(*Server).shutDown") {
			return false
		}
	}
	return true
}

func sockets() (n int) {
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		if l, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return
}

// TestFaults: clients with failing peers.
func TestFaults(t *testing.T) {
	h.Run(t, "1-8 clients at once, each with its own peer and a script of 1-4 steps: connections broken in 4 ways with 0-300 requests in flight, peers that refuse, slam, stay silent or answer nonsense, resizing, stalls, and a stop; non-trivial if a script breaks, resizes or stops with requests in flight; distinct by scripts", 45, func(t *rapid.T, c *h.Case) {
		var lanes []*lane
		for i := rapid.IntRange(1, 8).Draw(t, "lanes"); i > 0; i-- {
			lanes = append(lanes, genLane(t))
		}
		stop, sched := h.Sched(t)
		defer stop()
		before := sockets()
		errs := make([]string, len(lanes))
		var wg sync.WaitGroup
		for i, ln := range lanes {
			i, ln := i, ln
			ln.network, ln.addr = wire.Address(ln.tcp)
			ln.conf.Network, ln.conf.Address = ln.network, ln.addr
			wg.Add(1)
			go func() {
				defer wg.Done()
				if errs[i] = ln.run(); strings.Contains(errs[i], "never") || strings.Contains(errs[i], "remain") || strings.Contains(errs[i], "there are") {
					errs[i] += "\n" + h.Stacks()
				}
			}()
		}
		wg.Wait()
		for i, e := range errs {
			if strings.Contains(e, "cannot listen") {
				t.SkipNow()
			}
			if e != "" {
				t.Fatalf("client %v, schedule %s: %s", lanes[i], sched, e) // the scripts of the others do not matter
			}
		}
		if !leaked && !until(gone) {
			leaked = true
			t.Fatalf("goroutines of stopped clients remain: %v\n%s", lanes, h.Stacks())
		}
		if !leaked && !until(func() bool { return sockets() <= before }) {
			leaked = true
			t.Fatalf("%d sockets were open before and %d after: %v", before, sockets(), lanes)
		}
		for _, ln := range lanes {
			inflight := false
			c.Class("start " + ln.start)
			for _, s := range ln.steps {
				inflight = inflight || s.calls > 0 && s.kind != "calls"
				c.Class(s.kind)
				if s.kind == "break" {
					c.Class("break " + s.how)
					c.Class("then " + s.after)
				}
			}
			if inflight {
				c.NonTrivial(ln.String())
				c.Sample("%v", ln)
			}
		}
	})
}

// TestMixed: some attempts to connect fail at once and others are not answered.
func TestMixed(t *testing.T) {
	h.Run(t, "a client with 2-5 connections and no limit on dialing whose peer leaves 1 to all but one of them without an answer and ends the other attempts at once, from the start or after all connections broke, with 1-40 requests in 1-3 portions; then the peer answers or ends the mute ones; non-trivial if connections broke before; distinct by plan", 60, func(t *rapid.T, c *h.Case) {
		ln := &lane{peer: &peer{rc: wire.GenRC(t)}}
		ln.tcp = rapid.IntRange(0, 3).Draw(t, "tcp") == 0
		ln.nconn = rapid.IntRange(2, 5).Draw(t, "conns")
		ln.mutes = rapid.IntRange(1, ln.nconn-1).Draw(t, "mutes")
		ln.start = rapid.SampledFrom([]string{"up", "mixed"}).Draw(t, "start")
		ln.conf = client.ServerConfig{Connections: ln.nconn, RetCodeType: ln.rc.Type, DialTimeout: time.Hour}
		ln.conf.PingInterval = rapid.SampledFrom([]time.Duration{-1, time.Hour, 3 * time.Millisecond}).Draw(t, "ping")
		how := rapid.SampledFrom([]string{"fin", "rst", "cut", "half"}).Draw(t, "how")
		held := rapid.SampledFrom([]int{0, 1, 10}).Draw(t, "held")
		portions := rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 5, 30}), 1, 3).Draw(t, "portions")
		pauses := rapid.SliceOfN(rapid.SampledFrom([]int{0, 100, 5000, 60000, 200000}), 3, 3).Draw(t, "pauses")
		end := rapid.SampledFrom([]string{"answer", "drop", "stop"}).Draw(t, "end")
		stop, sched := h.Sched(t)
		defer stop()
		desc := fmt.Sprintf("%v tcp %v, %d connections of which %d are mute, starts %s, %d held when they end (%s), portions of %v after %v us, then %s, ping %v, schedule %s",
			ln.rc, ln.tcp, ln.nconn, ln.mutes, ln.start, held, how, portions, pauses, end, ln.conf.PingInterval, sched)
		ln.network, ln.addr = wire.Address(ln.tcp)
		ln.conf.Network, ln.conf.Address = ln.network, ln.addr
		e := ln.mixed(how, held, portions, pauses, end)
		if strings.Contains(e, "cannot listen") {
			t.SkipNow()
		}
		if e != "" {
			t.Fatalf("%s: %s\n%s", desc, e, h.Stacks())
		}
		c.Class("starts " + ln.start)
		c.Class("then " + end)
		if ln.start == "up" {
			c.NonTrivial(desc)
			c.Sample("%s", desc)
		}
	})
}

func (ln *lane) mixed(how string, held int, portions, pauses []int, end string) (e string) {
	ln.mu.Lock()
	ln.byN = func(n uint64) *call {
		ln.cmu.Lock()
		defer ln.cmu.Unlock()
		if n < uint64(len(ln.calls)) {
			return ln.calls[n]
		}
		return nil
	}
	ln.setMode(ln.start)
	ln.mu.Unlock()
	unmute := func(answer bool) {
		ln.mu.Lock()
		defer ln.mu.Unlock()
		for _, pc := range ln.conns {
			if pc.gone || pc.ready || !pc.muted {
				continue
			}
			if answer && pc.asked {
				pc.ready = true
				pc.Write(ln.rc.Response(nil, wire.Ping, wire.PingId, 0, nil))
			} else {
				pc.Close()
			}
		}
	}
	defer func() {
		ln.mu.Lock()
		ln.setMode("down")
		for _, pc := range ln.conns {
			pc.Close()
		}
		ln.mu.Unlock()
	}()
	ln.srv = ln.conf.NewServer()
	iproto.Run(ln.srv)
	if ln.start == "up" {
		if !until(func() bool { return ln.live() == ln.nconn }) {
			return fmt.Sprintf("there are %d connections", ln.live())
		}
		ln.setHold(true)
		cs := ln.send(held, false)
		if e = ln.seen("before", cs); e != "" {
			return
		}
		ln.mu.Lock()
		ln.setMode("mixed")
		ln.mu.Unlock()
		ln.smash(how, true)
		ln.setHold(false)
		if e = ln.done("connections ended", cs); e == "" {
			e = ln.check("connections ended", cs, "any", "io", false)
		}
		if e != "" {
			return
		}
	}
	for i, n := range portions {
		time.Sleep(time.Duration(pauses[i]) * time.Microsecond)
		cs := ln.send(n, false)
		what := fmt.Sprintf("portion %d without connections", i)
		if e = ln.done(what, cs); e == "" {
			e = ln.check(what, cs, "no", "io", true)
		}
		if e != "" {
			return
		}
		h.Alive()
	}
	if end == "stop" {
		h.Within(laneT{&e}, "Stop", ln.srv.Stop)
		if e != "" {
			return
		}
		ln.mu.Lock()
		ln.setMode("slam")
		ln.mu.Unlock()
		unmute(false)
	} else {
		ln.mu.Lock()
		ln.setMode("up")
		ln.mu.Unlock()
		unmute(end == "answer")
		if e = ln.recover("afterwards"); e != "" {
			return
		}
		h.Within(laneT{&e}, "Stop", ln.srv.Stop)
		if e != "" {
			return
		}
	}
	if !until(func() bool { return ln.open() == 0 }) {
		return fmt.Sprintf("%d connections of a stopped client remain", ln.open())
	}
	last := ln.send(5, false)
	if e = ln.done("after Stop", last); e == "" {
		e = ln.check("after Stop", last, "no", "io shutdown", true)
	}
	if e != "" {
		return
	}
	ln.cmu.Lock()
	defer ln.cmu.Unlock()
	for _, c := range ln.calls {
		if g := atomic.LoadInt32(&c.got); g != 1 {
			return fmt.Sprintf("request %d is answered %d times", c.n, g)
		}
	}
	return ln.err
}
