package c20

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/h"
	"verif/wire"

	"github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const wait = 30 * time.Second

func until(cond func() bool) bool {
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(300 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

// order is a request; what to do is written in it.
type order struct {
	N     uint64
	Delay uint32 // of the service, µs
	Code  uint32
	Size  uint32
	Form  uint8
	Hold  uint8
	Pad   []byte

	// the rest stays on the client's side
	started int32 // handlers
	sent    time.Time
	op      *op
	limit   time.Duration // the shortest timeout of the client's side that covers it
	got     int32
	outcome string
}

func (o *order) msg() iproto.RequestType { return iproto.RequestType(o.N*7 + 1) }

func (o *order) bytes() []byte {
	le := binary.LittleEndian
	b := le.AppendUint64(nil, o.N)
	b = le.AppendUint32(b, o.Delay)
	b = le.AppendUint32(b, o.Code)
	b = le.AppendUint32(b, o.Size)
	b = append(b, o.Form, o.Hold)
	b = le.AppendUint32(b, uint32(len(o.Pad)))
	return append(b, o.Pad...)
}

// frame is what the package marshals of an order.
type frame struct {
	N                 uint64
	Delay, Code, Size uint32
	Form, Hold        uint8
	Pad               []byte
}

func (f frame) IMsg() iproto.RequestType { return iproto.RequestType(f.N*7 + 1) }

func (o *order) frame() frame {
	return frame{o.N, o.Delay, o.Code, o.Size, o.Form, o.Hold, o.Pad}
}

type pair struct {
	A uint64
	S []uint16
}

const (
	asBody = iota
	asString
	asPair
	asNothing
	asPanic
	asForms
)

// result is what the service computes.
func (o *order) result() (code uint32, val interface{}, raw []byte) {
	code = o.Code
	fill := wire.Fill(int(o.Size), o.N*31+1)
	switch o.Form {
	case asBody:
		return code, iproto.Body(fill), fill
	case asString:
		return code, string(fill), append(binary.LittleEndian.AppendUint32(nil, o.Size), fill...)
	case asPair:
		return code, pair{o.N, []uint16{uint16(o.N), 2}}, append(binary.LittleEndian.AppendUint64(nil, o.N), 2, 0, 0, 0, byte(o.N), byte(o.N>>8), 2, 0)
	case asNothing:
		return code, nil, nil
	}
	return uint32(iproto.RcInternalError), nil, nil
}

// op is one thing that a caller does.
type op struct {
	form    string
	orders  []*order
	cancel  string // how the requests of this op are cancelled, if they are
	after   time.Duration
	timeout time.Duration // of a group
	body    bool          // a Body is given, not something to be marshalled
	each    bool
	began   int32 // the cancellation
	caller  int
}

func (o *op) String() string {
	s := fmt.Sprintf("%s*%d", o.form, len(o.orders))
	if o.cancel != "" {
		s += fmt.Sprintf("/%s after %v", o.cancel, o.after)
	}
	if o.timeout > 0 {
		s += fmt.Sprintf("/timeout %v", o.timeout)
	}
	return s
}

type lane struct {
	rc, rc2  wire.RC
	tcp      bool
	topology string
	nback    int
	conf     client.ServerConfig
	iotime   time.Duration
	service  string
	workers  int
	svctime  time.Duration
	stat     bool
	callers  [][]*op
	idle     bool
	ending   string
	holds    []*order
	extra    []*order
	restart  bool

	orders  []*order
	gate    chan bool
	stopped int32 // something is being stopped
	mu      sync.Mutex
	err     string
	servers []*server.Server
	confs   []server.Config
	svc     []iproto.Service
	points  []iproto.EndPoint
	up      *client.Server // of a proxy
	auto    *client.Auto
	defnet  bool
	routed  int
	targets []iproto.Service
	files   []string
	stats   int32
}

func (ln *lane) String() string {
	s := fmt.Sprintf("[%v %v tcp %v, %s of %d, %s(%d) timeout %v, %d connections ping %v io %v timeout %v:", ln.rc, ln.rc2, ln.tcp, ln.topology, ln.nback, ln.service, ln.workers, ln.svctime, ln.conf.Connections, ln.conf.PingInterval, ln.iotime, ln.conf.Timeout)
	for _, cl := range ln.callers {
		s += fmt.Sprintf(" %v", cl)
	}
	return s + fmt.Sprintf("; idle %v, then %s with %d held and %d more, restart %v]", ln.idle, ln.ending, len(ln.holds), len(ln.extra), ln.restart)
}

func (ln *lane) fail(f string, a ...interface{}) {
	ln.mu.Lock()
	if ln.err == "" {
		ln.err = fmt.Sprintf(f, a...)
	}
	ln.mu.Unlock()
}

func (ln *lane) order(t *rapid.T, o *op, plain bool) *order {
	r := &order{N: uint64(len(ln.orders)), op: o}
	r.Code = rapid.SampledFrom([]uint32{0, 0, 0, 1, 2, 0x1301, 0xfd03, 0xff03, 0xfc02, 3, 0xabcdef05}).Draw(t, "code")
	if !plain {
		r.Delay = rapid.SampledFrom([]uint32{0, 0, 0, 50, 500, 3000}).Draw(t, "delay")
		r.Size = uint32(rapid.SampledFrom([]int{0, 1, 30, 300, 5000, 70000}).Draw(t, "size"))
		r.Form = uint8(rapid.IntRange(0, asForms-1).Draw(t, "answer"))
		r.Pad = wire.Fill(rapid.SampledFrom([]int{0, 0, 3, 100, 5000, 70000}).Draw(t, "pad"), r.N)
	} else {
		r.Form = uint8(r.N % (asForms - 1))
		r.Size = uint32(r.N % 50)
	}
	if r.Form == asPanic && ln.service != "bf" {
		r.Form = asBody
	}
	ln.orders = append(ln.orders, r)
	return r
}

func genLane(t *rapid.T) *lane {
	ln := &lane{rc: wire.GenRC(t), rc2: wire.GenRC(t), gate: make(chan bool)}
	ln.tcp = rapid.IntRange(0, 3).Draw(t, "tcp") == 0
	ln.topology = rapid.SampledFrom([]string{"server", "server", "balancer", "auto", "proxy"}).Draw(t, "topology")
	ln.nback = 1
	if ln.topology == "balancer" || ln.topology == "auto" {
		ln.nback = rapid.IntRange(1, 3).Draw(t, "backends")
	}
	ln.conf = client.ServerConfig{Connections: rapid.IntRange(1, 4).Draw(t, "conns"), RetCodeType: ln.rc.Type}
	ln.routed = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "routed")
	ln.defnet = rapid.Bool().Draw(t, "default network")
	ln.conf.PingInterval = rapid.SampledFrom([]time.Duration{-1, 0, time.Hour, 2 * time.Millisecond, 200 * time.Microsecond}).Draw(t, "ping")
	ln.iotime = rapid.SampledFrom([]time.Duration{0, time.Hour}).Draw(t, "iotime")
	ln.conf.Timeout = rapid.SampledFrom([]time.Duration{0, 0, 0, time.Hour, 3 * time.Millisecond}).Draw(t, "timeout")
	ln.service = rapid.SampledFrom([]string{"bf", "bf", "go", "inline"}).Draw(t, "service")
	ln.workers = rapid.SampledFrom([]int{1, 2, 8, 40}).Draw(t, "workers")
	if ln.service == "bf" && rapid.IntRange(0, 3).Draw(t, "svctimeout") == 0 {
		ln.svctime = rapid.SampledFrom([]time.Duration{time.Hour, 2 * time.Millisecond}).Draw(t, "svctime")
	}
	ln.stat = rapid.IntRange(0, 3).Draw(t, "stat") == 0
	if rapid.IntRange(0, 5).Draw(t, "idle") == 0 {
		ln.idle = true
		ln.conf.Timeout, ln.svctime = 0, 0
		ln.conf.PingInterval = 30 * time.Millisecond
		ln.iotime = 900 * time.Millisecond
		if ln.service == "inline" {
			ln.service = "go" // a service which works in the reader of a connection keeps it from answering pings
		}
	}
	for i := rapid.IntRange(0, 4).Draw(t, "callers"); i > 0; i-- {
		var ops []*op
		for k := rapid.IntRange(1, 6).Draw(t, "ops"); k > 0; k-- {
			o := &op{form: rapid.SampledFrom([]string{"call", "callmsg", "send", "sendmsg", "cxcall", "cxcallmsg", "cxsend", "cxsendmsg", "cxgo", "group", "group", "cxgroup"}).Draw(t, "form"), caller: len(ln.callers)}
			o.body = rapid.Bool().Draw(t, "body")
			n := 1
			switch o.form {
			case "send", "sendmsg", "cxsend", "cxsendmsg", "cxgo", "group", "cxgroup":
				n = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 20, 300}).Draw(t, "n")
			}
			for j := 0; j < n; j++ {
				o.orders = append(o.orders, ln.order(t, o, n > 20))
			}
			if o.form != "call" && o.form != "callmsg" && rapid.IntRange(0, 3).Draw(t, "cancelled") == 0 && !ln.idle {
				o.cancel = "cancel"
				if o.form == "group" {
					o.cancel = rapid.SampledFrom([]string{"cancel", "expire"}).Draw(t, "how")
				}
				o.after = time.Duration(rapid.SampledFrom([]int{0, 50, 500, 3000}).Draw(t, "after")) * time.Microsecond
			}
			if (o.form == "group" || o.form == "cxgroup") && rapid.IntRange(0, 3).Draw(t, "grouptimeout") == 0 && !ln.idle {
				o.timeout = rapid.SampledFrom([]time.Duration{time.Hour, 2 * time.Millisecond}).Draw(t, "d")
			}
			o.each = rapid.Bool().Draw(t, "each")
			ops = append(ops, o)
		}
		ln.callers = append(ln.callers, ops)
	}
	ln.ending = rapid.SampledFrom([]string{"client", "client", "server", "server", "none"}).Draw(t, "ending")
	o := &op{form: "end"}
	for i := rapid.SampledFrom([]int{0, 1, 3, 30}).Draw(t, "held"); i > 0; i-- {
		r := ln.order(t, o, true)
		if ln.service != "inline" {
			r.Hold = 1
		}
		ln.holds = append(ln.holds, r)
	}
	for i := rapid.SampledFrom([]int{0, 1, 20}).Draw(t, "more"); i > 0; i-- {
		ln.extra = append(ln.extra, ln.order(t, o, true))
	}
	ln.restart = ln.ending == "server" && !ln.tcp && rapid.Bool().Draw(t, "restart")
	if ln.restart {
		ln.order(t, o, true)
	}
	return ln
}

// cut is what is left of a code on its way.
func (ln *lane) cut(code uint32) uint32 {
	f := func(rc wire.RC) {
		if code&7 == 3 {
			code = code&^7 | 2
		}
		code = rc.Cut(code)
	}
	if ln.topology == "proxy" {
		f(ln.rc2)
	}
	f(ln.rc)
	return code
}

// handle is the service.
func (ln *lane) handle(r *iproto.Request) (iproto.RetCode, interface{}) {
	body := r.Body
	if len(body) == 0 && r.Performed() {
		return 0, nil // it has been cancelled
	}
	var o *order
	if len(body) >= 8 {
		if n := binary.LittleEndian.Uint64(body); n < uint64(len(ln.orders)) {
			o = ln.orders[n]
		}
	}
	if o == nil || r.Msg != o.msg() || !bytes.Equal(body, o.bytes()) {
		ln.fail("the service gets a request that was not sent: type %#x, %d bytes", uint32(r.Msg), len(body))
		return 0, nil
	}
	var f frame
	if err := body.Read(&f); err != nil || f.N != o.N || f.Size != o.Size || !bytes.Equal(f.Pad, o.Pad) {
		ln.fail("the body of request %d does not decode: %v", o.N, err)
	}
	if n := atomic.AddInt32(&o.started, 1); n > 1 && o.op.form != "retry" {
		ln.fail("request %d is handled %d times", o.N, n)
	}
	if o.Delay > 0 {
		time.Sleep(time.Duration(o.Delay) * time.Microsecond)
	}
	if o.Hold > 0 {
		<-ln.gate
	}
	code, val, _ := o.result()
	if o.Form == asPanic {
		panic("as ordered")
	}
	return iproto.RetCode(code), val
}

func (ln *lane) newService(f func(*iproto.Context, *iproto.Request) (iproto.RetCode, interface{})) iproto.Service {
	switch ln.service {
	case "bf":
		s := iproto.BF{N: ln.workers, Timeout: ln.svctime}.New(f)
		ln.points = append(ln.points, s)
		return s
	case "go":
		return iproto.SF(func(r *iproto.Request) { go func() { r.Respond(f(nil, r)) }() })
	}
	return iproto.SF(func(r *iproto.Request) { r.Respond(f(nil, r)) })
}

func (ln *lane) listen(cfg server.Config) (network, addr string) {
	for i := 0; ; i++ {
		cfg.Network, cfg.Address = wire.Address(ln.tcp)
		cfg.ReadTimeout, cfg.WriteTimeout = ln.iotime, ln.iotime
		s := cfg.NewServer()
		if err := s.Run(); err == nil {
			ln.servers = append(ln.servers, s)
			ln.confs = append(ln.confs, cfg)
			if !ln.tcp {
				ln.files = append(ln.files, cfg.Address)
			}
			return cfg.Network, cfg.Address
		} else if i == 50 {
			panic("HARNESS-ERROR cannot listen: " + err.Error())
		}
	}
}

func (ln *lane) client(network, addr string, rc wire.RC) *client.Server {
	conf := ln.conf
	conf.Network, conf.Address, conf.RetCodeType = network, addr, rc.Type
	if ln.defnet {
		conf.Network = "" // follows from the address
	}
	return conf.NewServer()
}

func (ln *lane) setup() {
	ln.conf.ReadTimeout, ln.conf.WriteTimeout = 0, ln.iotime
	if ln.conf.PingInterval > 0 && ln.conf.PingInterval < time.Minute {
		ln.conf.ReadTimeout = ln.iotime
	}
	if ln.iotime == time.Hour {
		ln.conf.ReadTimeout = ln.iotime
	}
	work := func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) { return ln.handle(r) }
	svc := ln.newService(work)
	if ln.routed&1 != 0 {
		bare := svc
		svc = iproto.Route(func(r *iproto.Request) { bare.Send(r) })
	}
	rc := ln.rc
	if ln.topology == "proxy" {
		rc = ln.rc2
	}
	var nets, addrs []string
	for i := 0; i < ln.nback; i++ {
		n, a := ln.listen(server.Config{EndPoint: svc, RCType: rc.Type})
		nets, addrs = append(nets, n), append(addrs, a)
	}
	var target iproto.Service
	switch ln.topology {
	case "server":
		s := ln.client(nets[0], addrs[0], ln.rc)
		iproto.Run(s)
		target = s
		ln.points = append(ln.points, s)
	case "balancer":
		b := &iproto.BalancerPoint{}
		b.Timeout = ln.conf.Timeout
		b.Init()
		for i := range addrs {
			b.AddChild(ln.client(nets[i], addrs[i], ln.rc))
		}
		iproto.Run(b)
		target = b
		ln.points = append(ln.points, b)
	case "auto":
		conf := ln.conf
		conf.Network = nets[0]
		if ln.defnet {
			conf.Network = ""
		}
		ln.auto = &client.Auto{Config: &conf}
		var wg sync.WaitGroup
		got := make([][4]*client.Server, len(addrs))
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for i := range addrs {
					j := (i + k) % len(addrs)
					got[j][k] = ln.auto.Get(addrs[j])
				}
			}(k)
		}
		wg.Wait()
		for i := range addrs {
			for k := range got[i] {
				if got[i][k] != got[i][0] {
					ln.fail("an auto-connecting client gives two clients for one address")
				}
			}
			ln.targets = append(ln.targets, got[i][0])
			for j := 0; j < i; j++ {
				if got[i][0] == got[j][0] {
					ln.fail("an auto-connecting client gives one client for two addresses")
				}
			}
		}
	case "proxy":
		up := ln.client(nets[0], addrs[0], ln.rc2)
		up.SimplePoint.Timeout = 0
		iproto.Run(up)
		ln.up = up
		var front iproto.Service
		if ln.service == "bf" {
			s := iproto.BF{N: 50}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				res := cx.CallMsgBody(up, r.Msg, r.Body)
				return res.Code, res.Body
			})
			ln.points = append(ln.points, s)
			front = s
		} else {
			front = iproto.SF(func(r *iproto.Request) {
				msg, body := r.Msg, r.Body
				up.Send(&iproto.Request{Msg: msg, Body: body, Responder: iproto.Callback(func(res *iproto.Response) {
					r.RespondBytes(res.Code, res.Body)
				})})
			})
		}
		n, a := ln.listen(server.Config{EndPoint: front, RCType: ln.rc.Type})
		s := ln.client(n, a, ln.rc)
		iproto.Run(s)
		target = s
		ln.points = append(ln.points, s)
	}
	if target != nil && ln.routed&2 != 0 {
		bare := target
		target = iproto.Route(func(r *iproto.Request) { bare.Send(r) })
	}
	if target != nil {
		ln.targets = []iproto.Service{target}
	}
	if ln.stat {
		for i, s := range ln.targets {
			ln.targets[i] = iproto.StatWrap(s, func(r *iproto.Request, d time.Duration) {
				atomic.AddInt32(&ln.stats, 1)
				if d < 0 {
					ln.fail("a request took %v", d)
				}
			})
		}
	}
}

func short(d time.Duration) bool { return d > 0 && d < time.Minute }

// check looks at the answer to an order.
func (ln *lane) check(o *order, id uint32, res *iproto.Response) {
	if res == nil {
		ln.fail("request %d gets no response but nil", o.N)
		return
	}
	if n := atomic.AddInt32(&o.got, 1); n > 1 {
		ln.fail("request %d is answered %d times", o.N, n)
	}
	if res.Msg != o.msg() || res.Id != id {
		ln.fail("request %d of type %#x and id %d gets type %#x and id %d", o.N, uint32(o.msg()), id, uint32(res.Msg), res.Id)
	}
	stopped := atomic.LoadInt32(&ln.stopped) > 0
	took := time.Since(o.sent) + 2*time.Millisecond
	code, _, raw := o.result()
	code = ln.cut(code)
	svctimeout := short(ln.svctime) && uint32(res.Code) == ln.cut(uint32(iproto.RcTimeout)) && len(res.Body) == 0 && took >= ln.svctime
	switch {
	case uint32(res.Code) == code && bytes.Equal(res.Body, raw):
		o.outcome = "own"
		// (a service may expire a request that is being worked on at a code which is equal)
		if n := atomic.LoadInt32(&o.started); n == 0 && !svctimeout {
			ln.fail("request %d is answered before the service has seen it", o.N)
		}
		if o.Form == asString {
			var s string
			if err := res.Body.Read(&s); err != nil || s != string(raw[4:]) {
				ln.fail("the answer to request %d does not decode: %v", o.N, err)
			}
		} else if o.Form == asPair {
			var p pair
			if err := res.Body.ReadTail(&p); err != nil || p.A != o.N || len(p.S) != 2 {
				ln.fail("the answer to request %d does not decode: %v", o.N, err)
			}
		}
	case svctimeout:
		o.outcome = "service timeout"
	case res.Code == iproto.RcTimeout && short(o.limit) && took >= o.limit && len(res.Body) == 0:
		o.outcome = "timeout"
	case res.Code == iproto.RcTimeout && o.op.cancel == "expire" && atomic.LoadInt32(&o.op.began) > 0 && len(res.Body) == 0:
		o.outcome = "expired"
	case res.Code == iproto.RcCanceled && o.op.cancel == "cancel" && atomic.LoadInt32(&o.op.began) > 0 && len(res.Body) == 0:
		o.outcome = "cancelled"
	case (res.Code == iproto.RcShutdown || res.Code == iproto.RcIOError) && stopped && len(res.Body) == 0:
		o.outcome = "stopped"
	default:
		ln.fail("request %d (%v, answer %d#%d, sent %v ago, handled %d times) gets code %#x and %d bytes instead of %#x and %d; stopped %v", o.N, o.op, o.Form, o.Size, took, atomic.LoadInt32(&o.started), uint32(res.Code), len(res.Body), code, len(raw), stopped)
	}
}

func (ln *lane) limits(os []*order, group time.Duration) {
	for _, o := range os {
		o.limit = ln.conf.Timeout
		if group > 0 {
			o.limit = group // it is instead of that of the end point
			if short(ln.conf.Timeout) && !short(group) {
				o.limit = ln.conf.Timeout
			}
		}
		o.sent = time.Now()
	}
}

// do performs an op and checks what comes of it.
func (ln *lane) do(o *op, target iproto.Service) {
	ln.limits(o.orders, o.timeout)
	body := func(r *order) interface{} {
		if o.body {
			return iproto.Body(r.bytes())
		}
		return r.frame()
	}
	cancel := func(f func()) {
		if o.cancel == "" {
			return
		}
		go func() {
			time.Sleep(o.after)
			atomic.StoreInt32(&o.began, 1)
			f()
		}()
	}
	get := func(r *order, id uint32, ch <-chan *iproto.Response) {
		tm := time.NewTimer(wait)
		defer tm.Stop()
		select {
		case res := <-ch:
			ln.check(r, id, res)
			select {
			case <-ch:
				ln.fail("request %d gets a second response", r.N)
			default:
			}
		case <-tm.C:
			ln.fail("no answer to request %d (%v) in %v, handled %d times", r.N, o, wait, atomic.LoadInt32(&r.started))
		}
	}
	within := func(r *order, id uint32, f func() *iproto.Response) {
		ch := make(chan *iproto.Response, 2)
		go func() { ch <- f() }()
		get(r, id, ch)
	}
	switch o.form {
	case "call":
		r := o.orders[0]
		within(r, 0, func() *iproto.Response { return iproto.Call(target, r.frame()) })
	case "callmsg":
		r := o.orders[0]
		within(r, 0, func() *iproto.Response { return iproto.CallMsgBody(target, r.msg(), body(r)) })
	case "send", "sendmsg":
		reqs := make([]*iproto.Request, len(o.orders))
		chs := make([]<-chan *iproto.Response, len(o.orders))
		for i, r := range o.orders {
			var ch iproto.Chan
			if o.form == "send" {
				reqs[i], ch = iproto.Send(target, r.frame())
			} else {
				reqs[i], ch = iproto.SendMsgBody(target, r.msg(), body(r))
			}
			chs[i] = ch
		}
		cancel(func() {
			for i, r := range reqs {
				if i%3 < 2 {
					r.Cancel()
				}
			}
		})
		for i, r := range o.orders {
			get(r, 0, chs[i])
		}
	case "cxcall", "cxcallmsg":
		r := o.orders[0]
		cx := &iproto.Context{}
		cancel(cx.Cancel)
		within(r, 1, func() *iproto.Response {
			if o.form == "cxcall" {
				return cx.Call(target, r.frame())
			}
			return cx.CallMsgBody(target, r.msg(), body(r))
		})
		cx.WaitAll()
		cx.Done()
	case "cxsend", "cxsendmsg":
		cx := &iproto.Context{}
		cancel(cx.Cancel)
		chs := make([]<-chan *iproto.Response, len(o.orders))
		for i, r := range o.orders {
			if o.form == "cxsend" {
				_, chs[i] = cx.Send(target, r.frame())
			} else {
				_, chs[i] = cx.SendMsgBody(target, r.msg(), body(r))
			}
		}
		for i, r := range o.orders {
			get(r, uint32(i+1), chs[i])
		}
		cx.WaitAll()
		cx.Done()
	case "cxgo":
		cx := &iproto.Context{}
		cancel(cx.Cancel)
		for _, r := range o.orders {
			r := r
			run := int32(0)
			child := cx.Go(func(cx *iproto.Context) {
				atomic.AddInt32(&run, 1)
				ln.check(r, 1, cx.CallMsgBody(target, r.msg(), body(r)))
			})
			if child == nil || !child.Alive() && o.cancel == "" {
				ln.fail("a child of a living context is dead")
			}
		}
		done := make(chan bool)
		go func() { cx.WaitAll(); close(done) }()
		select {
		case <-done:
		case <-time.After(wait):
			ln.fail("waiting for the context of %v does not end", o)
		}
		for _, r := range o.orders {
			if atomic.LoadInt32(&r.got) == 0 && o.cancel == "" {
				ln.fail("waiting for a context has ended, and request %d is not answered", r.N)
			}
		}
	case "group", "cxgroup":
		m := &iproto.MultiRequest{}
		var cx *iproto.Context
		if o.form == "cxgroup" {
			cx = &iproto.Context{}
			m = cx.NewMulti()
			cancel(cx.Cancel)
		} else if o.cancel == "expire" {
			cancel(m.Expire)
		} else {
			cancel(m.Cancel)
		}
		if o.timeout > 0 {
			m.SetTimeout(o.timeout)
		}
		for _, r := range o.orders {
			if o.body {
				m.SendMsgBody(target, r.msg(), body(r))
			} else {
				m.Send(target, r.frame())
			}
		}
		out := make(chan *iproto.Response, len(o.orders)+10)
		go func() {
			if o.each {
				for res := range m.Each() {
					out <- res
				}
			} else {
				for _, res := range m.Results() {
					out <- res
				}
			}
			close(out)
		}()
		tm := time.NewTimer(wait)
		defer tm.Stop()
		n := 0
	Loop:
		for {
			select {
			case res, ok := <-out:
				if !ok {
					break Loop
				}
				if res == nil || int(res.Id) >= len(o.orders) {
					ln.fail("the group %v gets a response %v", o, res)
					return
				}
				n++
				ln.check(o.orders[res.Id], res.Id, res)
			case <-tm.C:
				ln.fail("the group %v has %d responses of %d after %v", o, n, len(o.orders), wait)
				return
			}
		}
		if n != len(o.orders) {
			ln.fail("the group %v ends with %d responses of %d", o, n, len(o.orders))
		}
		if cx != nil {
			cx.WaitAll()
			cx.Done()
		}
	}
}

func (ln *lane) async(os []*order, k int) []iproto.Chan {
	ln.limits(os, 0)
	chs := make([]iproto.Chan, len(os))
	for i, r := range os {
		_, chs[i] = iproto.SendMsgBody(ln.targets[(i+k)%len(ln.targets)], r.msg(), r.frame())
	}
	return chs
}

func (ln *lane) collect(what string, os []*order, chs []iproto.Chan) {
	tm := time.NewTimer(wait)
	defer tm.Stop()
	for i, r := range os {
		select {
		case res := <-chs[i]:
			ln.check(r, 0, res)
		case <-tm.C:
			ln.fail("no answer to request %d (%s) in %v, handled %d times", r.N, what, wait, atomic.LoadInt32(&r.started))
			return
		}
	}
}

func (ln *lane) stopClients() {
	if ln.auto != nil {
		ln.auto.Stop()
	}
	for _, p := range ln.points {
		if _, ok := p.(*iproto.ParallelService); !ok {
			p.Stop()
		}
	}
}

func (ln *lane) stopServers(ss []*server.Server) {
	for _, s := range ss {
		s.Stop()
	}
}

func (ln *lane) stopsRunning(ss []*server.Server) {
	for _, s := range ss {
		select {
		case <-s.Running:
		case <-time.After(wait):
			ln.fail("a stopped server still runs after %v", wait)
		}
	}
}

func (ln *lane) run() {
	ln.setup()
	calls := len(ln.orders) - len(ln.holds) - len(ln.extra)
	if ln.restart {
		calls--
	}
	var idles []*order
	var idlechs []iproto.Chan
	if ln.idle {
		// one request per target takes longer than any timeout of the connection
		for range ln.targets {
			o := &order{N: uint64(len(ln.orders)), op: &op{form: "idle"}, Delay: 2000000}
			ln.orders = append(ln.orders, o)
			idles = append(idles, o)
		}
		idlechs = ln.async(idles, 0)
	}
	var wg sync.WaitGroup
	for _, ops := range ln.callers {
		wg.Add(1)
		go func(ops []*op) {
			defer wg.Done()
			for i, o := range ops {
				ln.do(o, ln.targets[(o.caller+i)%len(ln.targets)])
			}
		}(ops)
	}
	wg.Wait()
	if ln.idle {
		ln.collect("while idle", idles, idlechs)
	}
	if ln.err != "" {
		return
	}
	// those which are dead when they are sent need not be seen
	sent := len(idles)
	for _, o := range ln.orders[:calls] {
		if o.op.cancel == "" && o.limit == 0 {
			sent++
		}
	}
	if s := int(atomic.LoadInt32(&ln.stats)); ln.stat && (s < sent || s > calls+len(idles)) {
		ln.fail("the statistics have seen %d requests of %d to %d", s, sent, calls+len(idles))
	}
	chs := ln.async(ln.holds, 0)
	started := func() (n int) {
		for _, o := range ln.holds {
			if atomic.LoadInt32(&o.started) > 0 {
				n++
			}
		}
		return
	}
	if n := len(ln.holds); n > 0 && !short(ln.conf.Timeout) && !short(ln.svctime) {
		if ln.service == "bf" && n > ln.workers {
			n = ln.workers
		}
		if !until(func() bool { return started() >= n }) {
			ln.fail("%d requests of %d have reached the service", started(), n)
		}
	}
	// those that were started before the stop have to get their own answers
	own := map[*order]bool{}
	for _, o := range ln.holds {
		if atomic.LoadInt32(&o.started) > 0 && !short(ln.conf.Timeout) && !short(ln.svctime) {
			own[o] = true
		}
	}
	var xchs []iproto.Chan
	switch ln.ending {
	case "client":
		atomic.StoreInt32(&ln.stopped, 1)
		ln.stopClients()
	case "server":
		atomic.StoreInt32(&ln.stopped, 1)
		ss := ln.servers
		if ln.topology == "proxy" {
			ss = ss[1:] // the one in front
		}
		ln.stopServers(ss)
	}
	xchs = ln.async(ln.extra, 1)
	close(ln.gate)
	collect := func() {
		ln.collect("held at the end", ln.holds, chs)
		ln.collect("sent at the end", ln.extra, xchs)
		for o := range own {
			if o.outcome != "own" && ln.err == "" && !(ln.tcp && ln.ending == "server") {
				ln.fail("request %d was being worked on when the %s was stopped, and got %s", o.N, ln.ending, o.outcome)
			}
		}
	}
	// a balancer keeps requests while all its clients are down
	kept := ln.topology == "balancer" && ln.ending == "server"
	if !kept {
		collect()
	}
	switch ln.ending {
	case "client":
		ln.stopServers(ln.servers)
		ln.stopsRunning(ln.servers)
	case "server":
		ss, front := ln.servers, 0
		if ln.topology == "proxy" {
			ss, front = ss[1:], 1
		}
		ln.stopsRunning(ss)
		if ln.restart && ln.err == "" {
			var again []*server.Server
			for i := range ss {
				s := ln.confs[front+i].NewServer()
				if err := s.Run(); err != nil {
					panic("HARNESS-ERROR cannot listen again: " + err.Error())
				}
				again = append(again, s)
			}
			o := ln.orders[calls+len(ln.holds)+len(ln.extra)]
			o.op = &op{form: "retry"}
			for k, tg := range ln.targets {
				if ln.stat {
					tg = tg.(*iproto.StatService).Service
				}
				ok := until(func() bool {
					ln.limits([]*order{o}, 0)
					o.outcome, o.got = "", 0
					_, ch := iproto.SendMsgBody(tg, o.msg(), o.frame())
					ln.collect(fmt.Sprintf("after the restart, to client %d", k), []*order{o}, []iproto.Chan{ch})
					return o.outcome != "stopped"
				})
				if !ok {
					ln.fail("the client does not recover after the restart of its server")
				}
			}
			if kept {
				collect()
			}
			ln.stopClients()
			ln.stopServers(again)
			ln.stopsRunning(again)
		} else {
			ln.stopClients()
			if kept {
				collect()
			}
		}
		if ln.topology == "proxy" {
			ln.servers[0].Stop()
			ln.stopsRunning(ln.servers[:1])
		}
	case "none":
		atomic.StoreInt32(&ln.stopped, 1)
		ln.stopClients()
		ln.stopServers(ln.servers)
		ln.stopsRunning(ln.servers)
	}
	if ln.up != nil {
		ln.up.Stop()
	}
	for _, p := range ln.points {
		if s, ok := p.(*iproto.ParallelService); ok {
			s.Stop()
		}
	}
	for _, o := range ln.orders {
		if n := atomic.LoadInt32(&o.got); n != 1 && ln.err == "" && !(n == 0 && o.op.form == "cxgo" && o.op.cancel != "") {
			ln.fail("request %d was answered %d times", o.N, n)
		}
	}
}

// TestCalls: whatever is on the way, calls get their own results.
func TestCalls(t *testing.T) {
	h.Run(t, "1-6 systems at once: the client (plain, balancer of clients, auto-connecting, through a proxy made of both) with drawn connections, pings and timeouts, against 1-3 servers of the package with a drawn kind of service; up to 4 callers perform up to 6 operations of all forms with up to 300 requests each, some cancelled or with timeouts; some systems idle for longer than the timeouts of their connections, with pings; then the client or the server is stopped with requests in work, and perhaps restarted; non-trivial if at least 3 requests were answered by the service; distinct by plan", 40, func(t *rapid.T, c *h.Case) {
		var lanes []*lane
		for i := rapid.IntRange(1, 6).Draw(t, "lanes"); i > 0; i-- {
			lanes = append(lanes, genLane(t))
		}
		stop, desc := h.Sched(t)
		var wg sync.WaitGroup
		for _, ln := range lanes {
			wg.Add(1)
			go func(ln *lane) {
				defer wg.Done()
				ln.run()
			}(ln)
		}
		ended := make(chan bool)
		go func() { wg.Wait(); close(ended) }()
		// pings are in time only if the machine is: a stall excuses the systems which idle
		stalled := make(chan bool)
		var stall int64
		go func() {
			for last := time.Now(); ; {
				select {
				case <-stalled:
					return
				case <-time.After(10 * time.Millisecond):
				}
				now := time.Now()
				if d := int64(now.Sub(last)); d > atomic.LoadInt64(&stall) {
					atomic.StoreInt64(&stall, d)
				}
				last = now
			}
		}()
		for alive := true; alive; {
			select {
			case <-ended:
				alive = false
			case <-time.After(time.Second):
				h.Alive()
			}
		}
		stop()
		close(stalled)
		n := map[string]int{}
		var plan []string
		for _, ln := range lanes {
			for _, f := range ln.files {
				os.Remove(f)
			}
			if ln.err != "" && ln.idle && atomic.LoadInt64(&stall) > int64(200*time.Millisecond) {
				c.Class("stalled")
				continue
			}
			if ln.err != "" {
				t.Fatalf("%s\nsched %s, %v\n%s", ln.err, desc, ln, h.Stacks())
			}
			for _, o := range ln.orders {
				n[o.outcome]++
			}
			plan = append(plan, ln.String())
			c.Class("topology " + ln.topology)
			c.Class("service " + ln.service)
			c.Class("ending " + ln.ending)
			c.ClassIf(ln.idle, "idle")
			c.ClassIf(ln.restart, "restart")
			c.ClassIf(ln.tcp, "tcp")
			for _, ops := range ln.callers {
				for _, o := range ops {
					c.Class("form " + o.form)
				}
			}
		}
		for k := range n {
			c.Class("outcome " + k)
		}
		if n["own"] >= 3 {
			c.NonTrivial(strings.Join(plan, "\n"))
			c.Sample("%v", plan)
		}
	})
}
