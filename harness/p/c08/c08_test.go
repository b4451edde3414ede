package c08

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto"
	inet "github.com/funny-falcon/go-iproto/net"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

const ping, pingId = 0xff00, 0xffffffff

type frame struct {
	msg, id, code uint32
	body          []byte
	short         bool // a response whose body has no room for its code
}

var widths = map[inet.RCType]int{inet.RC0byte: 0, inet.RC1byte: 1, inet.RC4byte: 4}

// enc is the wire form: a request if rcl is -1, else a response.
func (f *frame) enc(rcl int) []byte {
	var code [4]byte
	binary.LittleEndian.PutUint32(code[:], f.code)
	n := 0
	if rcl > 0 && f.msg != ping && !f.short {
		n = rcl
	}
	b := make([]byte, 12, 12+n+len(f.body))
	binary.LittleEndian.PutUint32(b, f.msg)
	binary.LittleEndian.PutUint32(b[4:], uint32(n+len(f.body)))
	binary.LittleEndian.PutUint32(b[8:], f.id)
	return append(append(b, code[:n]...), f.body...)
}

// seen is the code that the reader must give.
func (f *frame) seen(rcl int) uint32 {
	switch {
	case f.short:
		return uint32(iproto.RcProtocolError)
	case rcl == 0 || f.msg == ping:
		return uint32(iproto.RcOK)
	case rcl == 1:
		return f.code & 0xff
	}
	return f.code
}

func (f *frame) String() string {
	return fmt.Sprintf("{msg %#x id %#x code %#x body %d bytes short %v}", f.msg, f.id, f.code, len(f.body), f.short)
}

var sizes = []int{0, 0, 1, 2, 3, 4, 5, 11, 12, 13, 100, 1000, 1011, 1012, 1023, 1024, 1025, 1026, 2000, 3060, 3072, 4080, 4083, 4084, 4085, 4095, 4096, 4097, 5000, 8179, 8180, 8181, 8191, 8192, 8193, 9000, 16384, 40000}

func genFrame(t *rapid.T, rcl int) *frame {
	f := &frame{msg: uint32(ref.Uint(t, 32)), id: uint32(ref.Uint(t, 32)), code: uint32(ref.Uint(t, 32))}
	n := rapid.SampledFrom(sizes).Draw(t, "size")
	if rapid.Bool().Draw(t, "near") {
		n += rapid.IntRange(0, 30).Draw(t, "more")
	}
	f.body = fill(n, rapid.Uint64().Draw(t, "fill"))
	switch rapid.IntRange(0, 9).Draw(t, "special") {
	case 0:
		f.msg = ping
	case 1:
		f.msg, f.id, f.body = ping, pingId, nil
	case 2:
		if rcl > 0 {
			f.short = f.msg != ping
			f.body = f.body[:min(len(f.body), rcl-1)]
		}
	}
	return f
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func fill(n int, seed uint64) []byte {
	b := make([]byte, n)
	if seed%4 == 0 {
		return b // a body that looks like empty frames
	}
	for i := range b {
		seed = seed*6364136223846793005 + 1442695040888963407
		b[i] = byte(seed >> 56)
	}
	return b
}

var errSink = errors.New("sink failed")

// sink takes left bytes and then fails.
type sink struct {
	got    []byte
	left   int
	failed bool
	plain  bool
	writes int
}

func (s *sink) Write(b []byte) (int, error) {
	s.writes++
	if len(b) > s.left {
		n := s.left
		s.got = append(s.got, b[:n]...)
		s.left, s.failed = 0, true
		return n, errSink
	}
	s.left -= len(b)
	s.got = append(s.got, b...)
	return len(b), nil
}

type deadlined struct{ *sink }

func (deadlined) SetReadDeadline(t time.Time) error  { return nil }
func (deadlined) SetWriteDeadline(t time.Time) error { return nil }

// source gives the data in the chunks, then the error.
type source struct {
	data    []byte
	chunks  []int
	i       int
	err     error
	errWith bool // the error comes together with the last data
	empty   int
	zero    int // reads of zero bytes asked for
}

func (s *source) Read(b []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.err
	}
	if len(b) == 0 {
		if s.zero++; s.zero > 1000 {
			return 0, errors.New("endless empty reads")
		}
		return 0, nil
	}
	n := len(s.data)
	if len(s.chunks) > 0 {
		n = s.chunks[s.i%len(s.chunks)]
		s.i++
	}
	if n == 0 && s.empty < 50 {
		s.empty++
		return 0, nil
	}
	n = copy(b, s.data[:min(len(s.data), n)])
	s.data = s.data[n:]
	if len(s.data) == 0 && s.errWith {
		return n, s.err
	}
	return n, nil
}

type deadlinedSource struct{ *source }

func (deadlinedSource) SetReadDeadline(t time.Time) error  { return nil }
func (deadlinedSource) SetWriteDeadline(t time.Time) error { return nil }

func genSource(t *rapid.T, data []byte) (*source, string) {
	s := &source{data: data, err: io.EOF, errWith: rapid.Bool().Draw(t, "errwith")}
	if rapid.IntRange(0, 3).Draw(t, "broken") == 0 {
		s.err = errors.New("broken stream")
	}
	mode := rapid.SampledFrom([]string{"all", "bytes", "small", "mixed", "halves"}).Draw(t, "chunks")
	switch mode {
	case "bytes":
		s.chunks = []int{1}
		if len(data) > 20000 {
			s.chunks = []int{7, 1, 1, 13}
		}
	case "small":
		s.chunks = rapid.SliceOfN(rapid.IntRange(0, 17), 1, 20).Draw(t, "c")
		s.chunks = append(s.chunks, 12)
	case "mixed":
		s.chunks = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 4, 12, 13, 16, 100, 1000, 4096, 8191, 8192, 10000}), 1, 20).Draw(t, "c")
		s.chunks = append(s.chunks, 5000)
	case "halves":
		if len(data) > 0 {
			s.chunks = []int{rapid.IntRange(1, len(data)).Draw(t, "at"), len(data)}
		}
	}
	return s, mode
}

// frames draws the frames of one direction.
func frames(t *rapid.T, rcl int) (fs []*frame, desc string) {
	if rapid.IntRange(0, 2).Draw(t, "aimed") == 0 {
		return aimed(t, rcl)
	}
	for i, n := 0, rapid.IntRange(0, 12).Draw(t, "frames"); i < n; i++ {
		f := genFrame(t, rcl)
		fs = append(fs, f)
		desc += f.String()
	}
	return
}

// aimed draws frames one of which begins shortly before the end of a buffer of 4096 bytes.
func aimed(t *rapid.T, rcl int) (fs []*frame, desc string) {
	before := 4096 - rapid.IntRange(0, 18).Draw(t, "before the end")
	for pos := 0; ; {
		f := genFrame(t, rcl)
		f.short = false
		head := len((&frame{msg: f.msg}).enc(rcl))
		left := before - pos - head
		if n := rapid.IntRange(0, 1000).Draw(t, "len"); left <= 1000 {
			f.body = fill(left, 1)
		} else if f.body = fill(n, 2); left-n < 30 {
			f.body = fill(n/2, 2)
		}
		fs = append(fs, f)
		pos += len(f.enc(rcl))
		if left <= 1000 {
			break
		}
	}
	for i := rapid.IntRange(1, 3).Draw(t, "frames after"); i > 0; i-- {
		fs = append(fs, genFrame(t, rcl))
	}
	for _, f := range fs {
		desc += f.String()
	}
	return fs, "aimed: " + desc
}

// readAll reads frames until the error and compares.
func readAll(t *rapid.T, fs []*frame, rcl int, rc inet.RCType, data []byte, cut bool, desc string) {
	s, mode := genSource(t, data)
	desc += " chunks " + mode
	var hr inet.HeaderReader
	var r io.Reader = s
	timeout := time.Duration(0)
	if rapid.Bool().Draw(t, "timeout") {
		timeout = time.Minute
		r = deadlinedSource{s}
	}
	hr.Init(r, timeout, rc)
	scribble := rapid.Bool().Draw(t, "append")
	type kept struct{ got, want []byte }
	var bodies []kept
	for i := 0; ; i++ {
		var msg, id, code uint32
		var body []byte
		var err error
		what := "response"
		if rcl < 0 {
			what = "request"
			if i < len(fs) && fs[i].msg == ping && fs[i].id == pingId && len(fs[i].body) == 0 && rapid.Bool().Draw(t, "readping") {
				if err = hr.ReadPing(); err != nil {
					t.Fatalf("ReadPing of frame %d: %v: %s", i, err, desc)
				}
				continue
			}
			var req inet.Request
			req, err = hr.ReadRequest()
			msg, id, body = uint32(req.Msg), req.Id, req.Body
		} else {
			var res inet.Response
			res, err = hr.ReadResponse()
			msg, id, code, body = uint32(res.Msg), res.Id, uint32(res.Code), res.Body
		}
		if i >= len(fs) {
			if err == nil {
				t.Fatalf("invented %s %d {msg %#x id %#x code %#x body % x}: %s", what, i, msg, id, code, body, desc)
			}
			if !cut && err != s.err {
				t.Fatalf("the end of the stream is reported as %v, not as %v: %s", err, s.err, desc)
			}
			if cut && s.err != io.EOF && err != s.err {
				t.Fatalf("the failure is reported as %v, not as %v: %s", err, s.err, desc)
			}
			break
		}
		f := fs[i]
		if err != nil {
			t.Fatalf("reading %s %d: %v: %s", what, i, err, desc)
		}
		wantcode := uint32(0)
		if rcl >= 0 {
			wantcode = f.seen(rcl)
		}
		if msg != f.msg || id != f.id || code != wantcode || !bytes.Equal(body, f.body) {
			t.Fatalf("%s %d is {msg %#x id %#x code %#x body %d bytes}, want %v with code %#x: %s", what, i, msg, id, code, len(body), f, wantcode, desc)
		}
		bodies = append(bodies, kept{body, f.body})
		if scribble {
			_ = append(body, "appended by the owner of the body"...)
		}
	}
	for i, k := range bodies {
		if !bytes.Equal(k.got, k.want) {
			t.Fatalf("body %d was altered by later reads: %s", i, desc)
		}
	}
	for i := 0; i < 2; i++ {
		var err error
		if rcl < 0 {
			_, err = hr.ReadRequest()
		} else {
			_, err = hr.ReadResponse()
		}
		if err == nil {
			t.Fatalf("a frame after the end of the stream: %s", desc)
		}
	}
}

func pickRC(t *rapid.T) (inet.RCType, int) {
	rc := rapid.SampledFrom([]inet.RCType{inet.RC4byte, inet.RC1byte, inet.RC0byte}).Draw(t, "rc")
	if rapid.Bool().Draw(t, "requests") {
		return rc, -1
	}
	return rc, widths[rc]
}

func write(hw *inet.HeaderWriter, f *frame, rcl int, asPing bool) error {
	if rcl < 0 {
		if asPing {
			return hw.Ping()
		}
		return hw.WriteRequest(inet.Request{Msg: iproto.RequestType(f.msg), Id: f.id, Body: f.body})
	}
	return hw.WriteResponse(inet.Response{Msg: iproto.RequestType(f.msg), Id: f.id, Code: iproto.RetCode(f.code), Body: f.body})
}

// TestStream: what is written is the documented bytes, and is read back.
func TestStream(t *testing.T) {
	h.Run(t, "0-12 requests or responses, with pings, a return code width, flushes, and a splitting of the stream, written and read back; non-trivial with at least 2 frames; distinct by wire bytes and splitting", 12000, func(t *rapid.T, c *h.Case) {
		rc, rcl := pickRC(t)
		fs, desc := frames(t, rcl)
		desc = fmt.Sprintf("rc %d bytes: %s", rcl, desc)
		s := &sink{left: 1 << 40}
		var w io.Writer = s
		timeout := time.Duration(0)
		if rapid.Bool().Draw(t, "wtimeout") {
			timeout = time.Minute
			w = deadlined{s}
		}
		var hw inet.HeaderWriter
		hw.Init(w, timeout, rc)
		var want []byte
		flushes := 0
		for i, f := range fs {
			f.short = false // is written by TestWire only
			asPing := f.msg == ping && f.id == pingId && len(f.body) == 0 && rapid.Bool().Draw(t, "ping")
			if err := write(&hw, f, rcl, asPing); err != nil {
				t.Fatalf("writing frame %d: %v: %s", i, err, desc)
			}
			want = append(want, f.enc(rcl)...)
			if len(s.got) > len(want) || !bytes.Equal(s.got, want[:len(s.got)]) {
				t.Fatalf("after frame %d the wire has %d bytes\n% x\nwhich are not a beginning of the frames: %s", i, len(s.got), clip(s.got), desc)
			}
			for (i == 0 || !strings.Contains(desc, "aimed")) && rapid.IntRange(0, 3).Draw(t, "flush") == 0 {
				flushes++
				if err := hw.Flush(); err != nil {
					t.Fatalf("flush: %v: %s", err, desc)
				}
				if !bytes.Equal(s.got, want) {
					t.Fatalf("after the flush of frame %d the wire has\n% x\nwant\n% x\n%s", i, clip(s.got), clip(want), desc)
				}
			}
		}
		if err := hw.Flush(); err != nil {
			t.Fatalf("flush: %v: %s", err, desc)
		}
		if !bytes.Equal(s.got, want) {
			t.Fatalf("the wire has\n% x\nwant\n% x\n%s", clip(s.got), clip(want), desc)
		}
		readAll(t, fs, rcl, rc, s.got, false, desc)
		if len(fs) >= 2 {
			c.NonTrivial(desc)
			c.Sample("%s", desc)
		}
		c.Class(fmt.Sprintf("code bytes %d", rcl))
		c.ClassIf(flushes > 0, "flushed between frames")
		c.ClassIf(len(want) > 8192, "more than both buffers")
	})
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// TestWire: wire bytes cut anywhere, with responses too short for their codes.
func TestWire(t *testing.T) {
	h.Run(t, "the documented bytes of 0-12 frames, cut at a drawn byte, split into drawn reads; non-trivial if cut inside a frame with at least one frame before; distinct by bytes and splitting", 12000, func(t *rapid.T, c *h.Case) {
		rc, rcl := pickRC(t)
		fs, desc := frames(t, rcl)
		var data []byte
		var ends []int
		short := false
		for _, f := range fs {
			data = append(data, f.enc(rcl)...)
			ends = append(ends, len(data))
			short = short || f.short
		}
		cut := len(data)
		switch rapid.IntRange(0, 2).Draw(t, "cutmode") {
		case 0:
			cut = rapid.IntRange(0, len(data)).Draw(t, "cut")
		case 1:
			// near a boundary of something
			if len(ends) > 0 {
				at := rapid.SampledFrom(append(ends, 0)).Draw(t, "end") + rapid.IntRange(-17, 17).Draw(t, "off")
				if at >= 0 && at <= len(data) {
					cut = at
				}
			}
		}
		n := 0
		inside := cut > 0
		for n < len(ends) && ends[n] <= cut {
			inside = inside && ends[n] != cut
			n++
		}
		desc = fmt.Sprintf("rc %d bytes, cut at %d of %d: %s", rcl, cut, len(data), desc)
		readAll(t, fs[:n], rcl, rc, data[:cut:cut], inside, desc)
		c.ClassIf(short, "response shorter than its code")
		c.ClassIf(inside, "cut inside a frame")
		c.Class(fmt.Sprintf("code bytes %d", rcl))
		if inside && n > 0 {
			c.NonTrivial(desc)
			c.Sample("%s", desc)
		}
	})
}

// TestSinkFails: a writer whose stream fails reports it, and what was taken by
// the stream is a beginning of the frames.
func TestSinkFails(t *testing.T) {
	h.Run(t, "1-12 frames with flushes into a stream that fails after a drawn number of bytes; non-trivial if it fails inside a frame; distinct by frames and byte", 6000, func(t *rapid.T, c *h.Case) {
		rc, rcl := pickRC(t)
		fs, desc := frames(t, rcl)
		var want []byte
		for _, f := range fs {
			f.short = false
			want = append(want, f.enc(rcl)...)
		}
		if len(want) == 0 {
			return
		}
		s := &sink{left: rapid.IntRange(0, len(want)-1).Draw(t, "left")}
		desc = fmt.Sprintf("rc %d, failing after %d bytes: %s", rcl, s.left, desc)
		var hw inet.HeaderWriter
		hw.Init(s, 0, rc)
		var err error
		for _, f := range fs {
			if err = write(&hw, f, rcl, false); err != nil {
				break
			}
			if s.failed {
				t.Fatalf("a failed write was not reported: %s", desc)
			}
			if rapid.IntRange(0, 3).Draw(t, "flush") == 0 {
				if err = hw.Flush(); err != nil {
					break
				}
			}
		}
		if err == nil {
			err = hw.Flush()
		}
		if err != errSink {
			t.Fatalf("the failure of the stream is reported as %v: %s", err, desc)
		}
		if !bytes.Equal(s.got, want[:len(s.got)]) {
			t.Fatalf("the stream got\n% x\nwhich is not a beginning of the frames: %s", clip(s.got), desc)
		}
		if len(s.got) > 0 {
			c.NonTrivial(desc)
			c.Sample("%s", desc)
		}
	})
}

// TestPing: only a ping is taken for a ping.
func TestPing(t *testing.T) {
	h.Run(t, "one header, a ping or not, read by ReadPing; non-trivial always; distinct by bytes", 1500, func(t *rapid.T, c *h.Case) {
		f := &frame{msg: ping, id: pingId}
		switch rapid.IntRange(0, 3).Draw(t, "what") {
		case 0:
			f.msg = uint32(ref.Uint(t, 32))
		case 1:
			f.id = uint32(ref.Uint(t, 32))
		case 2:
			f.msg, f.id = uint32(ref.Uint(t, 32)), uint32(ref.Uint(t, 32))
		}
		data := f.enc(-1)
		cut := rapid.SampledFrom([]int{0, 1, 11, 12, 12, 12, 12}).Draw(t, "cut")
		s, _ := genSource(t, data[:cut:cut])
		var hr inet.HeaderReader
		hr.Init(s, 0, inet.RC4byte)
		err := hr.ReadPing()
		want := cut == 12 && f.msg == ping && f.id == pingId
		if (err == nil) != want {
			t.Fatalf("ReadPing of % x: %v", data[:cut], err)
		}
		c.ClassIf(want, "ping")
		c.NonTrivial(string(data[:cut]))
		c.Sample("% x", data[:cut])
	})
}

// TestLiar: a header that promises more than comes costs no more memory than came.
func TestLiar(t *testing.T) {
	h.Run(t, "frames followed by a header that declares up to 4 GB, of which little comes; non-trivial if it declares more than 64 MB; distinct by bytes", 300, func(t *rapid.T, c *h.Case) {
		rc, rcl := pickRC(t)
		var data []byte
		fs, _ := frames(t, rcl)
		for _, f := range fs {
			data = append(data, f.enc(rcl)...)
		}
		declared := uint32(rapid.SampledFrom([]int{1 << 20, 1<<26 + 1, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(t, "declared"))
		came := rapid.SampledFrom([]int{0, 1, 5, 1000, 100000}).Draw(t, "came")
		head := (&frame{msg: 7, id: 9}).enc(-1)
		binary.LittleEndian.PutUint32(head[4:], declared)
		data = append(append(data, head...), make([]byte, came)...)
		s, _ := genSource(t, data)
		var hr inet.HeaderReader
		hr.Init(s, 0, rc)
		got := h.Allocated(func() {
			for i := 0; ; i++ {
				var err error
				if rcl < 0 {
					_, err = hr.ReadRequest()
				} else {
					_, err = hr.ReadResponse()
				}
				if err != nil {
					if i != len(fs) {
						t.Fatalf("%d frames of %d were read: %v", i, len(fs), err)
					}
					return
				}
				if i >= len(fs) {
					t.Fatalf("a body of %d bytes was read, of which %d came", declared, came)
				}
			}
		})
		if limit := uint64(32<<20 + 8*len(data)); got > limit {
			t.Fatalf("%d bytes were allocated for a body of which %d bytes came (%d declared)", got, came, declared)
		}
		c.Class(fmt.Sprintf("declared %d", declared))
		if declared > 1<<26 {
			c.NonTrivial(string(data))
			c.Sample("%d frames, then %d of %d bytes", len(fs), came, declared)
		}
	})
}
