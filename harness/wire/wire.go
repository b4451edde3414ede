// Package wire speaks the protocol of the sockets without the code under test.
package wire

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"sync/atomic"
	"time"

	inet "github.com/funny-falcon/go-iproto/net"
	"pgregory.net/rapid"
)

const (
	Ping   = 0xff00
	PingId = 0xffffffff
)

var le = binary.LittleEndian

// Frame is what both sides send: a request has no code.
type Frame struct {
	Msg, Id uint32
	Body    []byte
}

func (f Frame) Enc(b []byte) []byte {
	b = le.AppendUint32(b, f.Msg)
	b = le.AppendUint32(b, uint32(len(f.Body)))
	b = le.AppendUint32(b, f.Id)
	return append(b, f.Body...)
}

// Read reads one frame; err is io.EOF only between frames.
func Read(r io.Reader) (f Frame, err error) {
	var hd [12]byte
	if _, err = io.ReadFull(r, hd[:]); err != nil {
		return
	}
	f.Msg, f.Id = le.Uint32(hd[:]), le.Uint32(hd[8:])
	n := le.Uint32(hd[4:])
	if n > 1<<26 {
		return f, fmt.Errorf("frame of %d bytes", n)
	}
	f.Body = make([]byte, n)
	if _, err = io.ReadFull(r, f.Body); err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return
}

// RC is a width of return codes.
type RC struct {
	Type inet.RCType
	Len  int
}

func (rc RC) String() string { return fmt.Sprintf("%d-byte codes", rc.Len) }

func GenRC(t *rapid.T) RC {
	return rapid.SampledFrom([]RC{{inet.RC4byte, 4}, {inet.RC4byte, 4}, {inet.RC1byte, 1}, {inet.RC0byte, 0}}).Draw(t, "rc")
}

// Cut is what arrives of a code.
func (rc RC) Cut(code uint32) uint32 {
	switch rc.Len {
	case 0:
		return 0
	case 1:
		return code & 0xff
	}
	return code
}

// Response encodes a response.
func (rc RC) Response(b []byte, msg, id, code uint32, body []byte) []byte {
	var c []byte
	if msg != Ping {
		switch rc.Len {
		case 1:
			c = []byte{byte(code)}
		case 4:
			c = le.AppendUint32(nil, code)
		}
	}
	return Frame{msg, id, append(c, body...)}.Enc(b)
}

// Split takes a response apart.
func (rc RC) Split(f Frame) (code uint32, body []byte, err error) {
	if f.Msg == Ping {
		return 0, f.Body, nil
	}
	if len(f.Body) < rc.Len {
		return 0, nil, fmt.Errorf("response with %d bytes and no code", len(f.Body))
	}
	switch rc.Len {
	case 1:
		code = uint32(f.Body[0])
	case 4:
		code = le.Uint32(f.Body)
	}
	return code, f.Body[rc.Len:], nil
}

var addrN int64

// Address gives a fresh address to listen at.
func Address(tcp bool) (network, addr string) {
	if tcp {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			addr = l.Addr().String()
			l.Close()
			return "tcp", addr
		}
	}
	return "unix", fmt.Sprintf("@verif-%d-%d-%d", os.Getpid(), time.Now().UnixNano(), atomic.AddInt64(&addrN, 1))
}

// Conn is a connection with both halves.
type Conn interface {
	net.Conn
	CloseRead() error
	CloseWrite() error
}

// Dial connects.
func Dial(network, addr string) (Conn, error) {
	c, err := net.DialTimeout(network, addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	return c.(Conn), nil
}

// Chunks writes b in drawn pieces: sizes are used in turn, 0 means all.
func Chunks(w io.Writer, b []byte, sizes []int, pause time.Duration) (err error) {
	for i := 0; len(b) > 0 && err == nil; i++ {
		n := len(b)
		if len(sizes) > 0 {
			if k := sizes[i%len(sizes)]; k > 0 && k < n {
				n = k
			}
		}
		_, err = w.Write(b[:n])
		b = b[n:]
		if pause > 0 && i < 200 {
			time.Sleep(pause)
		}
	}
	return
}

// Fill makes a body that is different for every seed.
func Fill(n int, seed uint64) []byte {
	b := make([]byte, n)
	x := seed*0x9e3779b97f4a7c15 + 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x)
	}
	return b
}
