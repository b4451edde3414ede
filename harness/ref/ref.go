// Package ref is an independent implementation of the iproto value format,
// written from its documentation (see DESIGN.md) on top of reflect, without
// using any code of the repository. It is the oracle of the marshal checks.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
)

// Prefix is a way to write a size or count.
type Prefix string

const (
	Ber Prefix = "ber"
	I8  Prefix = "i8"
	I16 Prefix = "i16"
	I32 Prefix = "i32"
	I64 Prefix = "i64"
)

var Prefixes = []Prefix{Ber, I8, I16, I32, I64}

// Max is the greatest number the prefix can carry.
func (p Prefix) Max() int {
	switch p {
	case I8:
		return 255
	case I16:
		return 65535
	case I32:
		return math.MaxUint32
	}
	return math.MaxInt64
}

// AppendVar appends the minimal big-endian base-128 form of x.
func AppendVar(b []byte, x uint64) []byte {
	n := 1
	for y := x >> 7; y != 0; y >>= 7 {
		n++
	}
	for i := n - 1; i >= 0; i-- {
		c := byte(x>>(7*uint(i))) & 0x7f
		if i != 0 {
			c |= 0x80
		}
		b = append(b, c)
	}
	return b
}

// AppendPrefix appends n in the form p.
func AppendPrefix(b []byte, p Prefix, n int) []byte {
	switch p {
	case Ber:
		return AppendVar(b, uint64(n))
	case I8:
		return append(b, byte(n))
	case I16:
		return binary.LittleEndian.AppendUint16(b, uint16(n))
	case I32:
		return binary.LittleEndian.AppendUint32(b, uint32(n))
	case I64:
		return binary.LittleEndian.AppendUint64(b, uint64(n))
	}
	panic("prefix " + p)
}

// Custom describes a type with its own encoder and decoder.
type Custom struct {
	Enc   func(v reflect.Value) []byte
	Count func(v reflect.Value) int                           // nil if not counted
	Dec   func(b []byte, v reflect.Value) (int, error)        // self-delimiting types
	DecN  func(b []byte, n int, v reflect.Value) (int, error) // counted types: n elements
	Tail  func(b []byte, v reflect.Value) (int, error)        // counted types: until the end
	Addr  bool                                                // encoder has a pointer receiver
}

// Customs is filled by types.go.
var Customs = map[reflect.Type]*Custom{}

// Tag is a parsed iproto tag.
type Tag struct {
	Skip, Ber, No bool
	Size, Cnt     Prefix
}

func ParseTag(s string) (t Tag) {
	for _, m := range strings.Split(s, ",") {
		switch {
		case m == "skip":
			t.Skip = true
		case m == "ber":
			t.Ber = true
		case m == "size(no)", m == "cnt(no)":
			t.No = true
		case strings.HasPrefix(m, "size("):
			t.Size = Prefix(m[5 : len(m)-1])
		case strings.HasPrefix(m, "cnt("):
			t.Cnt = Prefix(m[4 : len(m)-1])
		}
	}
	return
}

// Enc is the encoding of v: auto is the self-delimiting form, otherwise the
// form whose extent is known from outside. ber applies to unsigned integers
// and one level of array, slice or pointer of them.
func Enc(b []byte, v reflect.Value, auto, ber bool) []byte {
	if c := Customs[v.Type()]; c != nil {
		if auto && c.Count != nil {
			b = AppendPrefix(b, I32, c.Count(v))
		}
		return append(b, c.Enc(v)...)
	}
	le := binary.LittleEndian
	switch v.Kind() {
	case reflect.Int8:
		return append(b, byte(v.Int()))
	case reflect.Int16:
		return le.AppendUint16(b, uint16(v.Int()))
	case reflect.Int32:
		return le.AppendUint32(b, uint32(v.Int()))
	case reflect.Int64:
		return le.AppendUint64(b, uint64(v.Int()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if ber {
			return AppendVar(b, v.Uint())
		}
		switch v.Kind() {
		case reflect.Uint8:
			return append(b, byte(v.Uint()))
		case reflect.Uint16:
			return le.AppendUint16(b, uint16(v.Uint()))
		case reflect.Uint32:
			return le.AppendUint32(b, uint32(v.Uint()))
		}
		return le.AppendUint64(b, v.Uint())
	case reflect.Float32:
		return le.AppendUint32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return le.AppendUint64(b, math.Float64bits(v.Float()))
	case reflect.String:
		if auto {
			b = AppendPrefix(b, I32, v.Len())
		}
		return append(b, v.String()...)
	case reflect.Slice, reflect.Array:
		if auto && v.Kind() == reflect.Slice {
			b = AppendPrefix(b, I32, v.Len())
		}
		for i := 0; i < v.Len(); i++ {
			b = Enc(b, v.Index(i), true, ber)
		}
		return b
	case reflect.Ptr:
		if v.IsNil() {
			return b
		}
		return Enc(b, v.Elem(), auto, ber)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			tag := ParseTag(f.Tag.Get("iproto"))
			if tag.Skip {
				continue
			}
			fv := v.Field(i)
			switch {
			case tag.Size != "":
				body := Enc(nil, fv, false, tag.Ber)
				b = AppendPrefix(b, tag.Size, len(body))
				b = append(b, body...)
			case tag.Cnt != "":
				b = AppendPrefix(b, tag.Cnt, Count(fv))
				b = Enc(b, fv, false, tag.Ber)
			case tag.No:
				b = Enc(b, fv, false, tag.Ber)
			default:
				b = Enc(b, fv, true, tag.Ber)
			}
		}
		return b
	}
	panic(fmt.Sprintf("ref.Enc: %v", v.Type()))
}

// Count is the number a cnt prefix holds.
func Count(v reflect.Value) int {
	if c := Customs[v.Type()]; c != nil {
		return c.Count(v)
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return 0
		}
		return Count(v.Elem())
	case reflect.String, reflect.Slice, reflect.Array:
		return v.Len()
	}
	return 1
}

var (
	ErrShort = errors.New("ref: not enough data")
	ErrSize  = errors.New("ref: size or count mismatch")
	// ErrUnspec marks inputs whose meaning the format does not fix.
	ErrUnspec = errors.New("ref: unspecified")
)

func readVar(b []byte) (x uint64, n int, err error) {
	for i, c := range b {
		if x > math.MaxUint64>>7 {
			return 0, 0, ErrSize
		}
		x = x<<7 | uint64(c&0x7f)
		if c < 0x80 {
			return x, i + 1, nil
		}
	}
	return 0, 0, ErrShort
}

// ReadPrefix reads a size or count; numbers beyond int are impossible sizes.
func ReadPrefix(b []byte, p Prefix) (x, n int, err error) {
	var u uint64
	switch p {
	case Ber:
		u, n, err = readVar(b)
	default:
		n = map[Prefix]int{I8: 1, I16: 2, I32: 4, I64: 8}[p]
		if len(b) < n {
			return 0, 0, ErrShort
		}
		for i := n - 1; i >= 0; i-- {
			u = u<<8 | uint64(b[i])
		}
	}
	if err != nil {
		return
	}
	if u > math.MaxInt64 {
		return 0, 0, ErrSize
	}
	return int(u), n, nil
}

// Mode says how the extent of a value is known.
type Mode int

const (
	Auto Mode = iota // self-delimiting
	Tail             // everything up to the end of the buffer belongs to it
	N                // a count is given from outside
)

// Dec decodes b into v (settable) and returns the bytes consumed.
func Dec(b []byte, v reflect.Value, mode Mode, cnt int, ber bool) (n int, err error) {
	if c := Customs[v.Type()]; c != nil {
		if c.Count == nil {
			return c.Dec(b, v)
		}
		if mode == Tail {
			return c.Tail(b, v)
		}
		if mode == Auto {
			k, pn, err := ReadPrefix(b, I32)
			if err != nil {
				return 0, err
			}
			cnt, n, b = k, pn, b[pn:]
		}
		m, err := c.DecN(b, cnt, v)
		return n + m, err
	}
	if mode == N {
		switch v.Kind() {
		case reflect.Ptr, reflect.String, reflect.Slice:
		case reflect.Array:
			if cnt != v.Len() {
				return 0, ErrSize
			}
		default:
			if cnt != 1 {
				return 0, ErrSize
			}
		}
	}
	fixed := func(k int) (uint64, error) {
		if len(b) < k {
			return 0, ErrShort
		}
		n = k
		var u uint64
		for i := k - 1; i >= 0; i-- {
			u = u<<8 | uint64(b[i])
		}
		return u, nil
	}
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		k := int(v.Type().Size())
		u, err := fixed(k)
		if err != nil {
			return 0, err
		}
		sh := uint(64 - 8*k)
		v.SetInt(int64(u<<sh) >> sh)
		return n, nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if ber {
			u, m, err := readVar(b)
			if err != nil {
				return 0, err
			}
			if v.OverflowUint(u) {
				return 0, ErrUnspec
			}
			v.SetUint(u)
			return m, nil
		}
		u, err := fixed(int(v.Type().Size()))
		if err != nil {
			return 0, err
		}
		v.SetUint(u)
		return n, nil
	case reflect.Float32:
		u, err := fixed(4)
		if err != nil {
			return 0, err
		}
		v.SetFloat(float64(math.Float32frombits(uint32(u))))
		return n, nil
	case reflect.Float64:
		u, err := fixed(8)
		if err != nil {
			return 0, err
		}
		v.SetFloat(math.Float64frombits(u))
		return n, nil
	case reflect.String, reflect.Slice:
		if mode == Auto {
			k, m, err := ReadPrefix(b, I32)
			if err != nil {
				return 0, err
			}
			cnt, n, b = k, m, b[m:]
			mode = N
		}
		if v.Kind() == reflect.String {
			if mode == Tail {
				cnt = len(b)
			}
			if cnt > len(b) {
				return 0, ErrShort
			}
			v.SetString(string(b[:cnt]))
			return n + cnt, nil
		}
		if mode == N && cnt > len(b) { // no element is empty
			return 0, ErrShort
		}
		v.Set(reflect.Zero(v.Type()))
		for i := 0; mode == N && i < cnt || mode == Tail && len(b) > 0; i++ {
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
			m, err := Dec(b, v.Index(i), Auto, 0, ber)
			if err != nil {
				return 0, err
			}
			n += m
			b = b[m:]
		}
		return n, nil
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			m, err := Dec(b, v.Index(i), Auto, 0, ber)
			if err != nil {
				return 0, err
			}
			n += m
			b = b[m:]
		}
		return n, nil
	case reflect.Ptr:
		if mode == Tail && len(b) == 0 || mode == N && cnt == 0 {
			v.Set(reflect.Zero(v.Type()))
			return 0, nil
		}
		if mode == Auto {
			return 0, ErrUnspec
		}
		v.Set(reflect.New(v.Type().Elem()))
		return Dec(b, v.Elem(), mode, cnt, ber)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			tag := ParseTag(f.Tag.Get("iproto"))
			if tag.Skip {
				continue
			}
			m := 0
			var err error
			fv := v.Field(i)
			switch {
			case tag.Size != "":
				sz, pn, e := ReadPrefix(b, tag.Size)
				if e != nil {
					return 0, e
				}
				b = b[pn:]
				n += pn
				if sz > len(b) {
					return 0, ErrShort
				}
				m, err = Dec(b[:sz], fv, Tail, 0, tag.Ber)
				if err == nil && m != sz {
					err = ErrSize
				}
			case tag.Cnt != "":
				cnt, pn, e := ReadPrefix(b, tag.Cnt)
				if e != nil {
					return 0, e
				}
				b = b[pn:]
				n += pn
				m, err = Dec(b, fv, N, cnt, tag.Ber)
			case tag.No && mode == Tail:
				m, err = Dec(b, fv, Tail, 0, tag.Ber)
			case tag.No:
				err = ErrUnspec
			default:
				m, err = Dec(b, fv, Auto, 0, tag.Ber)
			}
			if err != nil {
				return 0, err
			}
			n += m
			b = b[m:]
		}
		return n, nil
	}
	panic(fmt.Sprintf("ref.Dec: %v", v.Type()))
}

// Equal compares values; nil and empty slices are equal, pointers compare by
// what they encode to, floats by bits, skipped and unexported fields are ignored.
func Equal(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !Equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			if a.IsNil() {
				a = b
			}
			return len(Enc(nil, a, false, false)) == 0
		}
		return a.IsNil() || Equal(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || ParseTag(f.Tag.Get("iproto")).Skip {
				continue
			}
			if !Equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	}
	panic("ref.Equal " + a.Type().String())
}
