package c03

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto/marshal"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

// maxElem is the size of the biggest element a decoder of the type may have to
// input draws the bytes to decode: a valid encoding, a mutation of one, or noise.
func input(t *rapid.T, g *ref.Gen, rt reflect.Type, mode string, p ref.Prefix) ([]byte, string) {
	var b []byte
	what := "noise"
	switch k := rapid.IntRange(0, 9).Draw(t, "input"); {
	case k == 0:
		b = ref.Bytes(t, rapid.IntRange(0, 60).Draw(t, "noiselen"))
	default:
		v := g.Value(rt)
		switch mode {
		case "auto", "fixed":
			b = ref.Enc(nil, v, true, false)
		case "tail":
			b = ref.Enc(nil, v, false, false)
		case "size":
			body := ref.Enc(nil, v, false, false)
			b = append(ref.AppendPrefix(nil, p, len(body)), body...)
		}
		what = "valid"
		if k > 1 {
			b, what = ref.Mutate(t, b)
		}
	}
	return b, what
}

// TestDecode compares the decoder with the reference decoder on arbitrary bytes.
func TestDecode(t *testing.T) {
	h.Run(t, "a generated type and bytes (valid, mutated or noise) decoded in self-delimiting, tail or sized form; non-trivial if the bytes are not a valid encoding or are followed by more data; distinct by type and bytes", 12000, func(t *rapid.T, c *h.Case) {
		rt, openEnded := ref.GenTop(t, 3)
		mode := rapid.SampledFrom([]string{"auto", "auto", "tail", "size"}).Draw(t, "mode")
		if openEnded && mode == "auto" {
			mode = "tail"
		}
		p := ref.Prefixes[rapid.IntRange(0, 4).Draw(t, "prefix")]
		g := &ref.Gen{T: t, Budget: 3000}
		b, what := input(t, g, rt, mode, p)
		desc := fmt.Sprintf("%s %v from % x (%s)", mode, rt, b, what)

		want := reflect.New(rt).Elem()
		var wn int
		var werr error
		if ck := h.Catch(func() {
			switch mode {
			case "auto":
				wn, werr = ref.Dec(b, want, ref.Auto, 0, false)
			case "tail":
				wn, werr = ref.Dec(b, want, ref.Tail, 0, false)
				if werr == nil && wn != len(b) {
					werr = ref.ErrSize
				}
			case "size":
				var sz int
				sz, wn, werr = ref.ReadPrefix(b, p)
				if werr == nil && sz > len(b)-wn {
					werr = ref.ErrShort
				}
				if werr == nil {
					var m int
					m, werr = ref.Dec(b[wn:wn+sz], want, ref.Tail, 0, false)
					if werr == nil && m != sz {
						werr = ref.ErrSize
					}
					wn += sz
				}
			}
		}); ck != nil {
			panic(fmt.Sprintf("HARNESS-ERROR reference decoder: %v on %s", ck, desc))
		}

		got := reflect.New(rt)
		in := append([]byte{}, b...)
		r := &marshal.Reader{Body: in}
		marshal.ReaderFor(rt) // compile outside the measurement
		var err error
		byval := rapid.Bool().Draw(t, "byval")
		alloc := h.Allocated(func() {
			switch {
			case mode == "auto" && byval:
				err = r.ReadValueAuto(got.Elem())
			case mode == "auto":
				err = r.Read(got.Interface())
			case mode == "tail":
				err = r.ReadTail(got.Interface())
			case byval:
				err = r.ReadValueWithSize(got.Elem(), ref.RdPrefix[p])
			default:
				err = r.ReadWithSize(got.Interface(), ref.RdPrefix[p])
			}
		})
		if limit := 256<<10 + uint64(len(b)+16)*(200+16*ref.MaxElem(rt)); alloc > limit {
			t.Fatalf("decoding %d bytes allocated %d (limit %d): %s", len(b), alloc, limit, desc)
		}
		if err != r.Err {
			t.Fatalf("returned error %v, reader's error %v: %s", err, r.Err, desc)
		}
		if string(in) != string(b) {
			t.Fatalf("decoding changed its input: %s", desc)
		}
		switch {
		case werr == ref.ErrUnspec:
			c.Class("unspecified")
		case werr != nil:
			c.Class("must fail")
			if err == nil {
				t.Fatalf("no error (%v expected), got %s: %s", werr, ref.Show(got.Elem()), desc)
			}
		default:
			c.Class("must succeed")
			if err != nil {
				t.Fatalf("error %v, want %s: %s", err, ref.Show(want), desc)
			}
			if !ref.Equal(got.Elem(), want) {
				t.Fatalf("got %s, want %s: %s", ref.Show(got.Elem()), ref.Show(want), desc)
			}
			if len(r.Body) != len(b)-wn || string(r.Body) != string(b[wn:]) {
				t.Fatalf("left % x, want % x: %s", r.Body, b[wn:], desc)
			}
		}
		// the package-level functions agree
		if mode != "size" {
			got2 := reflect.New(rt)
			var err2 error
			if mode == "auto" {
				err2 = marshal.Read(in, got2.Interface())
			} else {
				err2 = marshal.ReadTail(in, got2.Interface())
			}
			if (err2 == nil) != (err == nil) || err == nil && !ref.Equal(got.Elem(), got2.Elem()) {
				t.Fatalf("package function: err %v, value %s; reader: err %v, value %s: %s", err2, ref.Show(got2.Elem()), err, ref.Show(got.Elem()), desc)
			}
		}
		if err != nil {
			stuck(t, r, rt, desc)
		}
		c.Class("mode " + mode)
		if what != "valid" || len(b) > wn {
			c.NonTrivial(mode + rt.String() + string(b))
			c.Sample("%s: err %v", desc, err)
		}
	})
}

// stuck checks that a failed reader stays failed.
func stuck(t *rapid.T, r *marshal.Reader, rt reflect.Type, desc string) {
	err := r.Err
	body := len(r.Body)
	for i := 0; i < 4; i++ {
		var zero bool
		what := rapid.IntRange(0, 13).Draw(t, "after")
		switch what {
		case 0:
			zero = r.Uint8() == 0
		case 1:
			zero = r.Uint16() == 0
		case 2:
			zero = r.Int32() == 0
		case 3:
			zero = r.Uint64() == 0
		case 4:
			zero = r.Float64() == 0
		case 5:
			zero = r.Uint64var() == 0
		case 6:
			zero = r.Intvar() == 0 && r.IntUint8() == 0 && r.IntUint16() == 0 && r.IntUint32() == 0 && r.IntUint64() == 0
		case 7:
			zero = len(r.Slice(1)) == 0
		case 8:
			zero = r.String(1) == ""
		case 9:
			zero = len(r.Tail()) == 0
		case 10:
			v := reflect.New(rt)
			zero = r.Read(v.Interface()) != nil && ref.Equal(v.Elem(), reflect.Zero(rt))
		case 11:
			v := reflect.New(rt)
			zero = r.ReadTail(v.Interface()) != nil && ref.Equal(v.Elem(), reflect.Zero(rt))
		case 12:
			v := reflect.New(rt)
			zero = r.ReadWithSize(v.Interface(), (*marshal.Reader).IntUint32) != nil && ref.Equal(v.Elem(), reflect.Zero(rt))
		case 13:
			var l [3]uint16
			r.Uint16sl(l[:])
			zero = l == [3]uint16{} && r.Int8() == 0 && r.Int16() == 0 && r.Uint32() == 0 && r.Int64() == 0 && r.Float32() == 0
		}
		if r.Err != err || !zero || r.Done() || r.Error() == nil || len(r.Body) > body {
			t.Fatalf("after the error %v, read %d gave a value or lost the error (%v): %s", err, what, r.Err, desc)
		}
	}
}

// TestFixedAndLists: destinations whose element number is fixed by the caller.
func TestFixedAndLists(t *testing.T) {
	h.Run(t, "bytes decoded into a caller-sized slice (no count on the wire) or into a *[]interface{} of pointers (count must match); non-trivial unless valid and exact", 6000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 2000}
		n := rapid.IntRange(0, 4).Draw(t, "n")
		if rapid.Bool().Draw(t, "list") {
			var ptrs []interface{}
			var wants []reflect.Value
			b := ref.AppendPrefix(nil, ref.I32, n)
			desc := ""
			for i := 0; i < n; i++ {
				rt := ref.GenType(t, 2)
				if ref.Counted(rt) {
					rt = reflect.TypeOf("")
				}
				b = ref.Enc(b, g.Value(rt), true, false)
				ptrs = append(ptrs, reflect.New(rt).Interface())
				wants = append(wants, reflect.New(rt).Elem())
				desc += rt.String() + "; "
			}
			what := "valid"
			if rapid.IntRange(0, 3).Draw(t, "mutate") > 0 {
				b, what = ref.Mutate(t, b)
			}
			desc = fmt.Sprintf("list of %sfrom % x (%s)", desc, b, what)
			k, wn, werr := ref.ReadPrefix(b, ref.I32)
			if werr == nil && k != n {
				werr = ref.ErrSize
			}
			for i := 0; werr == nil && i < n; i++ {
				var m int
				m, werr = ref.Dec(b[wn:], wants[i], ref.Auto, 0, false)
				wn += m
			}
			r := marshal.Reader{Body: b}
			err := r.Read(&ptrs)
			if werr == ref.ErrUnspec {
				c.Class("unspecified")
			} else if (err != nil) != (werr != nil) {
				t.Fatalf("error %v, expected %v: %s", err, werr, desc)
			}
			if werr == nil {
				for i := range wants {
					if got := reflect.ValueOf(ptrs[i]).Elem(); !ref.Equal(got, wants[i]) {
						t.Fatalf("element %d: got %s, want %s: %s", i, ref.Show(got), ref.Show(wants[i]), desc)
					}
				}
				if string(r.Body) != string(b[wn:]) {
					t.Fatalf("left % x, want % x: %s", r.Body, b[wn:], desc)
				}
				c.Class("list decoded")
			} else {
				c.Class("list refused")
			}
			if what != "valid" {
				c.NonTrivial(desc)
				c.Sample("%s: err %v", desc, err)
			}
			return
		}
		el := ref.GenType(t, 2)
		if ref.MayBeEmpty(el) {
			el = reflect.TypeOf(uint32(0))
		}
		at := reflect.ArrayOf(n, el)
		b := ref.Enc(nil, g.Value(at), true, false)
		what := "valid"
		if rapid.IntRange(0, 3).Draw(t, "mutate") > 0 {
			b, what = ref.Mutate(t, b)
		}
		sized := rapid.IntRange(0, 3).Draw(t, "sized") == 0
		p := ref.Prefixes[rapid.IntRange(0, 4).Draw(t, "prefix")]
		desc := fmt.Sprintf("fixed %v (sized=%v) from % x (%s)", at, sized, b, what)
		want := reflect.New(at).Elem()
		got := reflect.MakeSlice(reflect.SliceOf(el), n, n)
		r := marshal.Reader{Body: b}
		var wn int
		var werr, err error
		if sized {
			var sz int
			if rapid.Bool().Draw(t, "prefixed") && len(b) <= p.Max() {
				b = append(ref.AppendPrefix(nil, p, len(b)), b...)
				r.Body = b
			}
			sz, wn, werr = ref.ReadPrefix(b, p)
			if werr == nil && sz > len(b)-wn {
				werr = ref.ErrShort
			}
			if werr == nil {
				var m int
				m, werr = ref.Dec(b[wn:wn+sz], want, ref.Tail, 0, false)
				if werr == nil && m != sz {
					werr = ref.ErrSize
				}
				wn += sz
			}
			err = r.ReadWithSize(got.Interface(), ref.RdPrefix[p])
		} else {
			wn, werr = ref.Dec(b, want, ref.Auto, 0, false)
			err = r.Read(got.Interface())
		}
		if (err != nil) != (werr != nil) && werr != ref.ErrUnspec {
			t.Fatalf("error %v, expected %v: %s", err, werr, desc)
		}
		if werr == nil {
			arr := reflect.New(at).Elem()
			reflect.Copy(arr, got)
			if !ref.Equal(arr, want) || string(r.Body) != string(b[wn:]) {
				t.Fatalf("got %s left % x, want %s left % x: %s", ref.Show(arr), r.Body, ref.Show(want), b[wn:], desc)
			}
			c.Class("fixed decoded")
		} else {
			c.Class("fixed refused")
		}
		if what != "valid" {
			c.NonTrivial(desc)
			c.Sample("%s: err %v", desc, err)
		}
	})
}

// TestOps: low-level reads over arbitrary bytes against a cursor model.
func TestOps(t *testing.T) {
	h.Run(t, "1-12 low-level reads over up to 60 arbitrary bytes, with sizes taken from the input; non-trivial if some read must fail", 12000, func(t *rapid.T, c *h.Case) {
		b := ref.Bytes(t, rapid.IntRange(0, 60).Draw(t, "len"))
		if rapid.Bool().Draw(t, "mutated") {
			b, _ = ref.Mutate(t, b)
		}
		r := &marshal.Reader{Body: append([]byte{}, b...)}
		pos, failed := 0, false
		hist := ""
		take := func(n int) []byte { // model of an n-byte read
			if failed || n < 0 || n > len(b)-pos {
				failed = true
				return nil
			}
			pos += n
			return b[pos-n : pos]
		}
		num := func(n int) (u uint64) {
			s := take(n)
			for i := len(s) - 1; i >= 0; i-- {
				u = u<<8 | uint64(s[i])
			}
			return
		}
		last := 0
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
			var got, want interface{}
			k := rapid.IntRange(0, 23).Draw(t, "op")
			sz := last
			if rapid.Bool().Draw(t, "own") {
				sz = rapid.SampledFrom([]int{0, 1, 2, 3, 7, 20, 61, 1 << 20, -1, -1 << 63, 1<<63 - 1}).Draw(t, "sz")
			}
			hist += fmt.Sprintf("op %d (size %d); ", k, sz)
			small := sz & 15
			if k > 15 {
				got, want = anyOp(t, r, k, small, take, &hist)
				k = -1
			}
			switch k {
			case -1:
			case 0:
				got, want = r.Uint8(), uint8(num(1))
			case 1:
				got, want = r.Int8(), int8(num(1))
			case 2:
				got, want = r.Uint16(), uint16(num(2))
			case 3:
				got, want = r.Int16(), int16(num(2))
			case 4:
				got, want = r.Uint32(), uint32(num(4))
			case 5:
				got, want = r.Int32(), int32(num(4))
			case 6:
				got, want = r.Uint64(), num(8)
			case 7:
				got, want = r.Int64(), int64(num(8))
			case 8:
				x := r.IntUint64()
				got, want = x, int(num(8))
				last = x
			case 9:
				x := r.IntUint32()
				got, want = x, int(num(4))
				last = x
			case 10:
				x := r.Uint64var()
				var w uint64
				if !failed {
					u, m, err := readVar(b[pos:])
					if err != nil {
						failed = true
					} else {
						w = u
						pos += m
					}
				}
				got, want = x, w
				last = int(x)
			case 11:
				got, want = string(r.Slice(sz)), string(take(sz))
			case 12:
				got, want = r.String(sz), string(take(sz))
			case 13:
				x := make([]uint32, small)
				r.Uint32sl(x)
				w := make([]uint32, small)
				if s := take(4 * small); s != nil {
					for i := range w {
						w[i] = uint32(s[4*i]) | uint32(s[4*i+1])<<8 | uint32(s[4*i+2])<<16 | uint32(s[4*i+3])<<24
					}
				}
				got, want = fmt.Sprint(x), fmt.Sprint(w)
			case 14:
				x := make([]byte, small)
				r.Bytes(x)
				w := make([]byte, small)
				copy(w, take(small))
				got, want = string(x), string(w)
			default:
				if i == n-1 {
					var w string
					if !failed {
						w = string(b[pos:])
						pos = len(b)
					}
					got, want = string(r.Tail()), w
				} else {
					x := make([]int16, small)
					r.Int16sl(x)
					w := make([]int16, small)
					if s := take(2 * small); s != nil {
						for i := range w {
							w[i] = int16(uint16(s[2*i]) | uint16(s[2*i+1])<<8)
						}
					}
					got, want = fmt.Sprint(x), fmt.Sprint(w)
				}
			}
			if got != want || (r.Err != nil) != failed {
				t.Fatalf("% x: %s gave %v err %v, want %v failed %v", b, hist, got, r.Err, want, failed)
			}
		}
		if !failed && string(r.Body) != string(b[pos:]) {
			t.Fatalf("% x: after %s left % x, want % x", b, hist, r.Body, b[pos:])
		}
		if done := !failed && pos == len(b); r.Done() != done || (r.Error() == nil) != done {
			t.Fatalf("% x: after %s Done %v Error %v", b, hist, r.Done(), r.Error())
		}
		c.ClassIf(failed, "a read failed")
		if failed {
			c.NonTrivial(hist + string(b))
			c.Sample("% x: %s", b, hist)
		}
	})
}

var fixedTypes = []reflect.Type{
	reflect.TypeOf(uint8(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int32(0)),
	reflect.TypeOf(uint64(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0))}

// anyOp reads one or more numbers of some type by the methods named after it.
func anyOp(t *rapid.T, r *marshal.Reader, k, n int, take func(int) []byte, hist *string) (got, want string) {
	rt := fixedTypes[rapid.IntRange(0, len(fixedTypes)-1).Draw(t, "type")]
	name := strings.Title(rt.Kind().String())
	var res reflect.Value
	call := func(args ...reflect.Value) []reflect.Value { return reflect.ValueOf(r).MethodByName(name).Call(args) }
	if k < 20 {
		n = 1
	}
	switch k {
	case 16, 17:
		res = call()[0]
	case 18, 19:
		res = reflect.New(rt).Elem()
		name += "Val"
		call(reflect.ValueOf(res))
	case 20, 21:
		res = reflect.MakeSlice(reflect.SliceOf(rt), n, n)
		name += "sl"
		call(res)
	case 22:
		res = reflect.New(reflect.SliceOf(rt)).Elem()
		name += "slValTail"
		n = len(r.Body) / int(rt.Size())
		if r.Err != nil {
			n = 0
		}
		call(reflect.ValueOf(res))
		if res.Len() != n {
			t.Fatalf("%s: %d elements of %d; %s", name, res.Len(), n, *hist)
		}
	default:
		res = reflect.MakeSlice(reflect.SliceOf(rt), n, n)
		name += "slVal"
		call(reflect.ValueOf(res))
	}
	*hist += fmt.Sprintf("%s of %d; ", name, n)
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, res.Interface())
	w := make([]byte, n*int(rt.Size()))
	copy(w, take(len(w)))
	quiet := func(b []byte) string { // some ways through reflect quiet such NaNs
		if rt.Kind() == reflect.Float32 {
			for i := 0; i < len(b); i += 4 {
				if b[i+3]&0x7f == 0x7f && b[i+2]&0x80 != 0 {
					b[i+2] |= 0x40
				}
			}
		}
		return string(b)
	}
	return quiet(b.Bytes()), quiet(w)
}

func readVar(b []byte) (x uint64, n int, err error) {
	for i, c := range b {
		if x > 1<<57-1 {
			return 0, 0, ref.ErrSize
		}
		x = x<<7 | uint64(c&0x7f)
		if c < 0x80 {
			return x, i + 1, nil
		}
	}
	return 0, 0, ref.ErrShort
}
