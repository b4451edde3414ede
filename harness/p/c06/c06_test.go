package c06

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

func u32(b []byte, x uint32) []byte { return ref.AppendPrefix(b, ref.I32, int(x)) }

func num(t *rapid.T, what string) uint32 { return uint32(ref.Uint(t, 32)) }

type req interface {
	IWrite(w *marshal.Writer)
	IMsg() iproto.RequestType
}

// check compares the encodings of a request by every entry point.
func check(t *rapid.T, r req, msg iproto.RequestType, want []byte, desc string) {
	for i, b := range [][]byte{marshal.Write(r), func() []byte { var w marshal.Writer; r.IWrite(&w); return w.Written() }(), marshal.WriteTail(r)} {
		if !bytes.Equal(b, want) {
			t.Fatalf("%T by way %d (%s)\n is   % x\n want % x", r, i, desc, b, want)
		}
	}
	p := reflect.New(reflect.TypeOf(r))
	p.Elem().Set(reflect.ValueOf(r))
	if b := marshal.Write(p.Interface()); !bytes.Equal(b, want) {
		t.Fatalf("%T by pointer (%s)\n is   % x\n want % x", r, desc, b, want)
	}
	if r.IMsg() != msg {
		t.Fatalf("%T: message type %d, want %d", r, r.IMsg(), msg)
	}
}

type (
	nBytes []byte
	nArr   [4]byte
	nStr   string
	nInt   int32
	nInts  []int32
	nStrs  []string
)

// keys draws the keys of a select: what is given to the package and the key
// tuples it stands for.
func keys(t *rapid.T, g *ref.Gen) (k interface{}, want [][]byte, kind string) {
	tuple := func(v reflect.Value) { want = append(want, ref.EncTuple(nil, v)) }
	val := func(x interface{}) reflect.Value { return reflect.ValueOf(x) }
	n := rapid.IntRange(0, 4).Draw(t, "nkeys")
	of := func(types ...interface{}) reflect.Value {
		return g.Value(reflect.TypeOf(types[rapid.IntRange(0, len(types)-1).Draw(t, "type")]))
	}
	list := func(v reflect.Value) {
		for i := 0; i < v.Len(); i++ {
			tuple(v.Index(i))
		}
	}
	ptr := rapid.IntRange(0, 3).Draw(t, "ptr") == 0
	give := func(v reflect.Value) interface{} {
		if ptr || ref.HasAddr(v.Type()) {
			kind += " by pointer"
			return v.Addr().Interface()
		}
		return v.Interface()
	}
	switch rapid.IntRange(0, 8).Draw(t, "keykind") {
	case 0:
		kind = "scalar"
		v := of(int8(0), uint8(0), int16(0), uint16(0), int32(0), uint32(0), int64(0), uint64(0), float32(0), float64(0), "", nStr(""), nInt(0))
		tuple(v)
		return give(v), want, kind
	case 1:
		kind = "bytes"
		v := of([]byte{}, nBytes{}, nArr{}, [0]byte{}, [3]byte{})
		tuple(v)
		return give(v), want, kind
	case 2:
		kind = "slice of scalars"
		v := of([]uint32{}, []int32{}, []uint64{}, []int64{}, []float32{}, []float64{}, []string{}, []int8{}, []uint16{}, []int16{}, nInts{}, nStrs{}, []nInt{}, []nStr{}, [3]int32{}, [2]string{}, [0]uint64{})
		list(v)
		return give(v), want, kind
	case 3:
		kind = "slice of bytes"
		v := of([][]byte{}, [][4]byte{}, []nBytes{}, [2][]byte{}, [2]nArr{})
		list(v)
		return give(v), want, kind
	case 4:
		kind = "composite keys"
		v := of([][][]byte{}, [][]int32{}, [][]string{}, [][2]uint64{}, [2][2]nStr{}, [][]nInt{})
		list(v)
		return give(v), want, kind
	case 5:
		kind = "struct"
		v := g.Value(ref.GenTupleStruct(t, 2))
		tuple(v)
		return give(v), want, kind
	case 6:
		kind = "slice of structs"
		rt := ref.GenTupleStruct(t, 2)
		v := reflect.New(reflect.SliceOf(rt)).Elem()
		pv := reflect.New(reflect.SliceOf(reflect.PtrTo(rt))).Elem()
		for i := 0; i < n; i++ {
			e := g.Value(rt)
			v.Set(reflect.Append(v, e))
			pv.Set(reflect.Append(pv, e.Addr()))
		}
		list(v)
		if ref.HasAddr(rt) || rapid.Bool().Draw(t, "elptr") {
			kind = "slice of struct pointers"
			return give(pv), want, kind
		}
		return give(v), want, kind
	}
	kind = "list"
	var l []interface{}
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 4).Draw(t, "el") {
		case 0:
			v := of(int8(0), uint16(0), int32(0), uint64(0), float64(0), nStr(""), nInt(0), "")
			tuple(v)
			l = append(l, v.Interface())
		case 1:
			v := of([]byte{}, nBytes{}, nArr{})
			tuple(v)
			l = append(l, v.Interface())
		case 2: // a composite key of mixed fields
			kind = "list with composite keys"
			var in []interface{}
			m := rapid.IntRange(0, 3).Draw(t, "parts")
			tup := ref.AppendPrefix(nil, ref.I32, m)
			for j := 0; j < m; j++ {
				v := of(uint8(0), int32(0), uint64(0), "", []byte{}, nStr(""), nInt(0), []uint16{})
				in = append(in, v.Interface())
				tup = ref.EncField(tup, v, false)
			}
			want = append(want, tup)
			l = append(l, in)
		case 3:
			kind = "list with composite keys"
			v := of([]int32{}, []string{}, [][]byte{}, [3]uint32{}, []nInt{})
			tuple(v)
			l = append(l, v.Interface())
		case 4:
			v := g.Value(ref.GenTupleStruct(t, 1))
			tuple(v)
			if ref.HasAddr(v.Type()) || rapid.Bool().Draw(t, "elptr") {
				l = append(l, v.Addr().Interface())
			} else {
				l = append(l, v.Interface())
			}
		}
	}
	_ = val
	if ptr {
		return &l, want, kind + " by pointer"
	}
	return l, want, kind
}

func TestSelect(t *testing.T) {
	h.Run(t, "a select with keys given in one of 9 ways; non-trivial unless there are no keys; distinct by bytes", 12000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 3000}
		k, tuples, kind := keys(t, g)
		limit := rapid.SampledFrom([]int32{sbox.SelectAll, sbox.SelectN, 0, 1, 2, 1 << 20, 1<<31 - 1, int32(num(t, "limit") >> 1)}).Draw(t, "lim")
		s := sbox.SelectReq{Space: num(t, "space"), Index: num(t, "index"), Offset: num(t, "offset"), Limit: limit, Keys: k}
		lim := uint32(limit)
		if limit == sbox.SelectAll {
			lim = 1<<31 - 1
		} else if limit == sbox.SelectN {
			lim = uint32(len(tuples))
		}
		want := u32(u32(u32(u32(u32(nil, s.Space), s.Index), s.Offset), lim), uint32(len(tuples)))
		for _, x := range tuples {
			want = append(want, x...)
		}
		desc := fmt.Sprintf("%s: %T %+v limit %d", kind, k, k, limit)
		check(t, s, 17, want, desc)
		if n := sbox.CountKeys(k); n != len(tuples) {
			t.Fatalf("CountKeys of %s is %d, want %d", desc, n, len(tuples))
		}
		c.Class(kind)
		if len(tuples) > 0 {
			c.NonTrivial(string(want))
			c.Sample("%s -> % x", desc, want)
		}
	})
}

// tuple draws a value that makes a tuple.
func tuple(t *rapid.T, g *ref.Gen) (interface{}, []byte) {
	if rapid.IntRange(0, 3).Draw(t, "list") == 0 {
		n := rapid.IntRange(0, 5).Draw(t, "n")
		b := ref.AppendPrefix(nil, ref.I32, n)
		var l []interface{}
		for i := 0; i < n; i++ {
			v := g.Value(ref.GenType(t, 0))
			l = append(l, v.Interface())
			b = ref.EncField(b, v, false)
		}
		return l, b
	}
	v := g.Value(ref.GenTuple(t, 2))
	b := ref.EncTuple(nil, v)
	if ref.HasAddr(v.Type()) || rapid.Bool().Draw(t, "byptr") {
		return v.Addr().Interface(), b
	}
	return v.Interface(), b
}

func TestStoreDelete(t *testing.T) {
	h.Run(t, "a store or delete with a generated tuple, flag and mode; all non-trivial; distinct by bytes", 5000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 3000}
		v, tup := tuple(t, g)
		space := num(t, "space")
		ret := rapid.Bool().Draw(t, "return")
		var flags uint32
		if ret {
			flags = 1
		}
		if rapid.Bool().Draw(t, "delete") {
			want := append(u32(u32(nil, space), flags), tup...)
			check(t, sbox.DeleteReq{Space: space, Return: ret, Key: v}, 21, want, fmt.Sprintf("%+v", v))
			c.Class("delete")
			c.NonTrivial("d" + string(want))
			return
		}
		mi := rapid.IntRange(0, 2).Draw(t, "mode")
		mode := []sbox.InsertMode{sbox.InsertOrReplace, sbox.Insert, sbox.Replace}[mi]
		flags |= []uint32{0, 2, 4}[mi]
		want := append(u32(u32(nil, space), flags), tup...)
		check(t, sbox.StoreReq{Space: space, Return: ret, Mode: uint16(mode), Tuple: v}, 13, want, fmt.Sprintf("%+v", v))
		c.Class(fmt.Sprintf("store mode %d return %v", mode, ret))
		c.NonTrivial("s" + string(want))
		c.Sample("store %+v mode %d -> % x", v, mode, want)
	})
}

var codes = []struct {
	k    sbox.OpKind
	code byte
}{{sbox.OpSet, 0}, {sbox.OpAdd, 1}, {sbox.OpAnd, 2}, {sbox.OpOr, 3}, {sbox.OpXor, 4}, {sbox.OpSplice, 5}, {sbox.OpDelete, 6}, {sbox.OpInsert, 7}}

func TestUpdate(t *testing.T) {
	h.Run(t, "an update with 0-6 operations of all kinds and operand types; non-trivial with at least one operation; distinct by bytes", 6000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 3000}
		v, tup := tuple(t, g)
		u := sbox.UpdateReq{Space: num(t, "space"), Return: rapid.Bool().Draw(t, "return"), Key: v}
		var flags uint32
		if u.Return {
			flags = 1
		}
		n := rapid.IntRange(0, 6).Draw(t, "nops")
		want := append(u32(u32(nil, u.Space), flags), tup...)
		want = ref.AppendPrefix(want, ref.I32, n)
		for i := 0; i < n; i++ {
			op := rapid.SampledFrom(codes).Draw(t, "op")
			o := sbox.Op{Field: num(t, "field"), Op: op.k}
			if rapid.IntRange(0, 3).Draw(t, "numeric") == 0 {
				o.Op = sbox.OpKind(op.code)
				c.Class("numeric operation code")
			}
			want = append(u32(want, o.Field), op.code)
			kind := rapid.IntRange(0, 5).Draw(t, "operand")
			switch {
			case op.k == sbox.OpDelete && kind < 3:
				c.Class("delete without operand")
				want = append(want, 0)
			case op.k == sbox.OpSplice && kind < 3:
				s := sbox.Slice{Offset: int32(num(t, "off")), Length: int32(num(t, "len"))}
				body := append([]byte{4}, u32(nil, uint32(s.Offset))...)
				body = u32(append(body, 4), uint32(s.Length))
				x := g.Value(reflect.TypeOf([]interface{}{"", []byte{}, nStr(""), uint32(0)}[rapid.IntRange(0, 3).Draw(t, "ins")]))
				s.Val = x.Interface()
				body = ref.EncField(body, x, false)
				want = append(ref.AppendVar(want, uint64(len(body))), body...)
				o.Val = s
				if rapid.Bool().Draw(t, "byptr") {
					o.Val = &s
				}
				c.Class("splice")
			case kind == 5:
				x := g.Value(ref.GenType(t, 1))
				o.Val = x.Addr().Interface()
				want = ref.EncField(want, x, false)
			default:
				x := g.Value(reflect.TypeOf([]interface{}{uint32(0), int32(0), uint64(0), int64(0), "", []byte{}, uint8(0), int16(0), float32(0), float64(0), nStr(""), nInt(0), nArr{}, []uint16{}}[rapid.IntRange(0, 13).Draw(t, "optype")]))
				o.Val = x.Interface()
				want = ref.EncField(want, x, false)
				c.Class("operand " + x.Type().String())
			}
			u.Ops = append(u.Ops, o)
			c.Class("op " + string(rune(op.k)))
		}
		check(t, u, 19, want, fmt.Sprintf("%+v", u))
		if n > 0 {
			c.NonTrivial(string(want))
			c.Sample("%+v -> % x", u, want)
		}
	})
}

func TestCall(t *testing.T) {
	h.Run(t, "a procedure call with 0-8 arguments; non-trivial with arguments; distinct by bytes", 4000, func(t *rapid.T, c *h.Case) {
		str := func(what string) string {
			n := rapid.SampledFrom([]int{0, 1, 2, 5, 127, 128, 129, 300, 16383, 16384}).Draw(t, what)
			return string(ref.Bytes(t, n))
		}
		r := sbox.RPCReq{Name: str("name")}
		n := rapid.IntRange(0, 8).Draw(t, "n")
		want := u32(nil, 0)
		want = append(ref.AppendVar(want, uint64(len(r.Name))), r.Name...)
		want = ref.AppendPrefix(want, ref.I32, n)
		for i := 0; i < n; i++ {
			a := str("arg")
			r.Args = append(r.Args, a)
			want = append(ref.AppendVar(want, uint64(len(a))), a...)
		}
		check(t, r, 22, want, fmt.Sprintf("%d args", n))
		if n > 0 {
			c.NonTrivial(string(want))
			c.Sample("%d args, %d bytes", n, len(want))
		}
	})
}
