package c01

import (
	"fmt"
	"reflect"
	"testing"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto/marshal"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

// encode writes the value by one of the equivalent ways.
func encode(t *rapid.T, v reflect.Value, tail bool) []byte {
	way := rapid.IntRange(0, 3).Draw(t, "way")
	if ref.HasAddr(v.Type()) {
		way |= 1
	}
	var w marshal.Writer
	if tail {
		switch way {
		case 0:
			return marshal.WriteTail(v.Interface())
		case 1:
			return marshal.WriteTail(v.Addr().Interface())
		case 2:
			w.WriteTail(v.Interface())
		case 3:
			w.WriteTail(v.Addr().Interface())
		}
		return w.Written()
	}
	switch way {
	case 0:
		return marshal.Write(v.Interface())
	case 1:
		return marshal.Write(v.Addr().Interface())
	case 2:
		w.Write(v.Interface())
	case 3:
		w.WriteValue(v)
	}
	return w.Written()
}

// fresh is a variable to decode into: an empty one, or one that held another value.
func fresh(t *rapid.T, c *h.Case, g *ref.Gen, rt reflect.Type) reflect.Value {
	p := reflect.New(rt)
	if rapid.IntRange(0, 2).Draw(t, "used") == 0 {
		b := g.Budget
		g.Budget = 200
		p.Elem().Set(g.Value(rt))
		g.Budget = b
		c.Class("into a used variable")
	}
	return p
}

func classify(c *h.Case, rt reflect.Type, g *ref.Gen, b []byte) {
	c.Class("kind:" + rt.Kind().String())
	c.ClassIf(len(b) > 512, "bigger than the default buffer")
	c.ClassIf(g.Boundary > 0, "length at an encoding boundary")
	c.ClassIf(ref.NeedsTail(rt), "open-ended struct")
	c.ClassIf(ref.HasAddr(rt), "pointer-receiver encoder inside")
}

// TestRoundTrip: decode(encode(v)) == v, all bytes consumed, for a sequence of
// values of one generated type written one after another.
func TestRoundTrip(t *testing.T) {
	h.Run(t, "a generated type with 1-4 generated values; non-trivial if the encoding has at least 2 bytes; distinct by type and bytes", 9000, func(t *rapid.T, c *h.Case) {
		rt, tail := ref.GenTop(t, 3)
		g := &ref.Gen{T: t, Budget: 100000}
		n := 1
		if !tail {
			n = rapid.IntRange(1, 4).Draw(t, "n")
		}
		var vals []reflect.Value
		var all []byte
		for i := 0; i < n; i++ {
			v := g.Value(rt)
			b := encode(t, v, tail)
			vals = append(vals, v)
			all = append(all, b...)
			got := fresh(t, c, g, rt)
			var err error
			if tail {
				err = marshal.ReadTail(b, got.Interface())
			} else {
				err = marshal.Read(b, got.Interface())
			}
			if err != nil {
				t.Fatalf("decoding %s from % x: %v", ref.Show(v), b, err)
			}
			if !ref.Equal(got.Elem(), v) {
				t.Fatalf("wrote %s as % x, read %s", ref.Show(v), b, ref.Show(got.Elem()))
			}
		}
		if !tail {
			r := &marshal.Reader{Body: all}
			for _, v := range vals {
				got := fresh(t, c, g, rt)
				var err error
				if rapid.Bool().Draw(t, "byvalue") {
					err = r.ReadValueAuto(got.Elem())
				} else {
					err = r.Read(got.Interface())
				}
				if err != nil || !ref.Equal(got.Elem(), v) {
					t.Fatalf("in a sequence: wrote %s, read %s, err %v", ref.Show(v), ref.Show(got.Elem()), err)
				}
			}
			if len(r.Body) != 0 || !r.Done() || r.Error() != nil {
				t.Fatalf("%d values of %v: % x left of % x (%v)", n, rt, r.Body, all, r.Error())
			}
		}
		classify(c, rt, g, all)
		if len(all) >= 2 {
			c.NonTrivial(rt.String() + string(all))
			c.Sample("%d value(s) of %s -> % x", n, ref.Show(vals[0]), all)
		}
	})
}

// TestSlicesTail: the tail form of slices and strings.
func TestTail(t *testing.T) {
	h.Run(t, "a slice or string in its whole-buffer form; non-trivial if not empty", 3000, func(t *rapid.T, c *h.Case) {
		rt := ref.GenType(t, 2)
		if rt.Kind() != reflect.Slice && rt.Kind() != reflect.String || ref.Customs[rt] != nil {
			if ref.MayBeEmpty(rt) {
				rt = reflect.TypeOf(uint16(0))
			}
			rt = reflect.SliceOf(rt)
		}
		g := &ref.Gen{T: t, Budget: 100000}
		v := g.Value(rt)
		b := encode(t, v, true)
		got := fresh(t, c, g, rt)
		if err := marshal.ReadTail(b, got.Interface()); err != nil {
			t.Fatalf("tail form of %s from % x: %v", ref.Show(v), b, err)
		}
		if !ref.Equal(got.Elem(), v) {
			t.Fatalf("tail form of %s is % x, read %s", ref.Show(v), b, ref.Show(got.Elem()))
		}
		classify(c, rt, g, b)
		if len(b) > 0 {
			c.NonTrivial(rt.String() + string(b))
			c.Sample("tail %s -> % x", ref.Show(v), b)
		}
	})
}

// TestSized: the with-size forms.
func TestSized(t *testing.T) {
	h.Run(t, "1-3 values of generated types behind explicit size prefixes; non-trivial if any has at least one byte", 4000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 100000}
		var w marshal.Writer
		type item struct {
			v reflect.Value
			p ref.Prefix
		}
		var items []item
		body := 0
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
			rt, _ := ref.GenTop(t, 2)
			v := g.Value(rt)
			l := len(ref.Enc(nil, v, false, false))
			body += l
			p := ref.Prefixes[rapid.IntRange(0, 4).Draw(t, "prefix")]
			if l > p.Max() {
				p = ref.Ber
			}
			items = append(items, item{v, p})
			if rapid.Bool().Draw(t, "byvalue") {
				w.WriteValueWithSize(v, ref.WrPrefix[p])
			} else if ref.HasAddr(rt) {
				w.WriteWithSize(v.Addr().Interface(), ref.WrPrefix[p])
			} else {
				w.WriteWithSize(v.Interface(), ref.WrPrefix[p])
			}
		}
		b := w.Written()
		r := marshal.Reader{Body: b}
		for _, it := range items {
			got := fresh(t, c, g, it.v.Type())
			var err error
			if rapid.Bool().Draw(t, "byvalue2") {
				err = r.ReadValueWithSize(got.Elem(), ref.RdPrefix[it.p])
			} else {
				err = r.ReadWithSize(got.Interface(), ref.RdPrefix[it.p])
			}
			if err != nil || !ref.Equal(got.Elem(), it.v) {
				t.Fatalf("with size(%s): wrote %s, read %s, err %v", it.p, ref.Show(it.v), ref.Show(got.Elem()), err)
			}
			c.Class("prefix " + string(it.p))
		}
		if len(r.Body) != 0 {
			t.Fatalf("% x left of % x", r.Body, b)
		}
		if body > 0 {
			c.NonTrivial(string(b))
			c.Sample("%s with size(%s) ... -> % x", ref.Show(items[0].v), items[0].p, b)
		}
	})
}

// TestOps: low-level writer methods against the matching reader methods.
func TestOps(t *testing.T) {
	h.Run(t, "a sequence of 1-20 low-level writes read back by the matching reads; non-trivial with at least 2 operations", 4000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 100000}
		w := &marshal.Writer{DefSize: rapid.SampledFrom([]int{0, 1, 8, 64, 600}).Draw(t, "defsize")}
		var ops []ref.Op
		name := ""
		for i, n := 0, rapid.IntRange(1, 20).Draw(t, "n"); i < n; i++ {
			op := ref.GenOp(g)
			op.W(w)
			ops = append(ops, op)
			name += op.Name + " "
		}
		b := w.Written()
		r := &marshal.Reader{Body: b}
		for _, op := range ops {
			if got, want := op.R(r); r.Err != nil || !ref.Same(got, want) {
				t.Fatalf("%s: wrote %v, read %v, err %v (sequence %s)", op.Name, want, got, r.Err, name)
			}
		}
		if !r.Done() {
			t.Fatalf("% x left of % x (sequence %s)", r.Body, b, name)
		}
		c.ClassIf(len(b) > 512, "buffer grew")
		if len(ops) > 1 {
			c.NonTrivial(name + string(b))
			c.Sample("%s", name)
		}
	})
}

// TestLists: heterogeneous lists of values.
func TestLists(t *testing.T) {
	h.Run(t, "a []interface{} / []IWriter / []IShortWriter of 0-5 values, in both forms; non-trivial with at least 2 elements", 3000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 50000}
		n := rapid.IntRange(0, 5).Draw(t, "n")
		kind := rapid.IntRange(0, 2).Draw(t, "kind")
		tail := rapid.Bool().Draw(t, "tail")
		var vals []reflect.Value
		var dst []reflect.Value
		desc := ""
		for i := 0; i < n; i++ {
			var rt reflect.Type
			switch kind {
			case 0:
				rt = ref.GenType(t, 2)
				if ref.Counted(rt) {
					rt = reflect.TypeOf("")
				}
			case 1:
				rt = []reflect.Type{reflect.TypeOf(ref.CVal{}), reflect.TypeOf(ref.CPtr{})}[rapid.IntRange(0, 1).Draw(t, "lc")]
			default:
				rt = []reflect.Type{reflect.TypeOf(ref.CShort{}), reflect.TypeOf(ref.CShortP{}), reflect.TypeOf(ref.CVar{})}[rapid.IntRange(0, 2).Draw(t, "sc")]
			}
			vals = append(vals, g.Value(rt))
			dst = append(dst, fresh(t, c, g, rt))
			desc += ref.Show(vals[i]) + "; "
		}
		// sources as interfaces: by pointer where the encoder needs it
		src := func(v reflect.Value) interface{} {
			if ref.HasAddr(v.Type()) || rapid.Bool().Draw(t, "ptr") {
				return v.Addr().Interface()
			}
			return v.Interface()
		}
		var in, out, outp interface{}
		switch kind {
		case 0:
			l, o := make([]interface{}, n), make([]interface{}, n)
			for i := range l {
				l[i], o[i] = src(vals[i]), dst[i].Interface()
			}
			in, out, outp = l, o, &o
		case 1:
			l, o := make([]marshal.IWriter, n), make([]marshal.IReader, n)
			for i := range l {
				l[i], o[i] = src(vals[i]).(marshal.IWriter), dst[i].Interface().(marshal.IReader)
			}
			in, out, outp = l, o, &o
		default:
			l, o := make([]marshal.IShortWriter, n), make([]marshal.IShortReader, n)
			for i := range l {
				l[i], o[i] = src(vals[i]).(marshal.IShortWriter), dst[i].Interface().(marshal.IShortReader)
			}
			in, out, outp = l, o, &o
		}
		var b []byte
		var err error
		if tail {
			b = marshal.WriteTail(in)
			err = marshal.ReadTail(b, out)
		} else {
			b = marshal.Write(in)
			r := marshal.Reader{Body: b}
			err = r.Read(outp)
			if err == nil && len(r.Body) != 0 {
				err = fmt.Errorf("% x left", r.Body)
			}
		}
		if err != nil {
			t.Fatalf("list of %s from % x: %v", desc, b, err)
		}
		for i := range vals {
			if !ref.Equal(dst[i].Elem(), vals[i]) {
				t.Fatalf("list element %d: wrote %s, read %s", i, ref.Show(vals[i]), ref.Show(dst[i].Elem()))
			}
		}
		c.Class(fmt.Sprintf("list kind %d tail %v", kind, tail))
		if n > 1 {
			c.NonTrivial(fmt.Sprint(kind, tail) + string(b))
			c.Sample("list of %s", desc)
		}
	})
}
