package c05

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

// arg is the value as it is given to the package: by pointer if an encoder needs that.
func arg(t *rapid.T, v reflect.Value) interface{} {
	if ref.HasAddr(v.Type()) || rapid.Bool().Draw(t, "byptr") {
		return v.Addr().Interface()
	}
	return v.Interface()
}

func classify(c *h.Case, rt reflect.Type) {
	c.Class("kind " + rt.Kind().String())
	if k := ref.TailKind(rt); k != "" {
		c.Class(k)
	}
	c.ClassIf(ref.BytesLike(rt), "bytes")
	c.ClassIf(ref.HasPrefixTag(rt), "iproto tags inside")
}

// read decodes by one of the entry points. The tuple may be followed by other data.
func read(t *rapid.T, b []byte, p interface{}) error {
	if rapid.Bool().Draw(t, "sized") {
		in := append(ref.AppendPrefix(nil, ref.I32, len(b)-4), b...)
		in = append(in, 1, 2, 3)
		r := &marshal.Reader{Body: in}
		err := sbox.ReadSizedTuple(r, p)
		if err == nil && string(r.Body) != "\x01\x02\x03" {
			t.Fatalf("ReadSizedTuple left % x of % x", r.Body, in)
		}
		return err
	}
	r := &marshal.Reader{Body: append([]byte{}, b...)}
	err := sbox.ReadRawTuple(r, p)
	if err != r.Err {
		t.Fatalf("returned %v, reader has %v", err, r.Err)
	}
	return err
}

// TestRoundTrip: the bytes are the tuple format's, and reading gives the value back.
func TestRoundTrip(t *testing.T) {
	h.Run(t, "a generated tuple type and value, written and read back; non-trivial if the tuple has at least one non-empty field; distinct by type and bytes", 9000, func(t *rapid.T, c *h.Case) {
		rt := ref.GenTuple(t, 2)
		g := &ref.Gen{T: t, Budget: 20000}
		v := g.Value(rt)
		want := ref.EncTuple(nil, v)
		w := &marshal.Writer{}
		before := ref.Bytes(t, rapid.IntRange(0, 3).Draw(t, "before"))
		w.Bytes(before)
		sbox.WriteTuple(w, arg(t, v))
		b := w.Written()
		if !bytes.Equal(b, append(before, want...)) {
			t.Fatalf("tuple of %s\n is   % x\n want % x", ref.Show(v), b[len(before):], want)
		}
		got := reflect.New(rt)
		if err := read(t, want, got.Interface()); err != nil {
			t.Fatalf("reading the tuple % x of %s: %v", want, ref.Show(v), err)
		}
		if !ref.Equal(got.Elem(), v) {
			t.Fatalf("wrote %s as % x, read %s", ref.Show(v), want, ref.Show(got.Elem()))
		}
		classify(c, rt)
		if len(want) > 5 {
			c.NonTrivial(rt.String() + string(want))
			c.Sample("%s <-> % x", ref.Show(v), want)
		}
	})
}

// TestOtherCount: struct and array tuples with fewer or more fields than the
// destination, into a destination that already has a value.
func TestOtherCount(t *testing.T) {
	h.Run(t, "a tuple with fields removed from or added to its end, read into a struct or array that holds another value; non-trivial if the count differs; distinct by type and bytes", 6000, func(t *rapid.T, c *h.Case) {
		var rt reflect.Type
		if rapid.IntRange(0, 5).Draw(t, "array") == 0 {
			rt = ref.GenTuple(t, 2)
		} else {
			rt = ref.GenTupleStruct(t, 2)
		}
		g := &ref.Gen{T: t, Budget: 3000}
		v := g.Value(rt)
		flds := ref.TupleFields(v)
		n := len(flds)
		switch k := rapid.IntRange(0, 2).Draw(t, "change"); {
		case k > 0 && n > 0:
			flds = flds[:rapid.IntRange(0, n-1).Draw(t, "keep")]
		default:
			for i := rapid.IntRange(1, 4).Draw(t, "extra"); i > 0; i-- {
				x := ref.Bytes(t, rapid.SampledFrom([]int{0, 1, 4, 7, 130}).Draw(t, "extralen"))
				flds = append(flds, append(ref.AppendVar(nil, uint64(len(x))), x...))
			}
		}
		b := ref.AppendPrefix(nil, ref.I32, len(flds))
		for _, f := range flds {
			b = append(b, f...)
		}
		got, want := reflect.New(rt), reflect.New(rt)
		if rapid.Bool().Draw(t, "prefilled") {
			// the same draws twice: equal values that share nothing
			pre := g.Value(rt)
			copyInto(got.Elem(), pre)
			copyInto(want.Elem(), pre)
			c.Class("prefilled")
		}
		_, werr := ref.DecTuple(b, want.Elem())
		err := read(t, b, got.Interface())
		compare(t, c, fmt.Sprintf("%d fields instead of %d for %v: % x", len(flds), n, rt, b), err, werr, got.Elem(), want.Elem())
		classify(c, rt)
		if len(flds) != n {
			c.ClassIf(len(flds) < n, "fewer")
			c.ClassIf(len(flds) > n, "more")
			c.NonTrivial(rt.String() + string(b))
			c.Sample("%d fields instead of %d into %v: err %v", len(flds), n, rt, err)
		}
	})
}

func compare(t *rapid.T, c *h.Case, desc string, err, werr error, got, want reflect.Value) {
	switch {
	case werr == ref.ErrUnspec:
		c.Class("unspecified")
	case werr != nil:
		c.Class("must fail")
		if err == nil {
			t.Fatalf("no error (want %v), got %s: %s", werr, ref.Show(got), desc)
		}
	default:
		c.Class("must succeed")
		if err != nil {
			t.Fatalf("error %v, want %s: %s", err, ref.Show(want), desc)
		}
		if !ref.Equal(got, want) {
			t.Fatalf("got %s, want %s: %s", ref.Show(got), ref.Show(want), desc)
		}
	}
}

func copyInto(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Slice:
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i))
		}
	case reflect.Ptr:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		dst.Set(reflect.New(src.Type().Elem()))
		copyInto(dst.Elem(), src.Elem())
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			if src.Type().Field(i).PkgPath == "" {
				copyInto(dst.Field(i), src.Field(i))
			}
		}
	default:
		dst.Set(src)
	}
}

// TestByValue: a destination that cannot be resized, with places behind its
// pointers and slices.
func TestByValue(t *testing.T) {
	h.Run(t, "a tuple of 0-12 fields, followed by other bytes, read into a struct given by value: pointers, fixed slices and a tail or split tail of a fixed length; non-trivial if the count differs from the number of places; distinct by type and bytes", 4000, func(t *rapid.T, c *h.Case) {
		scal := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(ref.NI64(0))}
		draw := func() reflect.Type { return scal[rapid.IntRange(0, len(scal)-1).Draw(t, "scalar")] }
		g := &ref.Gen{T: t, Budget: 3000}
		var flds []reflect.StructField
		var lens []int
		add := func(rt reflect.Type, tag reflect.StructTag, l int) {
			flds = append(flds, reflect.StructField{Name: fmt.Sprintf("F%d", len(flds)), Type: rt, Tag: tag})
			lens = append(lens, l)
		}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
			if rapid.Bool().Draw(t, "slice") {
				add(reflect.SliceOf(draw()), "", rapid.IntRange(0, 3).Draw(t, "len"))
			} else {
				add(reflect.PtrTo(draw()), "", -1)
			}
		}
		group := 0
		room := rapid.IntRange(0, 4).Draw(t, "room")
		switch rapid.IntRange(0, 4).Draw(t, "tail") {
		case 0, 1:
			group = 1
			el := draw()
			if rapid.Bool().Draw(t, "strings") {
				el = reflect.TypeOf("")
			}
			add(reflect.SliceOf(el), `sbox:"tail"`, room)
		case 2, 3:
			group = rapid.IntRange(1, 3).Draw(t, "group")
			var in []reflect.StructField
			for j := 0; j < group; j++ {
				in = append(in, reflect.StructField{Name: fmt.Sprintf("G%d", j), Type: draw()})
			}
			add(reflect.SliceOf(reflect.StructOf(in)), `sbox:"tailsplit"`, room)
		default:
			room = 0
		}
		rt := reflect.StructOf(flds)
		dst := reflect.New(rt).Elem()
		// the places in order, what each of them holds before, and what comes
		var places, src []reflect.Value
		for i, f := range flds {
			fv := dst.Field(i)
			tail := group > 0 && i == len(flds)-1
			switch {
			case lens[i] < 0:
				fv.Set(reflect.New(f.Type.Elem()))
				fv.Elem().Set(g.Value(f.Type.Elem()))
				places = append(places, fv.Elem())
			case !tail:
				fv.Set(reflect.MakeSlice(f.Type, lens[i], lens[i]))
				places = append(places, fv)
			default:
				fv.Set(reflect.MakeSlice(f.Type, room, room))
				for j := 0; j < room; j++ {
					if fv.Index(j).Kind() != reflect.Struct {
						places = append(places, fv.Index(j))
						continue
					}
					for k := 0; k < group; k++ {
						places = append(places, fv.Index(j).Field(k))
					}
				}
			}
		}
		k := rapid.IntRange(0, len(places)+3).Draw(t, "count")
		b := ref.AppendPrefix(nil, ref.I32, k)
		for i := 0; i < k; i++ {
			if i >= len(places) {
				x := ref.Bytes(t, rapid.IntRange(0, 9).Draw(t, "extralen"))
				b = append(ref.AppendVar(b, uint64(len(x))), x...)
				continue
			}
			p := places[i]
			v := reflect.New(p.Type()).Elem()
			if p.Kind() == reflect.Slice {
				v.Set(reflect.MakeSlice(p.Type(), p.Len(), p.Len()))
				for j := 0; j < p.Len(); j++ {
					v.Index(j).Set(g.Value(p.Type().Elem()))
				}
			} else {
				v.Set(g.Value(p.Type()))
			}
			src = append(src, v)
			b = ref.EncField(b, v, false)
		}
		for i := len(src); i < len(places); i++ {
			v := reflect.New(places[i].Type()).Elem()
			copyInto(v, places[i])
			src = append(src, v)
		}
		after := ref.Bytes(t, rapid.SampledFrom([]int{0, 1, 20}).Draw(t, "after"))
		r := &marshal.Reader{Body: append(append([]byte{}, b...), after...)}
		if err := sbox.ReadRawTuple(r, dst.Interface()); err != nil {
			t.Fatalf("%d fields for %d places of %v from % x: %v", k, len(places), rt, b, err)
		}
		for i := range places {
			if !ref.Equal(places[i], src[i]) {
				t.Fatalf("place %d of %v is %s, want %s, %d fields from % x", i, rt, ref.Show(places[i]), ref.Show(src[i]), k, b)
			}
		}
		c.ClassIf(group > 1, "split tail by value")
		c.ClassIf(group == 1, "tail by value")
		c.ClassIf(k < len(places), "fewer by value")
		if k != len(places) {
			c.NonTrivial(rt.String() + string(b))
			c.Sample("%d fields for %d places of %v", k, len(places), rt)
		}
	})
}

// TestMalformed: arbitrary bytes.
func TestMalformed(t *testing.T) {
	h.Run(t, "a mutated tuple or noise read into a generated type; all non-trivial; distinct by type and bytes", 10000, func(t *rapid.T, c *h.Case) {
		rt := ref.GenTuple(t, 2)
		g := &ref.Gen{T: t, Budget: 2000}
		b := ref.EncTuple(nil, g.Value(rt))
		what := "noise"
		if rapid.IntRange(0, 9).Draw(t, "noise") == 0 {
			b = ref.Bytes(t, rapid.IntRange(0, 40).Draw(t, "noiselen"))
		} else {
			b, what = ref.Mutate(t, b)
		}
		desc := fmt.Sprintf("%s% x into %v", what, b, rt)
		got, want := reflect.New(rt), reflect.New(rt)
		_, werr := ref.DecTuple(b, want.Elem())
		sized := rapid.Bool().Draw(t, "sized")
		in := append([]byte{}, b...)
		if sized && len(b) >= 4 {
			sz := uint32(len(b) - 4)
			switch rapid.IntRange(0, 5).Draw(t, "badsize") {
			case 0:
				sz = rapid.SampledFrom([]uint32{0xffffffff, 0x7fffffff, sz + 1, sz + 9}).Draw(t, "size")
				werr = ref.ErrShort
			case 1:
				// the reader must not look beyond the declared size
				k := rapid.IntRange(0, int(sz)).Draw(t, "smaller")
				sz = uint32(k)
				want = reflect.New(rt)
				_, werr = ref.DecTuple(b[:4+k], want.Elem())
			}
			in = append(ref.AppendPrefix(nil, ref.I32, int(sz)), b...)
			desc = fmt.Sprintf("size %d, %s", sz, desc)
		} else {
			sized = false
		}
		r := &marshal.Reader{Body: in}
		var err error
		sbox.ReadRawTuple(&marshal.Reader{}, reflect.New(rt).Interface()) // compile the type
		alloc := h.Allocated(func() {
			if sized {
				err = sbox.ReadSizedTuple(r, got.Interface())
			} else {
				err = sbox.ReadRawTuple(r, got.Interface())
			}
		})
		if limit := 256<<10 + uint64(len(b)+16)*(200+16*ref.MaxElem(rt)); alloc > limit {
			t.Fatalf("%d bytes allocated %d (limit %d): %s", len(b), alloc, limit, desc)
		}
		compare(t, c, desc, err, werr, got.Elem(), want.Elem())
		classify(c, rt)
		c.NonTrivial(rt.String() + string(in))
		c.Sample("%s: err %v", desc, err)
	})
}

// TestLists: tuples given and taken as lists of single fields.
func TestLists(t *testing.T) {
	h.Run(t, "a []interface{} of 0-6 values written as a tuple and read into a list of pointers, a fixed slice or raw fields; non-trivial with at least 2 fields", 5000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 3000}
		n := rapid.IntRange(0, 6).Draw(t, "n")
		var list, ptrs, fresh []interface{}
		var olds []string
		var vals []reflect.Value
		want := ref.AppendPrefix(nil, ref.I32, n)
		for i := 0; i < n; i++ {
			rt := ref.GenType(t, 1)
			if ref.Counted(rt) {
				rt = reflect.TypeOf(uint32(0))
			}
			v := g.Value(rt)
			vals = append(vals, v)
			list = append(list, arg(t, v))
			ptrs = append(ptrs, v.Addr().Interface())
			old := reflect.New(rt)
			if rapid.Bool().Draw(t, "prefilled") {
				old.Elem().Set(g.Value(rt))
			}
			olds = append(olds, ref.Show(old.Elem()))
			fresh = append(fresh, old.Interface())
			want = ref.EncField(want, v, false)
		}
		w := &marshal.Writer{}
		way := rapid.IntRange(0, 2).Draw(t, "way")
		switch way {
		case 0:
			sbox.WriteTuple(w, list)
		case 1:
			sbox.WriteTuple(w, &list)
		case 2:
			sbox.WriteTuple(w, ptrs)
		}
		b := w.Written()
		if n == 0 && way == 2 {
			c.Class("empty")
		}
		if !bytes.Equal(b, want) {
			t.Fatalf("way %d: list tuple\n is   % x\n want % x", way, b, want)
		}
		// more fields than asked for are ignored, fewer are an error
		k := n
		if n > 0 && rapid.Bool().Draw(t, "part") {
			k = rapid.IntRange(0, n-1).Draw(t, "k")
		}
		if err := read(t, want, fresh[:k:k]); err != nil {
			t.Fatalf("reading %d of %d fields of % x: %v", k, n, want, err)
		}
		for i := 0; i < n; i++ {
			got := reflect.ValueOf(fresh[i])
			switch {
			case i >= k:
				if ref.Show(got.Elem()) != olds[i] {
					t.Fatalf("field %d was not asked for and changed", i)
				}
			case !ref.Equal(got.Elem(), vals[i]):
				t.Fatalf("field %d of % x: got %s, want %s", i, want, ref.Show(got.Elem()), ref.Show(vals[i]))
			}
		}
		if err := read(t, want, append(fresh[:n:n], new(uint32))); err == nil {
			t.Fatalf("no error when reading %d fields of a tuple of %d", n+1, n)
		}
		if n > 0 {
			hole := append([]interface{}{}, fresh[:n]...)
			hole[rapid.IntRange(0, n-1).Draw(t, "hole")] = nil
			read(t, want, hole) // whatever it gives, it does not panic
		}
		var raw [][]byte
		if err := read(t, want, &raw); err != nil || len(raw) != n {
			t.Fatalf("raw fields of % x: %d of %d, %v", want, len(raw), n, err)
		}
		for i := range raw {
			if !bytes.Equal(raw[i], ref.Enc(nil, vals[i], false, false)) {
				t.Fatalf("raw field %d of % x is % x", i, want, raw[i])
			}
		}
		fix := make([]string, k)
		if err := read(t, want, fix); err != nil {
			t.Fatalf("%d strings from % x: %v", k, want, err)
		}
		for i := range fix {
			if fix[i] != string(raw[i]) {
				t.Fatalf("string %d of % x is %q", i, want, fix[i])
			}
		}
		c.Class(fmt.Sprintf("way %d", way))
		if n >= 2 {
			c.NonTrivial(string(want))
			c.Sample("%d fields % x", n, want)
		}
	})
}
