package c04

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"
	"sync/atomic"
	"testing"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

// Nest is a type whose encoder uses the package itself.
type Nest struct {
	A uint32
	L []uint16
	S string
}

func (n Nest) IWrite(w *marshal.Writer) {
	b := marshal.Write(n.L)
	c := marshal.WriteTail(n.S)
	w.Uint32(n.A)
	w.IntUint32(len(b))
	w.Bytes(b)
	w.WriteWithSize(n.S, (*marshal.Writer).Intvar)
	w.Bytes(c[:0])
}

func (n Nest) enc() []byte {
	b := ref.AppendPrefix(nil, ref.I32, int(n.A))
	b = ref.AppendPrefix(b, ref.I32, 4+2*len(n.L))
	b = ref.AppendPrefix(b, ref.I32, len(n.L))
	for _, x := range n.L {
		b = ref.AppendPrefix(b, ref.I16, int(x))
	}
	b = ref.AppendPrefix(b, ref.Ber, len(n.S))
	return append(b, n.S...)
}

// item is a value with all its reference encodings.
type item struct {
	how  string
	do   func(w *marshal.Writer) // writes to a writer
	pool func() []byte           // nil, or by the package's own writers
	want []byte
	v    reflect.Value // invalid, or the value that was encoded
}

func iface(v reflect.Value, ptr bool) interface{} {
	if ptr || ref.HasAddr(v.Type()) {
		return v.Addr().Interface()
	}
	return v.Interface()
}

// newItem draws something to encode.
func newItem(t *rapid.T, g *ref.Gen, fresh func(reflect.Type) reflect.Type) item {
	ptr := rapid.Bool().Draw(t, "ptr")
	switch k := rapid.IntRange(0, 13).Draw(t, "item"); {
	case k < 6:
		rt, _ := ref.GenTop(t, 2)
		v := g.Value(fresh(rt))
		switch rapid.IntRange(0, 3).Draw(t, "entry") {
		case 0:
			return item{"Write", func(w *marshal.Writer) { w.Write(iface(v, ptr)) }, func() []byte { return marshal.Write(iface(v, ptr)) }, ref.Enc(nil, v, true, false), v}
		case 1:
			return item{"WriteTail", func(w *marshal.Writer) { w.WriteTail(iface(v, ptr)) }, func() []byte { return marshal.WriteTail(iface(v, ptr)) }, ref.Enc(nil, v, false, false), v}
		case 2:
			bare := ref.Enc(nil, v, false, false)
			return item{"WriteWithSize", func(w *marshal.Writer) { w.WriteWithSize(iface(v, ptr), (*marshal.Writer).IntUint32) }, nil, append(ref.AppendPrefix(nil, ref.I32, len(bare)), bare...), v}
		}
		return item{"WriterFor", func(w *marshal.Writer) { marshal.WriterFor(v.Type()).WriteAuto(w, v) }, nil, ref.Enc(nil, v, true, false), v}
	case k < 8:
		rt := fresh(ref.GenTuple(t, 2))
		v := g.Value(rt)
		return item{"WriteTuple", func(w *marshal.Writer) { sbox.WriteTuple(w, iface(v, ptr)) }, nil, ref.EncTuple(nil, v), v}
	case k < 10:
		n := Nest{A: uint32(ref.Uint(t, 32)), S: string(ref.Bytes(t, rapid.IntRange(0, 20).Draw(t, "s")))}
		for i := rapid.IntRange(0, 4).Draw(t, "l"); i > 0; i-- {
			n.L = append(n.L, uint16(ref.Uint(t, 16)))
		}
		l := []Nest{n, n}
		if ptr {
			return item{"[]Nest", func(w *marshal.Writer) { w.WriteTail(l) }, func() []byte { return marshal.WriteTail(l) }, append(n.enc(), n.enc()...), reflect.Value{}}
		}
		return item{"Nest", func(w *marshal.Writer) { w.Write(n) }, func() []byte { return marshal.Write(n) }, n.enc(), reflect.Value{}}
	case k < 11:
		// raw byte slices and strings, the likeliest to be shared; with spare capacity
		b := append(make([]byte, 0, 2000), ref.Bytes(t, rapid.SampledFrom([]int{0, 1, 5, 100, 511, 512, 513, 1500}).Draw(t, "len"))...)
		return item{"[]byte tail", func(w *marshal.Writer) { w.WriteTail(b) }, func() []byte { return marshal.WriteTail(b) }, append([]byte{}, b...), reflect.ValueOf(&b).Elem()}
	case k < 12:
		b := append(make([]byte, 0, 2000), ref.Bytes(t, rapid.SampledFrom([]int{0, 1, 5, 100, 511, 512, 513, 1500}).Draw(t, "len"))...)
		return item{"Bytes", func(w *marshal.Writer) { w.Bytes(b) }, nil, append([]byte{}, b...), reflect.ValueOf(&b).Elem()}
	}
	op := ref.GenOp(g)
	return item{op.Name, op.W, nil, op.Bytes, reflect.Value{}}
}

// scramble overwrites in place everything reachable from v, except what cannot
// be written to.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
		if v.Kind() == reflect.Slice && v.CanSet() && v.Type().Elem().Kind() == reflect.Uint8 {
			for b := v.Slice(v.Len(), v.Cap()); b.Len() > 0; b = b.Slice(1, b.Len()) {
				b.Index(0).SetUint(0xee)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i))
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 1)
	case reflect.String:
		v.SetString(v.String() + "!")
	}
}

type out struct {
	how       string
	b, pinned []byte
}

func (o *out) check(t h.Fataler, after string) {
	if !bytes.Equal(o.b, o.pinned) {
		t.Fatalf("output of %s changed after %s\n from % x\n to   % x", o.how, after, clip(o.pinned), clip(o.b))
	}
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func same(rt reflect.Type) reflect.Type { return rt }

// TestAliasing: outputs never change, whatever is done to anything else.
func TestAliasing(t *testing.T) {
	h.Run(t, "a sequence of 2-30 encodings by 1-3 writers and the package functions, appends to, overwrites of and re-checks of outputs and sources; non-trivial with at least 3 outputs of which one was appended to or overwritten; distinct by bytes", 5000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 60000}
		ws := make([]*marshal.Writer, rapid.IntRange(1, 3).Draw(t, "writers"))
		wants := make([][]byte, len(ws))
		srcs := make([][]reflect.Value, len(ws))
		for i := range ws {
			ws[i] = &marshal.Writer{DefSize: rapid.SampledFrom([]int{0, 0, 1, 16, 512, 4096}).Draw(t, "defsize")}
		}
		var outs []*out
		var key []byte
		touched := false
		sources := []reflect.Value{}
		all := func(after string) {
			for _, o := range outs {
				o.check(t, after)
			}
		}
		keep := func(how string, b, want []byte) {
			if !bytes.Equal(b, want) {
				t.Fatalf("%s gives\n % x\n want\n % x", how, clip(b), clip(want))
			}
			key = append(key, b...)
			outs = append(outs, &out{how, b, append([]byte{}, b...)})
		}
		for i, n := 0, rapid.IntRange(2, 30).Draw(t, "n"); i < n; i++ {
			k := rapid.IntRange(0, len(ws)-1).Draw(t, "w")
			step := ""
			switch s := rapid.IntRange(0, 13).Draw(t, "step"); {
			case s < 5:
				it := newItem(t, g, same)
				step = "writing " + it.how
				if it.pool != nil && rapid.Bool().Draw(t, "pool") {
					keep(it.how, it.pool(), it.want)
				} else {
					it.do(ws[k])
					wants[k] = append(wants[k], it.want...)
				}
				if it.v.IsValid() {
					sources = append(sources, it.v)
					srcs[k] = append(srcs[k], it.v)
				}
			case s < 8:
				step = "Written"
				keep(fmt.Sprintf("writer %d", k), ws[k].Written(), wants[k])
				wants[k] = nil
			case s < 9:
				step = "Reset"
				ws[k].Reset()
				wants[k] = nil
			case s < 10 && len(outs) > 0:
				o := outs[rapid.IntRange(0, len(outs)-1).Draw(t, "o")]
				step = "appending to the output of " + o.how
				_ = append(o.b, ref.Bytes(t, rapid.IntRange(1, 40).Draw(t, "app"))...)
				touched = true
			case s < 11 && len(outs) > 0:
				o := outs[rapid.IntRange(0, len(outs)-1).Draw(t, "o")]
				step = "overwriting the output of " + o.how
				full := o.b[:cap(o.b)]
				for i := range full {
					full[i] ^= 0x5a
				}
				o.pinned = append([]byte{}, o.b...)
				touched = true
			case s < 13 && len(sources) > 0:
				step = "overwriting a source value"
				scramble(sources[rapid.IntRange(0, len(sources)-1).Draw(t, "src")])
				touched = true
			default:
				step = "overwriting a kept buffer"
				buf := ws[k].Need(3)
				copy(buf, "abc")
				wants[k] = append(wants[k], "abc"...)
			}
			all(step)
		}
		for k := range ws {
			keep(fmt.Sprintf("writer %d at the end", k), ws[k].Written(), wants[k])
		}
		all("the end")
		if len(outs) >= 3 && touched {
			c.NonTrivial(string(key))
			c.Sample("%d outputs, %d bytes", len(outs), len(key))
		}
		c.ClassIf(len(key) > 4096, "more than 4096 bytes")
	})
}

// unshared tells whether the type holds no byte slice (which, decoded, may be a
// part of the input).
func unshared(rt reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[rt] {
		return true
	}
	seen[rt] = true
	switch rt.Kind() {
	case reflect.Slice:
		if k := rt.Elem().Kind(); k == reflect.Uint8 {
			return false
		}
		return unshared(rt.Elem(), seen)
	case reflect.Array, reflect.Ptr:
		return unshared(rt.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if !unshared(rt.Field(i).Type, seen) {
				return false
			}
		}
	}
	return true
}

// TestDecoded: what was decoded does not change when the input's memory is
// used again, nor when other things are decoded.
func TestDecoded(t *testing.T) {
	h.Run(t, "2-6 values decoded from their encodings, whose bytes are then overwritten and reused; non-trivial if at least two values have 4 bytes or more; distinct by bytes", 4000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 20000}
		type dec struct {
			got, want reflect.Value
			in        []byte
		}
		var ds []dec
		var key []byte
		big := 0
		for i, n := 0, rapid.IntRange(2, 6).Draw(t, "n"); i < n; i++ {
			rt, tail := ref.GenTop(t, 2)
			v := g.Value(rt)
			var in []byte
			p := reflect.New(rt)
			var err error
			if tail || rapid.Bool().Draw(t, "tail") {
				in = ref.Enc(nil, v, false, false)
				if rt.Kind() == reflect.Array || ref.MayBeEmpty(rt) || rt.Kind() == reflect.Slice && ref.MayBeEmpty(rt.Elem()) {
					continue
				}
				err = marshal.ReadTail(in, p.Interface())
			} else {
				in = ref.Enc(nil, v, true, false)
				err = marshal.Read(in, p.Interface())
			}
			if err != nil {
				t.Fatalf("decoding % x: %v", in, err)
			}
			key = append(key, in...)
			if len(in) >= 4 {
				big++
			}
			if unshared(rt, map[reflect.Type]bool{}) {
				c.Class("input overwritten")
				for i := range in {
					in[i] ^= 0xff
				}
			}
			ds = append(ds, dec{p.Elem(), v, in})
		}
		for _, d := range ds {
			if !ref.Equal(d.got, d.want) {
				t.Fatalf("decoded value changed to %s, was %s", ref.Show(d.got), ref.Show(d.want))
			}
		}
		if big >= 2 {
			c.NonTrivial(string(key))
			c.Sample("% x", clip(key))
		}
	})
}

var unique int64

// refresh makes a type that has never been used before out of rt (unless it is
// made of named types only).
func refresh(rt reflect.Type, n string) reflect.Type {
	if rt.Name() != "" {
		return rt
	}
	switch rt.Kind() {
	case reflect.Slice:
		return reflect.SliceOf(refresh(rt.Elem(), n))
	case reflect.Array:
		return reflect.ArrayOf(rt.Len(), refresh(rt.Elem(), n))
	case reflect.Ptr:
		return reflect.PtrTo(refresh(rt.Elem(), n))
	case reflect.Struct:
		var fs []reflect.StructField
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			f.Type = refresh(f.Type, n)
			f.Offset, f.Index = 0, nil
			if i == 0 {
				f.Tag += reflect.StructTag(" zz:\"" + n + "\"")
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
	return rt
}

// TestConcurrent: any number of goroutines get the sequential results, also
// when they are the first to use a type.
func TestConcurrent(t *testing.T) {
	h.Run(t, "2-8 goroutines that each encode and decode 1-12 of 1-8 values of types never used before, under a drawn schedule, keeping and re-checking all outputs; non-trivial with at least 2 goroutines on one unnamed struct type; distinct by types and bytes", 2400, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 5000}
		n := fmt.Sprint(atomic.AddInt64(&unique, 1))
		fresh := func(rt reflect.Type) reflect.Type { return refresh(rt, n) }
		var items []item
		key, structs := "", false
		for i, k := 0, rapid.IntRange(1, 8).Draw(t, "items"); i < k; i++ {
			it := newItem(t, g, fresh)
			items = append(items, it)
			key += it.how + string(it.want)
			if it.v.IsValid() {
				key += it.v.Type().String()
				structs = structs || it.v.Kind() == reflect.Struct && it.v.Type().Name() == ""
			}
		}
		ng := rapid.IntRange(2, 8).Draw(t, "goroutines")
		plan := make([][]int, ng)
		for i := range plan {
			if i > 0 && rapid.Bool().Draw(t, "same") {
				plan[i] = plan[0]
			} else {
				plan[i] = rapid.SliceOfN(rapid.IntRange(0, 4*len(items)-1), 1, 12).Draw(t, "plan")
			}
		}
		stop, sched := h.Sched(t)
		defer stop()
		start := make(chan struct{})
		errs := make(chan error, ng)
		var wg sync.WaitGroup
		for i := range plan {
			wg.Add(1)
			go func(my []int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs <- fmt.Errorf("panic: %v", p)
					}
				}()
				<-start
				if err := work(items, my); err != nil {
					errs <- err
				}
			}(plan[i])
		}
		close(start)
		h.Within(t, "encoding concurrently", wg.Wait)
		select {
		case err := <-errs:
			t.Fatalf("%v (schedule %s)", err, sched)
		default:
		}
		c.Class("schedule " + sched)
		c.ClassIf(structs, "new struct type")
		if structs {
			c.NonTrivial(key)
			c.Sample("%d goroutines, %d values, schedule %s", ng, len(items), sched)
		}
	})
}

func work(items []item, my []int) error {
	w := &marshal.Writer{}
	var outs []*out
	for _, k := range my {
		it, mode := items[k/4], k%4
		var b []byte
		switch {
		case mode == 0 && it.pool != nil, mode == 1 && it.pool != nil:
			b = it.pool()
		case mode == 3 && it.v.IsValid() && it.how != "[]byte tail" && it.how != "Bytes":
			// decoding
			p := reflect.New(it.v.Type())
			r := &marshal.Reader{Body: append([]byte{}, it.want...)}
			var err error
			switch it.how {
			case "WriteTuple":
				err = sbox.ReadRawTuple(r, p.Interface())
				if err == nil {
					q := reflect.New(it.v.Type())
					body := append([]byte{1, 0, 0, 0}, ref.AppendPrefix(nil, ref.I32, len(it.want)-4)...)
					if k := it.v.Kind(); k == reflect.Struct || k == reflect.String {
						body = append(body, it.want...)
						read, total, err := sbox.ReadMany(body, q.Interface())
						if read != 1 || total != 1 || err != nil || !decoded(q.Elem(), it.v) {
							return fmt.Errorf("ReadMany(% x) into %v gives %d of %d, %v, %s", body, it.v.Type(), read, total, err, ref.Show(q.Elem()))
						}
						q = reflect.New(it.v.Type())
						ok, total, err := sbox.ReadFirst(body, q.Interface())
						if !ok || total != 1 || err != nil || !decoded(q.Elem(), it.v) {
							return fmt.Errorf("ReadFirst(% x) into %v gives %v, %d, %v, %s", body, it.v.Type(), ok, total, err, ref.Show(q.Elem()))
						}
					}
				}
			case "WriteTail":
				want := reflect.New(it.v.Type())
				m, werr := ref.Dec(it.want, want.Elem(), ref.Tail, 0, false)
				if werr != nil || m != len(it.want) || ref.MayBeEmpty(it.v.Type()) {
					continue
				}
				if err = marshal.ReadTail(it.want, p.Interface()); err == nil && !decoded(p.Elem(), want.Elem()) {
					return fmt.Errorf("ReadTail(% x) into %v gives %s, want %s", it.want, it.v.Type(), ref.Show(p.Elem()), ref.Show(want.Elem()))
				}
			case "WriteWithSize":
				continue
			default:
				want := reflect.New(it.v.Type())
				if _, werr := ref.Dec(it.want, want.Elem(), ref.Auto, 0, false); werr != nil {
					continue
				}
				if err = r.Read(p.Interface()); err == nil && !decoded(p.Elem(), it.v) {
					return fmt.Errorf("Read(% x) into %v gives %s, want %s", it.want, it.v.Type(), ref.Show(p.Elem()), ref.Show(it.v))
				}
			}
			if err != nil {
				return fmt.Errorf("%s: decoding % x into %v: %v", it.how, it.want, it.v.Type(), err)
			}
			continue
		default:
			it.do(w)
			b = w.Written()
		}
		if !bytes.Equal(b, it.want) {
			return fmt.Errorf("%s gives\n % x\n want\n % x", it.how, clip(b), clip(it.want))
		}
		o := &out{it.how, b, it.want}
		if mode == 1 {
			// this output is ours to write to
			_ = append(b, "appended"...)
			for i := range b {
				b[i] ^= 0xff
			}
			o.pinned = append([]byte{}, b...)
		}
		outs = append(outs, o)
	}
	for _, o := range outs {
		if !bytes.Equal(o.b, o.pinned) {
			return fmt.Errorf("output of %s changed later\n from % x\n to   % x", o.how, clip(o.pinned), clip(o.b))
		}
	}
	return nil
}

func decoded(got, want reflect.Value) bool { return ref.Equal(got, want) }
