package c02

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto/marshal"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

func iface(v reflect.Value, ptr bool) interface{} {
	if ptr || ref.HasAddr(v.Type()) {
		return v.Addr().Interface()
	}
	return v.Interface()
}

// TestEntryPoints: every way of writing a value gives the reference encoding.
func TestEntryPoints(t *testing.T) {
	h.Run(t, "a generated type and value written by all entry points; non-trivial if the encoding has at least 2 bytes; distinct by type and bytes", 9000, func(t *rapid.T, c *h.Case) {
		rt, _ := ref.GenTop(t, 3)
		g := &ref.Gen{T: t, Budget: 100000}
		v := g.Value(rt)
		auto := ref.Enc(nil, v, true, false)
		bare := ref.Enc(nil, v, false, false)
		check := func(how string, got, want []byte) {
			if !bytes.Equal(got, want) {
				t.Fatalf("%s of %s\n gives % x\n want  % x", how, ref.Show(v), got, want)
			}
		}
		for _, ptr := range []bool{false, true} {
			i := iface(v, ptr)
			check(fmt.Sprintf("marshal.Write ptr=%v", ptr), marshal.Write(i), auto)
			check(fmt.Sprintf("marshal.WriteTail ptr=%v", ptr), marshal.WriteTail(i), bare)
		}
		w := &marshal.Writer{}
		w.WriteValue(v)
		check("WriteValue", w.Written(), auto)
		w.WriteValue(v.Addr())
		check("WriteValue of pointer", w.Written(), auto)
		for _, p := range ref.Prefixes {
			if len(bare) > p.Max() {
				continue
			}
			want := append(ref.AppendPrefix(nil, p, len(bare)), bare...)
			w.WriteWithSize(iface(v, false), ref.WrPrefix[p])
			check("WriteWithSize "+string(p), w.Written(), want)
			w.WriteWithSize(iface(v, true), ref.WrPrefix[p])
			check("WriteWithSize of pointer "+string(p), w.Written(), want)
			w.WriteValueWithSize(v, ref.WrPrefix[p])
			check("WriteValueWithSize "+string(p), w.Written(), want)
			w.WriteValueWithSize(v.Addr(), ref.WrPrefix[p])
			check("WriteValueWithSize of pointer "+string(p), w.Written(), want)
		}
		// inside a list, with and without the pointer
		l := []interface{}{iface(v, false), iface(v, true)}
		check("list tail", marshal.WriteTail(l), append(append([]byte{}, auto...), auto...))
		check("list", marshal.Write(l), append(append([]byte{2, 0, 0, 0}, auto...), auto...))
		c.Class("kind:" + rt.Kind().String())
		c.ClassIf(len(auto) > 512, "bigger than the default buffer")
		c.ClassIf(g.Boundary > 0, "length at an encoding boundary")
		if len(auto) > 1 {
			c.NonTrivial(rt.String() + string(auto))
			c.Sample("%s -> % x", ref.Show(v), auto)
		}
	})
}

// TestHistory: what a writer produces does not depend on what it did before.
func TestHistory(t *testing.T) {
	h.Run(t, "a sequence of 1-25 writes, Written and Reset calls on one writer against the concatenated reference bytes; non-trivial with at least 3 writes", 6000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 150000}
		w := &marshal.Writer{DefSize: rapid.SampledFrom([]int{0, 0, 1, 3, 16, 64, 512, 600}).Draw(t, "defsize")}
		var want, total []byte
		hist := ""
		writes := 0
		flush := func() {
			if got := w.Written(); !bytes.Equal(got, want) {
				t.Fatalf("after %s\n gives % x\n want  % x", hist, got, want)
			}
			total = append(total, want...)
			want = nil
		}
		for i, n := 0, rapid.IntRange(1, 25).Draw(t, "n"); i < n; i++ {
			switch rapid.IntRange(0, 9).Draw(t, "step") {
			case 0:
				hist += "Written; "
				flush()
			case 1:
				hist += "Reset; "
				w.Reset()
				want = nil
			case 2, 3, 4:
				rt, _ := ref.GenTop(t, 2)
				v := g.Value(rt)
				ptr := rapid.Bool().Draw(t, "ptr")
				hist += "value " + ref.Show(v) + "; "
				writes++
				switch rapid.IntRange(0, 3).Draw(t, "how") {
				case 0:
					w.Write(iface(v, ptr))
					want = ref.Enc(want, v, true, false)
				case 1:
					w.WriteTail(iface(v, ptr))
					want = ref.Enc(want, v, false, false)
				case 2:
					w.WriteValue(v)
					want = ref.Enc(want, v, true, false)
				default:
					p := ref.Prefixes[rapid.IntRange(0, 4).Draw(t, "prefix")]
					body := ref.Enc(nil, v, false, false)
					if len(body) > p.Max() {
						p = ref.Ber
					}
					w.WriteWithSize(iface(v, ptr), ref.WrPrefix[p])
					want = append(ref.AppendPrefix(want, p, len(body)), body...)
				}
			default:
				op := ref.GenOp(g)
				hist += op.Name + "; "
				writes++
				op.W(w)
				want = append(want, op.Bytes...)
			}
		}
		flush()
		flush()
		c.ClassIf(g.Boundary > 0, "length at an encoding boundary")
		if writes >= 3 {
			c.NonTrivial(string(total))
			c.Sample("%s", hist)
		}
	})
}

// TestVarint: the varint size function agrees with the varint written, and both are minimal.
func TestVarint(t *testing.T) {
	h.Run(t, "a number biased to powers of 128 and its neighbours; all non-trivial", 20000, func(t *rapid.T, c *h.Case) {
		var u uint64
		if rapid.Bool().Draw(t, "boundary") {
			u = uint64(1)<<uint(7*rapid.IntRange(0, 9).Draw(t, "k")) + uint64(rapid.IntRange(-2, 2).Draw(t, "d"))
		} else {
			u = ref.Uint(t, rapid.IntRange(1, 64).Draw(t, "bits"))
		}
		want := ref.AppendVar(nil, u)
		w := &marshal.Writer{}
		w.Uint64var(u)
		if got := w.Written(); !bytes.Equal(got, want) {
			t.Fatalf("Uint64var(%d) = % x, want % x", u, got, want)
		}
		type S struct {
			X uint64   `iproto:"ber,size(i8)"`
			Y []uint64 `iproto:"ber,size(ber)"`
		}
		w.Write(&S{u, []uint64{u, 1, u}})
		s := append([]byte{byte(len(want))}, want...)
		s = ref.AppendVar(s, uint64(2*len(want)+1))
		s = append(append(append(s, want...), 1), want...)
		if got := w.Written(); !bytes.Equal(got, s) {
			t.Fatalf("sized varints of %d = % x, want % x", u, got, s)
		}
		if i := int(u); i >= 0 {
			if n := marshal.Varsize(i); n != len(want) {
				t.Fatalf("Varsize(%d) = %d, want %d", i, n, len(want))
			}
			w.Intvar(i)
			if got := w.Written(); !bytes.Equal(got, want) {
				t.Fatalf("Intvar(%d) = % x, want % x", i, got, want)
			}
		}
		c.Class(fmt.Sprintf("varint of %d bytes", len(want)))
		c.NonTrivial(fmt.Sprint(u))
		c.Sample("%d -> % x", u, want)
	})
}

// TestLists: typed lists of self-encoding values.
func TestLists(t *testing.T) {
	h.Run(t, "a []IWriter or []IShortWriter of 0-6 values; non-trivial with at least 2", 2000, func(t *rapid.T, c *h.Case) {
		g := &ref.Gen{T: t, Budget: 1000}
		n := rapid.IntRange(0, 6).Draw(t, "n")
		var bare []byte
		var lw []marshal.IWriter
		var ls []marshal.IShortWriter
		long := rapid.Bool().Draw(t, "long")
		for i := 0; i < n; i++ {
			if long {
				v := g.Value([]reflect.Type{reflect.TypeOf(ref.CVal{}), reflect.TypeOf(ref.CPtr{})}[rapid.IntRange(0, 1).Draw(t, "lc")])
				lw = append(lw, iface(v, rapid.Bool().Draw(t, "ptr")).(marshal.IWriter))
				bare = ref.Enc(bare, v, true, false)
			} else {
				v := g.Value([]reflect.Type{reflect.TypeOf(ref.CShort{}), reflect.TypeOf(ref.CShortP{}), reflect.TypeOf(ref.CVar{})}[rapid.IntRange(0, 2).Draw(t, "sc")])
				ls = append(ls, iface(v, rapid.Bool().Draw(t, "ptr")).(marshal.IShortWriter))
				bare = ref.Enc(bare, v, true, false)
			}
		}
		var l interface{} = lw
		if !long {
			l = ls
		}
		want := append(ref.AppendPrefix(nil, ref.I32, n), bare...)
		if got := marshal.Write(l); !bytes.Equal(got, want) {
			t.Fatalf("Write(%T of %d) = % x, want % x", l, n, got, want)
		}
		if got := marshal.WriteTail(l); !bytes.Equal(got, bare) {
			t.Fatalf("WriteTail(%T of %d) = % x, want % x", l, n, got, bare)
		}
		if n > 1 {
			c.NonTrivial(fmt.Sprint(long, bare))
			c.Sample("%T of %d -> % x", l, n, want)
		}
	})
}
