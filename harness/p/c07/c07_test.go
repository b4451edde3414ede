package c07

import (
	"fmt"
	"reflect"
	"sync"
	"testing"

	"verif/h"
	"verif/ref"

	"github.com/funny-falcon/go-iproto/sbox"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { h.Main(m) }

// elem draws the type that one tuple is read into. Lists of fields are of
// scalars or strings only, as the package supports no other in a result.
func elem(t *rapid.T) reflect.Type {
	for i := 0; ; i++ {
		rt := ref.GenTuple(t, 2)
		if (rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array) && (ref.Customs[rt.Elem()] != nil || !simple(rt.Elem())) {
			rt = reflect.SliceOf(reflect.TypeOf(""))
		}
		return rt
	}
}

func simple(rt reflect.Type) bool {
	switch rt.Kind() {
	case reflect.Struct, reflect.Slice, reflect.Array, reflect.Ptr:
		return false
	}
	return true
}

// body is a result set: the total and the tuples, each with its size.
func body(total int, tuples ...[]byte) []byte {
	b := ref.AppendPrefix(nil, ref.I32, total)
	for _, x := range tuples {
		b = append(ref.AppendPrefix(b, ref.I32, len(x)-4), x...)
	}
	return b
}

// tuples draws values and their tuples; extra fields may follow where they are ignored.
func tuples(t *rapid.T, g *ref.Gen, rt reflect.Type, n int) (vals []reflect.Value, tups [][]byte) {
	for i := 0; i < n; i++ {
		v := g.Value(rt)
		vals = append(vals, v)
		tups = append(tups, ref.EncTuple(nil, v))
	}
	return
}

// TestMany: every kind of destination gets exactly the tuples, in order.
func TestMany(t *testing.T) {
	h.Run(t, "a result of 0-6 tuples of a generated type read into one of 9 kinds of destination; non-trivial with at least 2 tuples; distinct by type and bytes", 8000, func(t *rapid.T, c *h.Case) {
		rt := elem(t)
		g := &ref.Gen{T: t, Budget: 5000}
		n := rapid.IntRange(0, 6).Draw(t, "n")
		vals, tups := tuples(t, g, rt, n)
		total := n
		b := body(total, tups...)
		b = append(b, ref.Bytes(t, rapid.SampledFrom([]int{0, 0, 0, 1, 9}).Draw(t, "after"))...)
		in := append([]byte{}, b...)
		dest := rapid.SampledFrom([]string{"slice", "slice of pointers", "array", "array of pointers", "fixed pointers", "list", "single", "single pointer", "first", "mixed list"}).Draw(t, "dest")
		desc := func() string { return fmt.Sprintf("%d tuples of %v into %s: % x", n, rt, dest, b) }
		check := func(i int, got reflect.Value) {
			if got.Kind() == reflect.Ptr {
				if got.IsNil() {
					t.Fatalf("tuple %d was not stored: %s", i, desc())
				}
				got = got.Elem()
			}
			if !ref.Equal(got, vals[i]) {
				t.Fatalf("tuple %d is %s, want %s: %s", i, ref.Show(got), ref.Show(vals[i]), desc())
			}
		}
		zero := func(i int, got reflect.Value) {
			if got.Kind() == reflect.Ptr && got.IsNil() {
				return
			}
			if !ref.Equal(reflect.Indirect(got), reflect.Zero(rt)) {
				t.Fatalf("element %d has no tuple and is %s: %s", i, ref.Show(got), desc())
			}
		}
		many := func(dst interface{}, want int) {
			read, tot, err := sbox.ReadMany(in, dst)
			if err != nil || read != want || tot != total {
				t.Fatalf("ReadMany gives read %d total %d err %v, want %d of %d: %s", read, tot, err, want, total, desc())
			}
		}
		min := func(a, b int) int {
			if a < b {
				return a
			}
			return b
		}
		room := rapid.IntRange(0, 7).Draw(t, "room")
		ptr := reflect.PtrTo(rt)
		switch dest {
		case "slice", "slice of pointers":
			st := reflect.SliceOf(rt)
			if dest != "slice" {
				st = reflect.SliceOf(ptr)
			}
			p := reflect.New(st)
			if rapid.Bool().Draw(t, "prefilled") {
				p.Elem().Set(reflect.MakeSlice(st, room, room))
			}
			many(p.Interface(), n)
			if p.Elem().Len() != n {
				t.Fatalf("%d elements: %s", p.Elem().Len(), desc())
			}
			for i := 0; i < n; i++ {
				check(i, p.Elem().Index(i))
			}
		case "array", "array of pointers":
			at := reflect.ArrayOf(room, rt)
			if dest != "array" {
				at = reflect.ArrayOf(room, ptr)
			}
			p := reflect.New(at)
			many(p.Interface(), min(n, room))
			for i := 0; i < room; i++ {
				if i < n {
					check(i, p.Elem().Index(i))
				} else {
					zero(i, p.Elem().Index(i))
				}
			}
		case "fixed pointers":
			s := reflect.MakeSlice(reflect.SliceOf(ptr), room, room)
			for i := 0; i < room; i++ {
				if rapid.Bool().Draw(t, "alloc") {
					s.Index(i).Set(reflect.New(rt))
				}
			}
			many(s.Interface(), min(n, room))
			for i := 0; i < room; i++ {
				if i < n {
					check(i, s.Index(i))
				} else {
					zero(i, s.Index(i))
				}
			}
		case "list":
			if rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array {
				c.Class("skipped: a slice in a list is many tuples")
				return
			}
			var l []interface{}
			for i := 0; i < room; i++ {
				l = append(l, reflect.New(rt).Interface())
			}
			if rapid.Bool().Draw(t, "byptr") {
				many(&l, min(n, room))
			} else {
				many(l, min(n, room))
			}
			for i := 0; i < room; i++ {
				if i < n {
					check(i, reflect.ValueOf(l[i]))
				} else {
					zero(i, reflect.ValueOf(l[i]))
				}
			}
		case "mixed list":
			// places for one tuple, for some, and for all that are left, in any order
			if rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array {
				c.Class("skipped: a slice in a list is many tuples")
				return
			}
			left, next, takers := n, 0, 0
			var later []func()
			var list func(depth int) []interface{}
			list = func(depth int) (l []interface{}) {
				for i, k := 0, rapid.IntRange(0, 4).Draw(t, "k"); i < k; i++ {
					size := rapid.IntRange(0, 3).Draw(t, "size")
					at := next
					take := func(m int) int {
						m = min(m, left)
						left -= m
						next += m
						if m > 0 {
							takers++
						}
						return m
					}
					holds := func(get func() reflect.Value, room, m int) {
						later = append(later, func() {
							v := get()
							if room < 0 && v.Len() != m {
								t.Fatalf("%d tuples in the rest, want %d: %s", v.Len(), m, desc())
							}
							for j := 0; j < v.Len(); j++ {
								if j < m {
									check(at+j, v.Index(j))
								} else {
									zero(at+j, v.Index(j))
								}
							}
						})
					}
					switch kind := rapid.IntRange(0, 5).Draw(t, "item"); {
					case kind == 0:
						p := reflect.New(reflect.ArrayOf(size, rt))
						l = append(l, p.Interface())
						holds(p.Elem, size, take(size))
					case kind == 1:
						s := reflect.MakeSlice(reflect.SliceOf(ptr), size, size)
						l = append(l, s.Interface())
						holds(func() reflect.Value { return s }, size, take(size))
					case kind == 2 && rapid.IntRange(0, 2).Draw(t, "rest") == 0:
						p := reflect.New(reflect.SliceOf(rt))
						l = append(l, p.Interface())
						if left == 0 {
							break // not looked at
						}
						holds(p.Elem, -1, take(left))
					case kind == 3 && depth > 0:
						l = append(l, list(depth-1))
					default:
						p := reflect.New(rt)
						l = append(l, p.Interface())
						if take(1) == 1 {
							later = append(later, func() { check(at, p) })
						} else {
							later = append(later, func() { zero(at, p) })
						}
					}
				}
				return
			}
			l := list(2)
			many(l, n-left)
			for _, f := range later {
				f()
			}
			c.ClassIf(takers > 1, "tuples shared out over several places")
		case "single", "single pointer":
			if rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array {
				c.Class("skipped: a slice is many tuples")
				return
			}
			p := reflect.New(rt)
			if dest == "single" {
				many(p.Interface(), min(n, 1))
			} else {
				pp := reflect.New(ptr)
				many(pp.Interface(), min(n, 1))
				if p = pp.Elem(); p.IsNil() && n == 0 {
					break
				}
			}
			if n > 0 {
				check(0, p)
			} else {
				zero(0, p)
			}
		case "first":
			p := reflect.New(rt)
			read, tot, err := sbox.ReadFirst(in, p.Interface())
			if err != nil || read != (n > 0) || tot != total {
				t.Fatalf("ReadFirst gives read %v total %d err %v: %s", read, tot, err, desc())
			}
			if n > 0 {
				check(0, p)
			} else {
				zero(0, p)
			}
		}
		if string(in) != string(b) {
			t.Fatalf("reading changed its input: %s", desc())
		}
		c.Class(dest)
		c.Class("element " + rt.Kind().String())
		if n >= 2 {
			c.NonTrivial(dest + rt.String() + string(b))
			c.Sample("%s", desc())
		}
	})
}

// expect decodes with the reference: the tuples before the first bad one, and
// whether everything that the total announces is there.
func expect(b []byte, rt reflect.Type, max int) (total int, vals []reflect.Value, err error) {
	total, k, err := ref.ReadPrefix(b, ref.I32)
	if err != nil {
		return 0, nil, err
	}
	b = b[k:]
	for i := 0; i < total && (max < 0 || i < max); i++ {
		sz, k, err := ref.ReadPrefix(b, ref.I32)
		if err != nil {
			return total, vals, err
		}
		if b = b[k:]; len(b) < sz+4 {
			return total, vals, ref.ErrShort
		}
		v := reflect.New(rt).Elem()
		if _, err := ref.DecTuple(b[:sz+4], v); err != nil {
			return total, vals, err
		}
		vals = append(vals, v)
		b = b[sz+4:]
	}
	return total, vals, nil
}

// TestHostile: arbitrary bodies.
func TestHostile(t *testing.T) {
	h.Run(t, "a mutated result set or noise read by ReadMany or ReadFirst; all non-trivial; distinct by type and bytes", 10000, func(t *rapid.T, c *h.Case) {
		rt := elem(t)
		g := &ref.Gen{T: t, Budget: 2000}
		n := rapid.IntRange(0, 5).Draw(t, "n")
		_, tups := tuples(t, g, rt, n)
		what := "noise "
		var b []byte
		switch rapid.IntRange(0, 11).Draw(t, "input") {
		case 0:
			b = ref.Bytes(t, rapid.IntRange(0, 40).Draw(t, "noiselen"))
		case 1:
			what = "count only "
			b = body(rapid.SampledFrom([]int{0, 1, 5, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(t, "total"))
		case 2:
			what = "total too big "
			b = body(n+rapid.SampledFrom([]int{1, 3, 1 << 24, 1 << 28}).Draw(t, "more"), tups...)
		case 3, 4:
			what = "bad tuple "
			if n > 0 {
				i := rapid.IntRange(0, n-1).Draw(t, "which")
				var m string
				tups[i], m = ref.Mutate(t, tups[i])
				what += m
				for len(tups[i]) < 4 {
					tups[i] = append(tups[i], 0)
				}
			}
			b = body(n, tups...)
		default:
			b, what = ref.Mutate(t, body(n, tups...))
		}
		desc := fmt.Sprintf("%s% x of %v", what, b, rt)
		first := rapid.IntRange(0, 3).Draw(t, "first") == 0
		max := -1
		if first {
			max = 1
		}
		wtot, want, werr := expect(b, rt, max)
		unspec := werr == ref.ErrUnspec
		dst := reflect.New(reflect.SliceOf(rt))
		one := reflect.New(rt)
		if first {
			sbox.ReadFirst(nil, reflect.New(rt).Interface())
		} else {
			sbox.ReadMany(nil, reflect.New(reflect.SliceOf(rt)).Interface())
		}
		one0 := reflect.New(rt)
		sbox.ReadFirst(body(1, []byte{0, 0, 0, 0}), one0.Interface()) // compile outside the measurement
		var read, total int
		var err error
		alloc := h.Allocated(func() {
			if first {
				var ok bool
				ok, total, err = sbox.ReadFirst(b, one.Interface())
				if ok {
					read = 1
				}
			} else {
				read, total, err = sbox.ReadMany(b, dst.Interface())
			}
		})
		if limit := 256<<10 + uint64(len(b)+16)*(200+16*ref.MaxElem(rt)); alloc > limit {
			t.Fatalf("%d bytes allocated %d (limit %d): %s", len(b), alloc, limit, desc)
		}
		if total != wtot {
			t.Fatalf("total %d, want %d: %s", total, wtot, desc)
		}
		if !unspec {
			if (err == nil) != (werr == nil) {
				t.Fatalf("read %d err %v, want %d err %v: %s", read, err, len(want), werr, desc)
			}
			if read > len(want) || err == nil && read != len(want) {
				t.Fatalf("read %d err %v, but there are %d tuples: %s", read, err, len(want), desc)
			}
			for i := 0; i < read; i++ {
				got := one.Elem()
				if !first {
					if dst.Elem().Len() <= i {
						t.Fatalf("read %d, slice of %d: %s", read, dst.Elem().Len(), desc)
					}
					got = dst.Elem().Index(i)
				}
				if !ref.Equal(got, want[i]) {
					t.Fatalf("tuple %d is %s, want %s (err %v): %s", i, ref.Show(got), ref.Show(want[i]), err, desc)
				}
			}
			if !first && dst.Elem().Len() > len(want) {
				t.Fatalf("%d elements, but there are %d tuples: %s", dst.Elem().Len(), len(want), desc)
			}
		} else {
			c.Class("unspecified")
		}
		c.ClassIf(err != nil, "error")
		c.ClassIf(err != nil && read > 0, "error after some tuples")
		c.ClassIf(first, "first")
		c.NonTrivial(rt.String() + string(b))
		c.Sample("%s: read %d total %d err %v", desc, read, total, err)
	})
}

// TestAtOnce: readers do not disturb each other.
func TestAtOnce(t *testing.T) {
	h.Run(t, "2-6 goroutines reading result sets of their own types 200 times each; all non-trivial; distinct by the bodies", 60, func(t *rapid.T, c *h.Case) {
		type work struct {
			rt    reflect.Type
			vals  []reflect.Value
			b     []byte
			first bool
			bad   string
		}
		var ws []*work
		key := ""
		for i, n := 0, rapid.IntRange(2, 6).Draw(t, "goroutines"); i < n; i++ {
			w := &work{rt: elem(t), first: rapid.IntRange(0, 3).Draw(t, "first") == 0}
			g := &ref.Gen{T: t, Budget: 200}
			var tups [][]byte
			w.vals, tups = tuples(t, g, w.rt, rapid.IntRange(1, 6).Draw(t, "n"))
			w.b = body(len(tups), tups...)
			ws = append(ws, w)
			key += w.rt.String() + string(w.b)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, w := range ws {
			wg.Add(1)
			go func(w *work) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						w.bad = fmt.Sprint("panic: ", e)
					}
				}()
				<-start
				for i := 0; i < 200 && w.bad == ""; i++ {
					if w.first {
						p := reflect.New(w.rt)
						ok, total, err := sbox.ReadFirst(w.b, p.Interface())
						if !ok || total != len(w.vals) || err != nil || !ref.Equal(p.Elem(), w.vals[0]) {
							w.bad = fmt.Sprintf("ReadFirst gives %v %d %v %s", ok, total, err, ref.Show(p.Elem()))
						}
						continue
					}
					p := reflect.New(reflect.SliceOf(w.rt))
					read, total, err := sbox.ReadMany(w.b, p.Interface())
					if read != len(w.vals) || total != read || err != nil || p.Elem().Len() != read {
						w.bad = fmt.Sprintf("ReadMany gives %d %d %v and %d tuples", read, total, err, p.Elem().Len())
						continue
					}
					for j := range w.vals {
						if !ref.Equal(p.Elem().Index(j), w.vals[j]) {
							w.bad = fmt.Sprintf("ReadMany gives as tuple %d %s instead of %s", j, ref.Show(p.Elem().Index(j)), ref.Show(w.vals[j]))
						}
					}
				}
			}(w)
		}
		close(start)
		wg.Wait()
		for _, w := range ws {
			if w.bad != "" {
				t.Fatalf("while other goroutines read: %s; %v from % x", w.bad, w.rt, w.b)
			}
		}
		c.NonTrivial(key)
		c.Sample("%d goroutines, the first with %d tuples of %v", len(ws), len(ws[0].vals), ws[0].rt)
	})
}
