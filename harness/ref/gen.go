package ref

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"pgregory.net/rapid"
)

func pick(t *rapid.T, what string, ts []reflect.Type) reflect.Type {
	return ts[rapid.IntRange(0, len(ts)-1).Draw(t, what)]
}

// MayBeEmpty tells whether some value of the type encodes to no bytes at all.
func MayBeEmpty(rt reflect.Type) bool {
	if Customs[rt] != nil {
		return false
	}
	switch rt.Kind() {
	case reflect.Array:
		return rt.Len() == 0 || MayBeEmpty(rt.Elem())
	case reflect.Ptr:
		return true
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			tag := ParseTag(f.Tag.Get("iproto"))
			if f.PkgPath != "" || tag.Skip || tag.No {
				continue
			}
			if tag.Size != "" || tag.Cnt != "" || !MayBeEmpty(f.Type) {
				return false
			}
		}
		return true
	}
	return false
}

// NeedsTail tells whether the type can only be decoded when its extent is known.
func NeedsTail(rt reflect.Type) bool {
	if rt.Kind() != reflect.Struct || Customs[rt] != nil {
		return false
	}
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		if tag := ParseTag(f.Tag.Get("iproto")); f.PkgPath == "" && !tag.Skip && tag.No {
			return true
		}
	}
	return false
}

// HasAddr tells whether an encoder with a pointer receiver occurs in the type,
// so that values have to be passed by pointer.
func HasAddr(rt reflect.Type) bool { return hasAddr(rt, map[reflect.Type]bool{}) }

func hasAddr(rt reflect.Type, seen map[reflect.Type]bool) bool {
	if c := Customs[rt]; c != nil {
		return c.Addr
	}
	if seen[rt] {
		return false
	}
	seen[rt] = true
	switch rt.Kind() {
	case reflect.Array, reflect.Slice, reflect.Ptr:
		return hasAddr(rt.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			if f.PkgPath == "" && !ParseTag(f.Tag.Get("iproto")).Skip && hasAddr(f.Type, seen) {
				return true
			}
		}
	}
	return false
}

// Counted tells whether the type is a custom one with a count of its own.
func Counted(rt reflect.Type) bool {
	c := Customs[rt]
	return c != nil && c.Count != nil
}

// GenType draws a supported self-delimiting type.
func GenType(t *rapid.T, depth int) reflect.Type {
	kinds := 12
	if depth <= 0 {
		kinds = 5
	}
	switch rapid.IntRange(0, kinds-1).Draw(t, "kind") {
	case 0, 1:
		return pick(t, "scalar", scalars)
	case 2:
		return pick(t, "named", namedScalars)
	case 3:
		return reflect.TypeOf("")
	case 4:
		if rapid.Bool().Draw(t, "bytes") {
			return reflect.TypeOf([]byte(nil))
		}
		return pick(t, "namedOther", namedOther)
	case 5:
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 16, 40}).Draw(t, "arrlen")
		el := GenType(t, depth-1)
		if n > 5 && el.Size() > 16 {
			n = 2
		}
		return reflect.ArrayOf(n, el)
	case 6, 7:
		el := GenType(t, depth-1)
		if MayBeEmpty(el) {
			el = scalars[el.Size()%uintptr(len(scalars))]
		}
		return reflect.SliceOf(el)
	case 8:
		return pick(t, "static", statics)
	case 9:
		if rapid.IntRange(0, 2).Draw(t, "counted") == 0 {
			return pick(t, "customCounted", customCounted)
		}
		return pick(t, "custom", customPlain)
	}
	return GenStruct(t, depth, false)
}

// GenTop draws a type for use at top level: tail tells whether it needs the
// whole-buffer form.
func GenTop(t *rapid.T, depth int) (rt reflect.Type, tail bool) {
	switch rapid.IntRange(0, 9).Draw(t, "top") {
	case 0:
		if rapid.Bool().Draw(t, "static") {
			return pick(t, "staticTail", staticTails), true
		}
		rt = GenStruct(t, depth, true)
		return rt, NeedsTail(rt)
	case 1, 2, 3:
		return GenStruct(t, depth, false), false
	}
	rt = GenType(t, depth)
	if Counted(rt) {
		rt = reflect.SliceOf(rt)
	}
	return rt, false
}

// GenStruct draws a struct type; open makes its last field open-ended.
func GenStruct(t *rapid.T, depth int, open bool) reflect.Type {
	n := rapid.IntRange(0, 5).Draw(t, "nfields")
	if open && n == 0 {
		n = 1
	}
	var flds []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		last := open && i == n-1
		switch sp := rapid.IntRange(0, 19).Draw(t, "special"); {
		case sp == 0 && !last:
			f.Type = pick(t, "skipped", []reflect.Type{reflect.TypeOf(map[string]int{}), reflect.TypeOf(false), reflect.TypeOf(0), reflect.TypeOf("")})
			f.Tag = `iproto:"skip"`
		case sp == 1 && !last:
			f.Name = fmt.Sprintf("f%d", i)
			f.PkgPath = "verif/ref"
			f.Type = reflect.TypeOf(uint32(0))
		default:
			genField(t, &f, depth-1, last)
		}
		flds = append(flds, f)
	}
	return reflect.StructOf(flds)
}

func genField(t *rapid.T, f *reflect.StructField, depth int, open bool) {
	var opts []string
	canPrefix := func(p Prefix, sz int) bool { return sz <= p.Max() }
	ptr := rapid.IntRange(0, 5).Draw(t, "ptr") == 0
	ber := rapid.IntRange(0, 5).Draw(t, "ber") == 0
	if ber {
		f.Type = pick(t, "uint", unsigned)
		if !ptr {
			switch rapid.IntRange(0, 4).Draw(t, "berkind") {
			case 0, 1:
				f.Type = reflect.SliceOf(f.Type)
			case 2:
				f.Type = reflect.ArrayOf(rapid.IntRange(0, 4).Draw(t, "berlen"), f.Type)
			}
		}
		opts = append(opts, "ber")
	} else {
		f.Type = GenType(t, depth)
		if rapid.IntRange(0, 9).Draw(t, "openinner") == 0 && depth > 0 && !ptr {
			f.Type = GenStruct(t, depth-1, true)
		}
	}
	sized := rapid.IntRange(0, 2).Draw(t, "sized")
	if NeedsTail(f.Type) {
		sized = 1
	}
	if open && Customs[f.Type] != nil {
		ptr = false // such a pointer decodes itself, and has no way to tell nil
	}
	if ptr {
		f.Type = reflect.PtrTo(f.Type)
		if sized == 0 {
			sized = 1
		}
	}
	el := f.Type
	if ptr {
		el = el.Elem()
	}
	if sized == 2 && Customs[el] != nil && Customs[el].Count == nil {
		sized = 1
	}
	switch {
	case open:
		opts = append(opts, rapid.SampledFrom([]string{"size(no)", "cnt(no)"}).Draw(t, "no"))
	case sized != 0:
		zero := len(Enc(nil, reflect.Zero(f.Type), false, ber))
		if f.Type.Kind() == reflect.Ptr {
			zero = len(Enc(nil, reflect.Zero(f.Type.Elem()), false, ber))
		}
		var ps []Prefix
		for _, p := range Prefixes {
			if canPrefix(p, zero) {
				ps = append(ps, p)
			}
		}
		p := ps[rapid.IntRange(0, len(ps)-1).Draw(t, "prefix")]
		if sized == 1 {
			opts = append(opts, "size("+string(p)+")")
		} else {
			opts = append(opts, "cnt("+string(p)+")")
		}
	}
	if len(opts) == 2 && rapid.Bool().Draw(t, "order") {
		opts[0], opts[1] = opts[1], opts[0]
	}
	if len(opts) > 0 {
		f.Tag = reflect.StructTag(`iproto:"` + strings.Join(opts, ",") + `"`)
	}
}

// Gen draws values; Budget bounds how many elements one value may have.
type Gen struct {
	T      *rapid.T
	Budget int
	// Boundary counts lengths and numbers next to an encoding boundary.
	Boundary int
}

var lens = []int{0, 0, 1, 1, 2, 3, 4, 7, 8, 15, 16, 17, 100, 126, 127, 128, 129, 254, 255, 256, 257, 500, 511, 512, 513, 1000}
var bigLens = []int{4095, 4096, 16382, 16383, 16384, 16385, 65534, 65535, 65536, 70000}

func (g *Gen) len(unit int) int {
	k := rapid.IntRange(0, 40).Draw(g.T, "lenkind")
	var n int
	switch {
	case k < 20:
		n = rapid.IntRange(0, 5).Draw(g.T, "len")
	case k < 40:
		n = rapid.SampledFrom(lens).Draw(g.T, "len")
	default:
		n = rapid.SampledFrom(bigLens).Draw(g.T, "len")
	}
	if g.Budget < 0 {
		return 0
	}
	if n*unit > g.Budget {
		n = g.Budget / unit
		if n > 2 {
			n = 2
		}
	}
	g.Budget -= n * unit
	switch n {
	case 127, 128, 255, 256, 16383, 16384, 65535, 65536:
		g.Boundary++
	}
	return n
}

var uints = []uint64{0, 1, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x3fff, 0x4000, 0x4001, 0xffff, 0x10000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000,
	0x7fffffff, 0x80000000, 0xffffffff, 1 << 35, 1<<35 - 1, 1 << 42, 1<<42 - 1, 1 << 49, 1<<49 - 1, 1 << 56, 1<<56 - 1, 1 << 63, 1<<63 - 1, math.MaxUint64}

// Uint draws an unsigned number of the given width with a bias to boundaries.
func Uint(t *rapid.T, bits int) uint64 {
	m := uint64(math.MaxUint64) >> uint(64-bits)
	if rapid.Bool().Draw(t, "ub") {
		return rapid.SampledFrom(uints).Draw(t, "ubv") & m
	}
	return rapid.Uint64().Draw(t, "u") & m
}

func (g *Gen) float(bits int) float64 {
	switch rapid.IntRange(0, 9).Draw(g.T, "fk") {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return math.Inf(1 - 2*rapid.IntRange(0, 1).Draw(g.T, "inf"))
	case 3:
		return math.NaN()
	}
	if bits == 32 {
		return float64(rapid.Float32().Draw(g.T, "f"))
	}
	return rapid.Float64().Draw(g.T, "f")
}

// Bytes draws n bytes cheaply.
func Bytes(t *rapid.T, n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	if n <= 4 {
		for i := range b {
			b[i] = rapid.Byte().Draw(t, "b")
		}
		return b
	}
	x := rapid.Uint32().Draw(t, "bseed")
	for i := range b {
		b[i] = byte(x >> 24)
		x = x*1664525 + 1013904223
	}
	return b
}

// Value draws a value of the type (settable).
func (g *Gen) Value(rt reflect.Type) reflect.Value {
	v := reflect.New(rt).Elem()
	g.fill(v)
	return v
}

func (g *Gen) fill(v reflect.Value) {
	t := g.T
	rt := v.Type()
	switch rt {
	case customPlain[0], customPlain[1], customPlain[2], customPlain[3]:
		v.Field(0).SetUint(Uint(t, 24))
		return
	case customPlain[4]:
		v.Field(0).SetString(string(Bytes(t, rapid.IntRange(0, 9).Draw(t, "cvar"))))
		return
	case customCounted[1]:
		v = v.Field(0)
		rt = v.Type()
	}
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sh := uint(64 - 8*rt.Size())
		v.SetInt(int64(Uint(t, 64)<<sh) >> sh)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(Uint(t, int(rt.Size())*8))
	case reflect.Float32:
		v.SetFloat(g.float(32))
	case reflect.Float64:
		v.SetFloat(g.float(64))
	case reflect.String:
		v.SetString(string(Bytes(t, g.len(1))))
	case reflect.Slice:
		unit := int(rt.Elem().Size())
		if k := rt.Elem().Kind(); k == reflect.Struct || k == reflect.Slice || k == reflect.String || k == reflect.Array || k == reflect.Ptr || Customs[rt.Elem()] != nil {
			unit += 100
		}
		n := g.len(unit)
		if n == 0 && rapid.Bool().Draw(t, "nil") {
			return
		}
		v.Set(reflect.MakeSlice(rt, n, n))
		if unit <= 8 && n > 4 {
			// raw pattern for long scalar slices
			b := Bytes(t, n*unit)
			for i := 0; i < n; i++ {
				setRaw(v.Index(i), b[i*unit:])
			}
			return
		}
		for i := 0; i < n; i++ {
			g.fill(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i))
		}
	case reflect.Ptr:
		g.Budget -= 50
		if g.Budget < 0 || rapid.IntRange(0, 3).Draw(t, "nilptr") == 0 {
			return
		}
		v.Set(reflect.New(rt.Elem()))
		g.fill(v.Elem())
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			tag := ParseTag(f.Tag.Get("iproto"))
			if f.PkgPath != "" || tag.Skip {
				continue
			}
			fv := v.Field(i)
			g.fill(fv)
			if tag.Size != "" && len(Enc(nil, fv, false, tag.Ber)) > tag.Size.Max() ||
				tag.Cnt != "" && Count(fv) > tag.Cnt.Max() {
				fv.Set(reflect.Zero(f.Type))
			}
		}
	default:
		panic("gen " + rt.String())
	}
}

func setRaw(v reflect.Value, b []byte) {
	u := uint64(0)
	n := int(v.Type().Size())
	for i := 0; i < n; i++ {
		u = u<<8 | uint64(b[i])
	}
	switch v.Kind() {
	case reflect.Float32:
		f := math.Float32frombits(uint32(u))
		if f != f {
			f = 1.5
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(u))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sh := uint(64 - 8*n)
		v.SetInt(int64(u<<sh) >> sh)
	default:
		v.SetUint(u)
	}
}
