package ref

import (
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"
)

// EncField is a tuple field: its byte length as a varint and its bare encoding.
func EncField(b []byte, v reflect.Value, ber bool) []byte {
	body := Enc(nil, v, false, ber)
	return append(AppendVar(b, uint64(len(body))), body...)
}

// tupleFields lists the fields of a struct that take part in a tuple; split is
// "", "tail" or "tailsplit" for the last one.
func tupleFields(rt reflect.Type) (idx []int, split string) {
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		if f.PkgPath != "" || ParseTag(f.Tag.Get("iproto")).Skip {
			continue
		}
		idx = append(idx, i)
		if s := f.Tag.Get("sbox"); s == "tail" || s == "tailsplit" {
			split = s
		}
	}
	return
}

func zeroSize(rt reflect.Type) bool {
	if Customs[rt] != nil {
		return false
	}
	switch rt.Kind() {
	case reflect.Array:
		return rt.Len() == 0 || zeroSize(rt.Elem())
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			tag := ParseTag(f.Tag.Get("iproto"))
			if f.PkgPath != "" || tag.Skip {
				continue
			}
			if tag.Size != "" || tag.Cnt != "" || !zeroSize(f.Type) {
				return false
			}
		}
		return true
	}
	return false
}

func fieldBer(rt reflect.Type, i int) bool { return ParseTag(rt.Field(i).Tag.Get("iproto")).Ber }

// BytesLike tells whether the type is one field of a tuple rather than a list of fields.
func BytesLike(rt reflect.Type) bool {
	return (rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array) && rt.Elem().Kind() == reflect.Uint8
}

// TupleFields returns the fields of the tuple that the value is written as.
func TupleFields(v reflect.Value) (flds [][]byte) {
	rt := v.Type()
	add := func(x reflect.Value, ber bool) { flds = append(flds, EncField(nil, x, ber)) }
	switch rt.Kind() {
	case reflect.Ptr, reflect.Interface:
		return TupleFields(v.Elem())
	case reflect.Slice, reflect.Array:
		if BytesLike(rt) {
			add(v, false)
			return
		}
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Interface {
				e = e.Elem()
			}
			add(e, false)
		}
	case reflect.Struct:
		idx, split := tupleFields(rt)
		for k, i := range idx {
			fv := v.Field(i)
			last := k == len(idx)-1
			switch {
			case last && split == "tail":
				for j := 0; j < fv.Len(); j++ {
					add(fv.Index(j), fieldBer(rt, i))
				}
			case last && split == "tailsplit":
				in, _ := tupleFields(fv.Type().Elem())
				for j := 0; j < fv.Len(); j++ {
					for _, m := range in {
						add(fv.Index(j).Field(m), fieldBer(fv.Type().Elem(), m))
					}
				}
			default:
				add(fv, fieldBer(rt, i))
			}
		}
	default:
		add(v, false)
	}
	return
}

// EncTuple is the tuple that the value is written as.
func EncTuple(b []byte, v reflect.Value) []byte {
	flds := TupleFields(v)
	b = AppendPrefix(b, I32, len(flds))
	for _, f := range flds {
		b = append(b, f...)
	}
	return b
}

func decField(b []byte, v reflect.Value, ber bool) (rest []byte, err error) {
	n, k, err := ReadPrefix(b, "ber")
	if err != nil {
		return nil, err
	}
	b = b[k:]
	if n > len(b) {
		return nil, ErrShort
	}
	m, err := Dec(b[:n], v, Tail, 0, ber)
	if err != nil {
		return nil, err
	}
	if m != n {
		return nil, ErrSize
	}
	return b[n:], nil
}

// DecTuple reads a tuple into v (settable) and tells how many fields it has.
func DecTuple(b []byte, v reflect.Value) (cnt int, err error) {
	rt := v.Type()
	if rt.Kind() == reflect.Ptr {
		if v.IsNil() {
			v.Set(reflect.New(rt.Elem()))
		}
		return DecTuple(b, v.Elem())
	}
	cnt, k, err := ReadPrefix(b, I32)
	if err != nil {
		return 0, err
	}
	b = b[k:]
	one := func(x reflect.Value, ber bool) bool {
		b, err = decField(b, x, ber)
		return err == nil
	}
	switch {
	case rt.Kind() == reflect.Struct:
		idx, split := tupleFields(rt)
		fixed := idx
		if split != "" {
			fixed = idx[:len(idx)-1]
		}
		for k, i := range fixed {
			if k >= cnt {
				return cnt, nil
			}
			if !one(v.Field(i), fieldBer(rt, i)) {
				return
			}
		}
		if split == "" || cnt < len(fixed) {
			return cnt, nil
		}
		i := idx[len(idx)-1]
		fv := v.Field(i)
		n := cnt - len(fixed)
		var in []int
		if split == "tailsplit" {
			in, _ = tupleFields(fv.Type().Elem())
			n /= len(in)
		}
		if n > len(b) {
			return cnt, ErrShort
		}
		fv.Set(reflect.MakeSlice(fv.Type(), n, n))
		for j := 0; j < n; j++ {
			if split == "tail" {
				if !one(fv.Index(j), fieldBer(rt, i)) {
					return
				}
				continue
			}
			for _, m := range in {
				if !one(fv.Index(j).Field(m), fieldBer(fv.Type().Elem(), m)) {
					return
				}
			}
		}
		return cnt, nil
	case (rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array) && !BytesLike(rt):
		n := cnt
		if rt.Kind() == reflect.Array {
			if n < v.Len() {
				return cnt, ErrSize
			}
			n = v.Len()
		} else {
			if n > len(b) {
				return cnt, ErrShort
			}
			v.Set(reflect.MakeSlice(rt, n, n))
		}
		for i := 0; i < n; i++ {
			if !one(v.Index(i), false) {
				return
			}
		}
		return cnt, nil
	}
	if cnt < 1 {
		return cnt, ErrSize
	}
	one(v, false)
	return
}

// GenTuple draws a type that can be written and read as a tuple.
func GenTuple(t *rapid.T, depth int) reflect.Type {
	switch rapid.IntRange(0, 11).Draw(t, "tuple") {
	case 0:
		return pick(t, "scalar", append(append([]reflect.Type{}, scalars...), namedScalars...))
	case 1:
		return reflect.TypeOf("")
	case 2:
		return reflect.TypeOf([]byte(nil))
	case 3:
		return reflect.ArrayOf(rapid.IntRange(0, 5).Draw(t, "bytesarr"), reflect.TypeOf(byte(0)))
	case 4:
		return reflect.SliceOf(genItem(t, depth))
	case 5:
		return reflect.ArrayOf(rapid.IntRange(0, 4).Draw(t, "arrlen"), genItem(t, depth))
	}
	return GenTupleStruct(t, depth)
}

// genItem draws the type of a tuple field that is an element of something.
func genItem(t *rapid.T, depth int) reflect.Type {
	rt := GenType(t, depth-1)
	switch rapid.IntRange(0, 7).Draw(t, "item") {
	case 0:
		if !Counted(rt) {
			return reflect.PtrTo(rt)
		}
	case 1:
		return GenStruct(t, depth-1, true)
	}
	return rt
}

// GenTupleStruct draws a struct for a tuple.
func GenTupleStruct(t *rapid.T, depth int) reflect.Type {
	flds := plainFields(GenStruct(t, depth, false))
	f := reflect.StructField{Name: fmt.Sprintf("Z%d", len(flds))}
	switch rapid.IntRange(0, 5).Draw(t, "tailkind") {
	case 0, 1:
		f.Tag = `sbox:"tail"`
		f.Type = reflect.SliceOf(tailItem(t, depth))
		if rapid.IntRange(0, 3).Draw(t, "tailber") == 0 {
			f.Type = reflect.SliceOf(pick(t, "uint", unsigned))
			f.Tag = `iproto:"ber" sbox:"tail"`
		}
		flds = append(flds, f)
	case 2, 3:
		f.Tag = `sbox:"tailsplit"`
		el := reflect.StructOf(plainFields(GenStruct(t, depth-1, false)))
		if idx, _ := tupleFields(el); len(idx) == 0 {
			el = reflect.TypeOf(struct {
				A uint16
				B string
			}{})
		}
		if MayBeEmpty(el) {
			el = reflect.TypeOf(struct {
				A []uint32
				B uint8
				C string
			}{})
		}
		f.Type = reflect.SliceOf(el)
		flds = append(flds, f)
	}
	if len(flds) > 0 && f.Type != nil && rapid.IntRange(0, 4).Draw(t, "hiddenlast") == 0 {
		flds = append(flds, reflect.StructField{Name: "Hidden", Type: reflect.TypeOf(0), Tag: `iproto:"skip"`})
	}
	return reflect.StructOf(flds)
}

// plainFields returns the fields of a generated struct without those that can
// never hold a byte: whether they count as fields of a tuple is not specified.
func plainFields(rt reflect.Type) (flds []reflect.StructField) {
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		f.Index, f.Offset = nil, 0
		tag := ParseTag(f.Tag.Get("iproto"))
		if f.PkgPath == "" && !tag.Skip && tag.Size == "" && tag.Cnt == "" && zeroSize(f.Type) {
			f.Type, f.Tag = reflect.TypeOf(uint32(0)), ""
		}
		flds = append(flds, f)
	}
	return
}

func tailItem(t *rapid.T, depth int) reflect.Type {
	rt := GenType(t, depth-1)
	if MayBeEmpty(rt) {
		return reflect.TypeOf("")
	}
	return rt
}

// TailKind tells how the last field of a struct is spread over the tuple.
func TailKind(rt reflect.Type) string {
	if rt.Kind() != reflect.Struct || Customs[rt] != nil {
		return ""
	}
	_, s := tupleFields(rt)
	return s
}

// HasPrefixTag tells whether the text has some iproto tag (for classification).
func HasPrefixTag(rt reflect.Type) bool { return strings.Contains(rt.String(), "iproto:") }

// MaxElem is the size of the biggest element type inside, for allocation bounds.
func MaxElem(rt reflect.Type) uint64 { return uint64(maxElem(rt, map[reflect.Type]bool{})) }

func maxElem(rt reflect.Type, seen map[reflect.Type]bool) uintptr {
	if seen[rt] {
		return rt.Size()
	}
	seen[rt] = true
	m := rt.Size()
	up := func(x uintptr) {
		if x > m {
			m = x
		}
	}
	switch rt.Kind() {
	case reflect.Slice, reflect.Array, reflect.Ptr:
		up(maxElem(rt.Elem(), seen))
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			up(maxElem(rt.Field(i).Type, seen))
		}
	}
	return m
}
