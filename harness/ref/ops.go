package ref

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	"github.com/funny-falcon/go-iproto/marshal"
	"pgregory.net/rapid"
)

// Op is one low-level write with its expected bytes and the matching read.
type Op struct {
	Name  string
	W     func(w *marshal.Writer)
	Bytes []byte
	R     func(r *marshal.Reader) (got, want interface{})
}

var slTypes = []reflect.Type{
	reflect.TypeOf([]uint8{}), reflect.TypeOf([]int8{}), reflect.TypeOf([]uint16{}), reflect.TypeOf([]int16{}),
	reflect.TypeOf([]uint32{}), reflect.TypeOf([]int32{}), reflect.TypeOf([]uint64{}), reflect.TypeOf([]int64{}),
	reflect.TypeOf([]float32{}), reflect.TypeOf([]float64{}),
}

var kindName = map[reflect.Kind]string{
	reflect.Uint8: "Uint8", reflect.Int8: "Int8", reflect.Uint16: "Uint16", reflect.Int16: "Int16", reflect.Uint32: "Uint32",
	reflect.Int32: "Int32", reflect.Uint64: "Uint64", reflect.Int64: "Int64", reflect.Float32: "Float32", reflect.Float64: "Float64",
}

// GenOp draws a low-level operation.
func GenOp(g *Gen) (op Op) {
	t := g.T
	call := func(x interface{}, name string, args ...reflect.Value) []reflect.Value {
		return reflect.ValueOf(x).MethodByName(name).Call(args)
	}
	switch rapid.IntRange(0, 7).Draw(t, "op") {
	case 0, 1: // scalar by method
		v := g.Value(pick(t, "scalar", scalars))
		n := kindName[v.Kind()]
		op.Name = fmt.Sprintf("%s(%v)", n, v)
		op.Bytes = Enc(nil, v, true, false)
		op.W = func(w *marshal.Writer) { call(w, n, v) }
		op.R = func(r *marshal.Reader) (interface{}, interface{}) { return norm(call(r, n)[0]), norm(v) }
	case 2: // scalar by reflect.Value
		v := g.Value(pick(t, "scalar", append(scalars, namedScalars...)))
		n := kindName[v.Kind()] + "Val"
		op.Name = fmt.Sprintf("%s(%v)", n, v)
		op.Bytes = Enc(nil, v, true, false)
		op.W = func(w *marshal.Writer) { call(w, n, reflect.ValueOf(v)) }
		op.R = func(r *marshal.Reader) (interface{}, interface{}) {
			x := reflect.New(v.Type()).Elem()
			call(r, n, reflect.ValueOf(x))
			return norm(x), norm(v)
		}
	case 3: // varint
		u := Uint(t, 64)
		op.Bytes = AppendVar(nil, u)
		if rapid.Bool().Draw(t, "int") {
			i := int(u & math.MaxInt64)
			op.Bytes = AppendVar(nil, uint64(i))
			op.Name = fmt.Sprintf("Intvar(%d)", i)
			op.W = func(w *marshal.Writer) { w.Intvar(i) }
			op.R = func(r *marshal.Reader) (interface{}, interface{}) { return r.Intvar(), i }
			return
		}
		op.Name = fmt.Sprintf("Uint64var(%d)", u)
		op.W = func(w *marshal.Writer) { w.Uint64var(u) }
		op.R = func(r *marshal.Reader) (interface{}, interface{}) { return r.Uint64var(), u }
	case 4: // prefix
		bits := []int{8, 16, 32, 63}[rapid.IntRange(0, 3).Draw(t, "width")]
		i := int(Uint(t, bits))
		switch bits {
		case 8:
			op.Name, op.Bytes = "IntUint8", AppendPrefix(nil, I8, i)
			op.W = func(w *marshal.Writer) { w.IntUint8(i) }
			op.R = func(r *marshal.Reader) (interface{}, interface{}) { return r.IntUint8(), i }
		case 16:
			op.Name, op.Bytes = "IntUint16", AppendPrefix(nil, I16, i)
			op.W = func(w *marshal.Writer) { w.IntUint16(i) }
			op.R = func(r *marshal.Reader) (interface{}, interface{}) { return r.IntUint16(), i }
		case 32:
			op.Name, op.Bytes = "IntUint32", AppendPrefix(nil, I32, i)
			op.W = func(w *marshal.Writer) { w.IntUint32(i) }
			op.R = func(r *marshal.Reader) (interface{}, interface{}) { return r.IntUint32(), i }
		default:
			op.Name, op.Bytes = "IntUint64", AppendPrefix(nil, I64, i)
			op.W = func(w *marshal.Writer) { w.IntUint64(i) }
			op.R = func(r *marshal.Reader) (interface{}, interface{}) { return r.IntUint64(), i }
		}
		op.Name = fmt.Sprintf("%s(%d)", op.Name, i)
	case 5: // bytes and strings
		b := Bytes(t, g.len(1))
		op.Bytes = b
		switch rapid.IntRange(0, 3).Draw(t, "bytesop") {
		case 0:
			op.Name = "Bytes"
			op.W = func(w *marshal.Writer) { w.Bytes(b) }
			op.R = func(r *marshal.Reader) (interface{}, interface{}) {
				x := make([]byte, len(b))
				r.Bytes(x)
				return string(x), string(b)
			}
		case 1:
			op.Name = "String"
			op.W = func(w *marshal.Writer) { w.String(string(b)) }
			op.R = func(r *marshal.Reader) (interface{}, interface{}) { return r.String(len(b)), string(b) }
		case 2:
			op.Name = "Need"
			op.W = func(w *marshal.Writer) {
				x := w.Need(len(b))
				if len(x) != len(b) {
					panic(fmt.Sprintf("Need(%d) gave %d bytes", len(b), len(x)))
				}
				copy(x, b)
			}
			op.R = func(r *marshal.Reader) (interface{}, interface{}) { return string(r.Slice(len(b))), string(b) }
		default:
			op.Name = "StringVal"
			op.W = func(w *marshal.Writer) { w.StringVal(reflect.ValueOf(string(b))) }
			op.R = func(r *marshal.Reader) (interface{}, interface{}) { return string(r.Slice(len(b))), string(b) }
		}
		op.Name = fmt.Sprintf("%s(%d bytes)", op.Name, len(b))
	case 6: // typed slice methods
		v := g.Value(pick(t, "sl", slTypes))
		n := kindName[v.Type().Elem().Kind()] + "sl"
		op.Name = fmt.Sprintf("%s(len %d)", n, v.Len())
		op.Bytes = Enc(nil, v, false, false)
		op.W = func(w *marshal.Writer) { call(w, n, v) }
		op.R = func(r *marshal.Reader) (interface{}, interface{}) {
			x := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			call(r, n, x)
			return Enc(nil, x, false, false), op.Bytes
		}
	default: // slices and arrays by reflect.Value
		v := g.Value(pick(t, "sl", slTypes))
		if rapid.Bool().Draw(t, "array") {
			n := v.Len()
			if n > 300 {
				n = 300
			}
			a := reflect.New(reflect.ArrayOf(n, v.Type().Elem())).Elem()
			reflect.Copy(a, v)
			v = a
			if rapid.Bool().Draw(t, "noaddr") {
				v = reflect.ValueOf(v.Interface())
			}
		}
		n := kindName[v.Type().Elem().Kind()] + "slVal"
		op.Name = fmt.Sprintf("%s(%v len %d)", n, v.Kind(), v.Len())
		op.Bytes = Enc(nil, v, false, false)
		op.W = func(w *marshal.Writer) { call(w, n, reflect.ValueOf(v)) }
		op.R = func(r *marshal.Reader) (interface{}, interface{}) {
			x := reflect.New(v.Type()).Elem()
			if v.Kind() == reflect.Slice {
				x.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			}
			call(r, n, reflect.ValueOf(x))
			return Enc(nil, x, false, false), op.Bytes
		}
	}
	return
}

// norm makes scalars comparable (floats by bits).
func norm(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(v.Float())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	}
	return v.Uint()
}

// Same compares the results of Op.R.
func Same(a, b interface{}) bool {
	if x, ok := a.([]byte); ok {
		return bytes.Equal(x, b.([]byte))
	}
	return a == b
}

// Readers and writers of prefixes, by name.
var (
	WrPrefix = map[Prefix]func(*marshal.Writer, int){Ber: (*marshal.Writer).Intvar, I8: (*marshal.Writer).IntUint8, I16: (*marshal.Writer).IntUint16, I32: (*marshal.Writer).IntUint32, I64: (*marshal.Writer).IntUint64}
	RdPrefix = map[Prefix]func(*marshal.Reader) int{Ber: (*marshal.Reader).Intvar, I8: (*marshal.Reader).IntUint8, I16: (*marshal.Reader).IntUint16, I32: (*marshal.Reader).IntUint32, I64: (*marshal.Reader).IntUint64}
)

// Show is a short text form of a value.
func Show(v reflect.Value) string {
	s := fmt.Sprintf("%v = %+v", v.Type(), v.Interface())
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
