package ref

import (
	"encoding/binary"
	"errors"
	"reflect"

	"github.com/funny-falcon/go-iproto/marshal"
)

// Named versions of the basic types.
type (
	NU8    uint8
	NU16   uint16
	NU32   uint32
	NU64   uint64
	NI8    int8
	NI16   int16
	NI32   int32
	NI64   int64
	NF32   float32
	NF64   float64
	NStr   string
	NBytes []byte
	NU8s   []NU8
	NI8s   []NI8
	NU16s  []uint16
	NU32s  []NU32
	NI64s  []int64
	NF32s  []NF32
	NF64s  []float64
	NStrs  []NStr
	NArr   [3]NU16
	NBArr  [5]byte
)

var namedScalars = []reflect.Type{
	reflect.TypeOf(NU8(0)), reflect.TypeOf(NU16(0)), reflect.TypeOf(NU32(0)), reflect.TypeOf(NU64(0)),
	reflect.TypeOf(NI8(0)), reflect.TypeOf(NI16(0)), reflect.TypeOf(NI32(0)), reflect.TypeOf(NI64(0)),
	reflect.TypeOf(NF32(0)), reflect.TypeOf(NF64(0)),
}

var namedOther = []reflect.Type{
	reflect.TypeOf(NStr("")), reflect.TypeOf(NBytes{}), reflect.TypeOf(NU8s{}), reflect.TypeOf(NI8s{}),
	reflect.TypeOf(NU16s{}), reflect.TypeOf(NU32s{}), reflect.TypeOf(NI64s{}), reflect.TypeOf(NF32s{}),
	reflect.TypeOf(NF64s{}), reflect.TypeOf(NStrs{}), reflect.TypeOf(NArr{}), reflect.TypeOf(NBArr{}),
}

var scalars = []reflect.Type{
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
}

var unsigned = append([]reflect.Type{namedScalars[0], namedScalars[1], namedScalars[2], namedScalars[3]}, scalars[:4]...)

// Recursive and hand-written struct types.
type (
	Tree struct {
		V    uint16
		Kids []Tree
	}
	List struct {
		V    uint32
		Next *List `iproto:"size(ber)"`
	}
	ListC struct {
		S    string `iproto:"size(i8)"`
		Next *ListC `iproto:"cnt(i16)"`
	}
	MutA struct {
		B []MutB
		X uint8
	}
	MutB struct {
		A *MutA `iproto:"cnt(i8)"`
		S string
	}
	Inner struct {
		A int16
		b int32
		C []byte `iproto:"size(ber)"`
	}
	Outer struct {
		Inner
		private string
		P       *Inner `iproto:"size(i32)"`
		Arr     [2]Inner
		Skipped map[string]int `iproto:"skip"`
		Q       *uint32        `iproto:"size(i8)"`
		Str     *string        `iproto:"size(ber)"`
	}
	TailStr struct {
		A uint8
		S string `iproto:"size(no)"`
	}
	TailTree struct {
		N    uint16 `iproto:"ber"`
		Rest []Tree `iproto:"cnt(no)"`
	}
	TailU16 struct {
		A NU16
		S NU16s `iproto:"size(no)"`
	}
	TailBer struct {
		S []uint64 `iproto:"ber,cnt(no)"`
	}
	TailPtr struct {
		A uint8
		P *[]uint16 `iproto:"size(no)"`
	}
	TailPtrS struct {
		A NU16
		P *Tree `iproto:"cnt(no)"`
	}
	TailPtrT struct {
		S string
		P *TailPtr `iproto:"size(no)"`
	}
	TailIn struct {
		A uint8
		T TailStr `iproto:"size(i16)"`
		U TailU16 `iproto:"size(no)"`
	}
	AllBer struct {
		A uint8     `iproto:"ber"`
		B NU16      `iproto:"ber"`
		C uint32    `iproto:"ber,size(i8)"`
		D uint64    `iproto:"size(ber),ber"`
		E []uint32  `iproto:"ber"`
		F []NU64    `iproto:"ber,cnt(ber)"`
		G []uint16  `iproto:"ber,size(i16)"`
		H [3]uint32 `iproto:"ber"`
		I [2]uint64 `iproto:"ber,size(ber)"`
		J *uint64   `iproto:"ber,size(ber)"`
		K *uint16   `iproto:"ber,cnt(i8)"`
		L []uint8   `iproto:"ber,cnt(i64)"`
	}
	AllPtr struct {
		A *string    `iproto:"cnt(ber)"`
		B *[]uint16  `iproto:"cnt(i16)"`
		C *[]byte    `iproto:"size(i8)"`
		D *[2]uint32 `iproto:"cnt(i8)"`
		E *float64   `iproto:"size(ber)"`
		F *[]string  `iproto:"size(i32)"`
		G *Tree      `iproto:"size(i64)"`
		H *TailStr   `iproto:"size(ber)"`
	}
	FixedS struct {
		A uint8
		B [2]int16
		C float32
		D struct{ X, Y uint8 }
	}
	SizedFixed struct {
		A FixedS    `iproto:"size(ber)"`
		B *FixedS   `iproto:"size(i8)"`
		C []FixedS  `iproto:"size(i16)"`
		D [2]FixedS `iproto:"cnt(i8)"`
		E uint64    `iproto:"cnt(i16)"`
		F []FixedS
	}
	Nest1 struct {
		A SizedFixed `iproto:"size(ber)"`
		B []Nest2
	}
	Nest2 struct {
		C string `iproto:"cnt(i8)"`
		D []struct {
			E uint32 `iproto:"ber"`
			F []int8
		} `iproto:"size(ber)"`
	}
)

var statics = []reflect.Type{
	reflect.TypeOf(Tree{}), reflect.TypeOf(List{}), reflect.TypeOf(ListC{}), reflect.TypeOf(MutA{}), reflect.TypeOf(MutB{}),
	reflect.TypeOf(Inner{}), reflect.TypeOf(Outer{}), reflect.TypeOf(AllBer{}), reflect.TypeOf(AllPtr{}),
	reflect.TypeOf(FixedS{}), reflect.TypeOf(SizedFixed{}), reflect.TypeOf(Nest1{}), reflect.TypeOf(Nest2{}),
}

var staticTails = []reflect.Type{
	reflect.TypeOf(TailStr{}), reflect.TypeOf(TailTree{}), reflect.TypeOf(TailU16{}), reflect.TypeOf(TailBer{}), reflect.TypeOf(TailIn{}),
	reflect.TypeOf(TailPtr{}), reflect.TypeOf(TailPtrS{}), reflect.TypeOf(TailPtrT{}),
}

// Types with their own codecs. All of them use a byte order of their own, so
// that a path that misses the custom codec gives different bytes.

type CVal struct{ V uint32 } // long interface, value receiver

func (c CVal) IWrite(self interface{}, w *marshal.Writer) {
	v := self.(interface{ val() uint32 }).val()
	w.Uint8(uint8(v >> 16))
	w.Uint8(uint8(v >> 8))
	w.Uint8(uint8(v))
}
func (c CVal) val() uint32 { return c.V }
func (c *CVal) IRead(self interface{}, r *marshal.Reader) {
	p := self.(*CVal)
	p.V = uint32(r.Uint8())<<16 | uint32(r.Uint8())<<8 | uint32(r.Uint8())
}

type CPtr struct{ V uint32 } // long interface, pointer receiver, sized

func (c *CPtr) IWrite(self interface{}, w *marshal.Writer) {
	v := self.(*CPtr).V
	w.Bytes([]byte{byte(v >> 16), byte(v >> 8), byte(v)})
}
func (c *CPtr) ISize(self interface{}) int { return 3 }
func (c *CPtr) IRead(self interface{}, r *marshal.Reader) {
	b := r.Slice(3)
	if r.Err == nil {
		self.(*CPtr).V = uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
	}
}
func (c *CPtr) ISetSize(self interface{}, n int) (bool, error) {
	if n != 3 {
		return false, errors.New("size of CPtr")
	}
	return true, nil
}

type CShort struct{ V uint32 } // short interface, value receiver for writing

func (c CShort) IWrite(w *marshal.Writer) {
	w.Bytes([]byte{byte(c.V >> 16), byte(c.V >> 8), byte(c.V)})
}
func (c *CShort) IRead(r *marshal.Reader) {
	var b [3]byte
	r.Bytes(b[:])
	c.V = uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
}

type CShortP struct{ V uint32 } // short interface, pointer receiver, sized

func (c *CShortP) IWrite(w *marshal.Writer) {
	b := w.Need(3)
	b[0], b[1], b[2] = byte(c.V>>16), byte(c.V>>8), byte(c.V)
}
func (c *CShortP) ISize() int { return 3 }
func (c *CShortP) IRead(r *marshal.Reader) {
	var b [3]byte
	r.Uint8sl(b[:])
	c.V = uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
}
func (c *CShortP) ISetSize(n int) (bool, error) {
	if n != 3 {
		return false, errors.New("size of CShortP")
	}
	return true, nil
}

type CVar struct{ S string } // variable length, self-delimiting, short

func (c CVar) IWrite(w *marshal.Writer) {
	w.Uint8(uint8(len(c.S)))
	w.String(c.S)
}
func (c *CVar) IRead(r *marshal.Reader) {
	c.S = r.String(r.IntUint8())
}

// MaxCnt bounds what the counted custom types accept.
const MaxCnt = 1 << 17

type CCnt []uint16 // counted, short

func (c CCnt) IWrite(w *marshal.Writer) {
	for _, x := range c {
		w.Uint8(uint8(x >> 8))
		w.Uint8(uint8(x))
	}
}
func (c CCnt) ICount() int { return len(c) }
func (c *CCnt) ISetCount(n int) error {
	if n < 0 || n > MaxCnt {
		return errors.New("count of CCnt")
	}
	*c = make(CCnt, n)
	return nil
}
func (c *CCnt) IRead(r *marshal.Reader) {
	for i := range *c {
		(*c)[i] = uint16(r.Uint8())<<8 | uint16(r.Uint8())
	}
}
func (c *CCnt) IReadTail(r *marshal.Reader) {
	*c = nil
	for len(r.Body) > 0 && r.Err == nil {
		*c = append(*c, uint16(r.Uint8())<<8|uint16(r.Uint8()))
	}
}

type CLong struct{ L []uint16 } // counted, long, pointer receiver for reading

func (c CLong) IWrite(self interface{}, w *marshal.Writer) {
	for _, x := range c.L {
		w.Uint8(uint8(x >> 8))
		w.Uint8(uint8(x))
	}
}
func (c CLong) ICount(self interface{}) int { return len(c.L) }
func (c CLong) ISize(self interface{}) int  { return 2 * len(c.L) }
func (c *CLong) ISetCount(self interface{}, n int) error {
	if n < 0 || n > MaxCnt {
		return errors.New("count of CLong")
	}
	c.L = make([]uint16, n)
	return nil
}
func (c *CLong) IRead(self interface{}, r *marshal.Reader) {
	for i := range c.L {
		c.L[i] = uint16(r.Uint8())<<8 | uint16(r.Uint8())
	}
}
func (c *CLong) IReadTail(self interface{}, r *marshal.Reader) {
	c.L = nil
	for len(r.Body) > 0 && r.Err == nil {
		c.L = append(c.L, uint16(r.Uint8())<<8|uint16(r.Uint8()))
	}
}

var (
	customPlain   = []reflect.Type{reflect.TypeOf(CVal{}), reflect.TypeOf(CPtr{}), reflect.TypeOf(CShort{}), reflect.TypeOf(CShortP{}), reflect.TypeOf(CVar{})}
	customCounted = []reflect.Type{reflect.TypeOf(CCnt{}), reflect.TypeOf(CLong{})}
)

func init() {
	enc3 := func(v reflect.Value) []byte {
		x := v.Field(0).Uint()
		return []byte{byte(x >> 16), byte(x >> 8), byte(x)}
	}
	dec3 := func(b []byte, v reflect.Value) (int, error) {
		if len(b) < 3 {
			return 0, ErrShort
		}
		v.Field(0).SetUint(uint64(b[0])<<16 | uint64(b[1])<<8 | uint64(b[2]))
		return 3, nil
	}
	for _, t := range customPlain[:4] {
		Customs[t] = &Custom{Enc: enc3, Dec: dec3, Addr: t == reflect.TypeOf(CPtr{}) || t == reflect.TypeOf(CShortP{})}
	}
	Customs[customPlain[4]] = &Custom{
		Enc: func(v reflect.Value) []byte {
			s := v.Field(0).String()
			return append([]byte{byte(len(s))}, s...)
		},
		Dec: func(b []byte, v reflect.Value) (int, error) {
			if len(b) < 1 || len(b) < 1+int(b[0]) {
				return 0, ErrShort
			}
			v.Field(0).SetString(string(b[1 : 1+b[0]]))
			return 1 + int(b[0]), nil
		},
	}
	for _, t := range customCounted {
		list := func(v reflect.Value) reflect.Value {
			if v.Kind() == reflect.Struct {
				return v.Field(0)
			}
			return v
		}
		be := func(v reflect.Value) (b []byte) {
			for i := 0; i < list(v).Len(); i++ {
				b = binary.BigEndian.AppendUint16(b, uint16(list(v).Index(i).Uint()))
			}
			return
		}
		decN := func(b []byte, n int, v reflect.Value) (int, error) {
			if n > MaxCnt {
				return 0, ErrSize
			}
			if len(b) < 2*n {
				return 0, ErrShort
			}
			l := reflect.MakeSlice(list(v).Type(), n, n)
			for i := 0; i < n; i++ {
				l.Index(i).SetUint(uint64(b[2*i])<<8 | uint64(b[2*i+1]))
			}
			list(v).Set(l)
			return 2 * n, nil
		}
		Customs[t] = &Custom{
			Enc:   be,
			Count: func(v reflect.Value) int { return list(v).Len() },
			DecN:  decN,
			Tail: func(b []byte, v reflect.Value) (int, error) {
				if len(b)%2 != 0 {
					return 0, ErrShort
				}
				if len(b)/2 > MaxCnt {
					n := len(b) / 2
					l := reflect.MakeSlice(list(v).Type(), n, n)
					for i := 0; i < n; i++ {
						l.Index(i).SetUint(uint64(b[2*i])<<8 | uint64(b[2*i+1]))
					}
					list(v).Set(l)
					return 2 * n, nil
				}
				return decN(b, len(b)/2, v)
			},
		}
	}
}
