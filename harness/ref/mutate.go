package ref

import (
	"encoding/binary"

	"pgregory.net/rapid"
)

// Mutate turns a valid encoding into an arbitrary one near it (or far from it)
// and names what it did.
func Mutate(t *rapid.T, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	what := ""
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nmut"); i < n; i++ {
		pos := 0
		if len(b) > 0 {
			max := len(b) - 1
			if rapid.Bool().Draw(t, "early") && max > 12 {
				max = 12
			}
			pos = rapid.IntRange(0, max).Draw(t, "pos")
		}
		switch rapid.IntRange(0, 9).Draw(t, "mut") {
		case 0, 1:
			what += "truncate "
			b = b[:pos]
		case 2:
			what += "append "
			b = append(b, Bytes(t, rapid.IntRange(1, 9).Draw(t, "extra"))...)
		case 3:
			what += "flip "
			if len(b) > 0 {
				b[pos] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
			}
		case 4:
			what += "set "
			if len(b) > 0 {
				b[pos] = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 0x7f, 0x80, 0x81, 0xff}).Draw(t, "byte")
			}
		case 5:
			what += "number "
			if len(b) >= pos+4 {
				binary.LittleEndian.PutUint32(b[pos:], rapid.SampledFrom([]uint32{0xffffffff, 0x80000000, 0x7fffffff, 0x40000000, 1 << 24, 1 << 28, 5, 0}).Draw(t, "u32"))
			}
		case 6:
			what += "varint "
			v := AppendVar(nil, rapid.SampledFrom([]uint64{1 << 63, 1<<63 - 1, 1<<64 - 1, 1 << 32, 1<<31 - 1, 1 << 28, 1 << 20, 300, 128}).Draw(t, "var"))
			if rapid.Bool().Draw(t, "overlong") {
				v = append([]byte{0x80}, v...)
			}
			if rapid.IntRange(0, 3).Draw(t, "toolong") == 0 {
				v = append([]byte{0xff, 0xff, 0xff}, v...)
			}
			b = append(append(append([]byte{}, b[:pos]...), v...), b[pos:]...)
		case 7:
			what += "remove "
			if len(b) > 0 {
				b = append(b[:pos], b[pos+1:]...)
			}
		case 8:
			what += "wide "
			if len(b) >= pos+8 {
				binary.LittleEndian.PutUint64(b[pos:], rapid.SampledFrom([]uint64{1<<64 - 1, 1 << 63, 1<<63 - 1, 1 << 32, 1 << 40, 1 << 61, 1 << 60, 1<<31 - 1, 7}).Draw(t, "u64"))
			}
		default:
			what += "random "
			b = Bytes(t, rapid.IntRange(0, 40).Draw(t, "rlen"))
		}
	}
	return b, what
}
