// Package ref is the reference model: a deliberately plain implementation of
// the protobuf wire format, sharing no code with zeropb, golang/protobuf or
// encoding/binary.
package ref

import "fmt"

// Kind is a protobuf field type.
type Kind int

const (
	Bool Kind = iota
	Int32
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Double
	Float
	String
	Bytes
	Enum
	Msg    // singular nested message
	RepMsg // repeated nested message
)

// Scalars lists all singular non-message kinds.
var Scalars = []Kind{Bool, Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, Double, Float, String, Bytes, Enum}

var names = []string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "double", "float", "string", "bytes", "enum", "message", "repeated message"}

func (k Kind) String() string { return names[k] }

// Wire types.
const (
	WVarint  = 0
	WFixed64 = 1
	WBytes   = 2
	WFixed32 = 5
)

// WireType is the wire type protobuf prescribes for the kind.
func (k Kind) WireType() int {
	switch k {
	case Fixed32, Sfixed32, Float:
		return WFixed32
	case Fixed64, Sfixed64, Double:
		return WFixed64
	case String, Bytes, Msg, RepMsg:
		return WBytes
	}
	return WVarint
}

// Lenlike says whether values of the kind are length-delimited.
func (k Kind) Lenlike() bool { return k.WireType() == WBytes }

// V is a field value. Scalars live in U (bool 0/1; signed sign-extended to 64
// bits; floats as bits), length-delimited values in S. Set distinguishes a
// present nested message from an absent one; for other kinds it is false.
type V struct {
	U   uint64
	S   string
	Has bool
}

func (v V) String() string {
	if len(v.S) > 40 {
		return fmt.Sprintf("{U:%#x S:%d bytes %q.. Has:%v}", v.U, len(v.S), v.S[:16], v.Has)
	}
	return fmt.Sprintf("{U:%#x S:%q Has:%v}", v.U, v.S, v.Has)
}

// AppendVarint appends the minimal varint encoding.
func AppendVarint(b []byte, x uint64) []byte {
	for x >= 128 {
		b = append(b, byte(x%128)+128)
		x /= 128
	}
	return append(b, byte(x))
}

// AppendVarintPad appends a non-minimal varint with pad extra bytes.
func AppendVarintPad(b []byte, x uint64, pad int) []byte {
	b = AppendVarint(b, x)
	for i := 0; i < pad; i++ {
		b[len(b)-1] |= 128
		b = append(b, 0)
	}
	return b
}

// VarintLen is the length of the minimal encoding.
func VarintLen(x uint64) int {
	n := 1
	for x >= 128 {
		n++
		x /= 128
	}
	return n
}

func appendLE(b []byte, x uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(x))
		x >>= 8
	}
	return b
}

// AppendTag appends a minimal tag.
func AppendTag(b []byte, num uint64, wt int) []byte { return AppendVarint(b, num*8+uint64(wt)) }

// zigzag maps signed to unsigned: 0,-1,1,-2,... -> 0,1,2,3,...
func zigzag(x int64) uint64 {
	if x >= 0 {
		return uint64(x) * 2
	}
	return uint64(-(x+1))*2 + 1
}

func unzigzag(u uint64) int64 {
	if u%2 == 0 {
		return int64(u / 2)
	}
	return -int64(u/2) - 1
}

// AppendValue appends the canonical payload (with length prefix if
// length-delimited) of v as kind k.
func AppendValue(b []byte, k Kind, v V) []byte {
	switch k {
	case Sint32, Sint64:
		return AppendVarint(b, zigzag(int64(v.U)))
	case Enum:
		// zeropb types enums as uint32: the value is a 32-bit pattern.
		return AppendVarint(b, v.U)
	}
	switch k.WireType() {
	case WFixed32:
		return appendLE(b, v.U, 4)
	case WFixed64:
		return appendLE(b, v.U, 8)
	case WBytes:
		b = AppendVarint(b, uint64(len(v.S)))
		return append(b, v.S...)
	}
	return AppendVarint(b, v.U)
}

// AppendField appends tag and value.
func AppendField(b []byte, num int, k Kind, v V) []byte {
	b = AppendTag(b, uint64(num), k.WireType())
	return AppendValue(b, k, v)
}

// Occ is one field occurrence on the wire.
type Occ struct {
	Num   uint64
	WT    int
	Start int // of the tag
	Val   int // of the payload
	End   int
	U     uint64 // varint or fixed value
	B     []byte // length-delimited content
	// Minimal is false if the tag, varint value or length prefix is padded.
	Minimal bool
}

// MaxNum is the largest legal field number.
const MaxNum = 1<<29 - 1

func varint(b []byte) (x uint64, n int) {
	var mul uint64 = 1
	for i := 0; i < len(b); i++ {
		if i == 10 {
			return 0, -1
		}
		d := uint64(b[i] % 128)
		if i == 9 && b[i] > 1 {
			return 0, -1
		}
		x += d * mul
		mul *= 128
		if b[i] < 128 {
			return x, i + 1
		}
	}
	return 0, 0
}

// Parse splits buf into field occurrences; ok is false if buf is not a
// well-formed message. The occurrences before the defect are returned too.
func Parse(buf []byte, occs []Occ) ([]Occ, bool) {
	i := 0
	for i < len(buf) {
		var o Occ
		o.Start = i
		tag, n := varint(buf[i:])
		if n <= 0 {
			return occs, false
		}
		i += n
		o.Num, o.WT, o.Val = tag/8, int(tag%8), i
		o.Minimal = n == VarintLen(tag)
		if o.Num == 0 || o.Num > MaxNum {
			return occs, false
		}
		rest := len(buf) - i
		switch o.WT {
		case WVarint:
			x, n := varint(buf[i:])
			if n <= 0 {
				return occs, false
			}
			o.U = x
			o.Minimal = o.Minimal && n == VarintLen(x)
			i += n
		case WFixed32, WFixed64:
			sz := 4
			if o.WT == WFixed64 {
				sz = 8
			}
			if rest < sz {
				return occs, false
			}
			for j := sz - 1; j >= 0; j-- {
				o.U = o.U*256 + uint64(buf[i+j])
			}
			i += sz
		case WBytes:
			l, n := varint(buf[i:])
			if n <= 0 {
				return occs, false
			}
			o.Minimal = o.Minimal && n == VarintLen(l)
			if l > uint64(rest-n) {
				return occs, false
			}
			o.B = buf[i+n : i+n+int(l)]
			i += n + int(l)
		default:
			return occs, false
		}
		o.End = i
		occs = append(occs, o)
	}
	return occs, true
}

// Read interprets an occurrence of the right wire type as kind k.
// definite is false where protobuf leaves the result to the implementation
// (a sint32 whose varint does not fit 32 bits).
func Read(k Kind, o *Occ) (v V, definite bool) {
	switch k {
	case Bool:
		if o.U != 0 {
			v.U = 1
		}
	case Int32:
		v.U = uint64(int64(int32(uint32(o.U))))
	case Uint32, Enum:
		v.U = o.U % (1 << 32)
	case Int64, Uint64, Fixed32, Fixed64, Double, Float, Sfixed64:
		v.U = o.U
	case Sfixed32:
		v.U = uint64(int64(int32(uint32(o.U))))
	case Sint64:
		v.U = uint64(unzigzag(o.U))
	case Sint32:
		if o.U >= 1<<32 {
			return v, false
		}
		v.U = uint64(unzigzag(o.U))
	case String, Bytes:
		v.S = string(o.B)
	case Msg, RepMsg:
		v.S = string(o.B)
		v.Has = true
	}
	return v, true
}
