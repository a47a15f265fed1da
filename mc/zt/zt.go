// Package zt holds a message through zeropb's runtime API exactly the way a
// generated struct does, but with the state in the open so that it can be
// cloned, compared and hashed.
package zt

import (
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"math"
	"sort"
	"unsafe"

	"github.com/danhhz/zeropb"

	"verifmc/fuel"
	"verifmc/ref"
)

// Field is one schema field.
type Field struct {
	Num  int
	Kind ref.Kind
}

// Schema is a message type.
type Schema struct {
	Fields []Field
	Max    int // largest field number (array size is Max+1)
	Rep    zeropb.RepeatedFields
}

// NewSchema builds a schema.
func NewSchema(fields ...Field) *Schema {
	s := &Schema{Fields: fields, Rep: zeropb.RepeatedFields{}}
	for _, f := range fields {
		if f.Num > s.Max {
			s.Max = f.Num
		}
		if f.Kind == ref.RepMsg {
			s.Rep[f.Num] = struct{}{}
		}
	}
	return s
}

// ByNum finds a field.
func (s *Schema) ByNum(n int) (Field, bool) {
	for _, f := range s.Fields {
		if f.Num == n {
			return f, true
		}
	}
	return Field{}, false
}

// Msg is a message.
type Msg struct {
	Buf []byte
	A   []uint16
	M   map[int]uint64
}

// New returns an empty message of the schema.
func New(s *Schema) *Msg { return &Msg{A: make([]uint16, s.Max+1)} }

func (m *Msg) off() zeropb.Offsets { return zeropb.WrapOffsets(m.A, &m.M) }

// Clone copies the message; the copy's buffer has slack spare bytes.
func (m *Msg) Clone(slack int) *Msg {
	n := &Msg{A: append([]uint16(nil), m.A...)}
	if m.Buf != nil || slack > 0 {
		n.Buf = make([]byte, len(m.Buf), len(m.Buf)+slack)
		copy(n.Buf, m.Buf)
	}
	if m.M != nil {
		n.M = make(map[int]uint64, len(m.M))
		for k, v := range m.M {
			n.M[k] = v
		}
	}
	return n
}

var seed1, seed2 = maphash.MakeSeed(), maphash.MakeSeed()

// Key is an exact-state fingerprint (128 bits) of buffer and offsets.
type Key [2]uint64

// Key fingerprints the state plus extra bytes.
func (m *Msg) Key(extra []byte) Key {
	var sum [256]byte
	t := sum[:0]
	u64 := func(x uint64) { t = binary.LittleEndian.AppendUint64(t, x) }
	var a []byte
	if len(m.A) > 0 {
		a = unsafe.Slice((*byte)(unsafe.Pointer(&m.A[0])), 2*len(m.A))
	}
	u64(uint64(len(m.Buf)))
	u64(maphash.Bytes(seed1, m.Buf))
	u64(maphash.Bytes(seed2, m.Buf))
	u64(maphash.Bytes(seed1, a))
	u64(maphash.Bytes(seed2, a))
	if len(m.M) > 0 {
		ks := make([]int, 0, len(m.M))
		for k := range m.M {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			u64(uint64(k))
			u64(m.M[k])
		}
	}
	if m.M != nil {
		t = append(t, 1)
	} else {
		t = append(t, 0)
	}
	t = append(t, extra...)
	return Key{maphash.Bytes(seed1, t), maphash.Bytes(seed2, t)}
}

// refuel gives one operation a generous number of statements: linear in the
// message length (a scan of one-byte-step fields) plus a constant.
func (m *Msg) refuel() {
	if fuel.On {
		fuel.Set(4000 + 200*int64(len(m.Buf)) + 200*int64(len(m.A)))
	}
}

// Decode is what generated Decode does.
func (m *Msg) Decode(s *Schema, buf []byte) error {
	m.Buf = buf
	m.refuel()
	return zeropb.Decode(m.Buf, m.off(), s.Rep)
}

// Reset is what generated Reset does.
func (m *Msg) Reset(buf []byte) {
	m.refuel()
	m.Buf = buf
	m.off().Clear()
}

// Set writes a singular field.
func (m *Msg) Set(f Field, v ref.V) {
	m.refuel()
	b, o, n := &m.Buf, m.off(), f.Num
	switch f.Kind {
	case ref.Bool:
		zeropb.SetBool(b, o, n, v.U != 0)
	case ref.Int32:
		zeropb.SetInt32(b, o, n, int32(v.U))
	case ref.Int64:
		zeropb.SetInt64(b, o, n, int64(v.U))
	case ref.Uint32, ref.Enum:
		zeropb.SetUint32(b, o, n, uint32(v.U))
	case ref.Uint64:
		zeropb.SetUint64(b, o, n, v.U)
	case ref.Sint32:
		zeropb.SetZigZagInt32(b, o, n, int32(v.U))
	case ref.Sint64:
		zeropb.SetZigZagInt64(b, o, n, int64(v.U))
	case ref.Fixed32:
		zeropb.SetFixedUint32(b, o, n, uint32(v.U))
	case ref.Fixed64:
		zeropb.SetFixedUint64(b, o, n, v.U)
	case ref.Sfixed32:
		zeropb.SetFixedInt32(b, o, n, int32(v.U))
	case ref.Sfixed64:
		zeropb.SetFixedInt64(b, o, n, int64(v.U))
	case ref.Double:
		zeropb.SetFloat64(b, o, n, math.Float64frombits(v.U))
	case ref.Float:
		zeropb.SetFloat32(b, o, n, math.Float32frombits(uint32(v.U)))
	case ref.String:
		zeropb.SetString(b, o, n, v.S)
	case ref.Bytes, ref.Msg:
		zeropb.SetBytes(b, o, n, []byte(v.S))
	default:
		panic("Set: bad kind")
	}
}

// SetRaw writes a length-delimited field from the given (possibly aliasing)
// bytes.
func (m *Msg) SetRaw(f Field, x []byte) {
	m.refuel()
	zeropb.SetBytes(&m.Buf, m.off(), f.Num, x)
}

// SetRawString writes a string field from the given (possibly aliasing) string.
func (m *Msg) SetRawString(f Field, x string) {
	m.refuel()
	zeropb.SetString(&m.Buf, m.off(), f.Num, x)
}

// GetRaw reads a length-delimited field as a view.
func (m *Msg) GetRaw(f Field) []byte {
	m.refuel()
	return zeropb.GetBytes(m.Buf, m.off(), f.Num)
}

// GetRawString reads a string field as a view.
func (m *Msg) GetRawString(f Field) string {
	m.refuel()
	return zeropb.GetString(m.Buf, m.off(), f.Num)
}

// Append adds to a repeated message field.
func (m *Msg) Append(f Field, x []byte) {
	m.refuel()
	zeropb.AppendBytes(&m.Buf, m.off(), f.Num, x)
}

// Get reads a singular field.
func (m *Msg) Get(f Field) ref.V {
	m.refuel()
	b, o, n := m.Buf, m.off(), f.Num
	switch f.Kind {
	case ref.Bool:
		if zeropb.GetBool(b, o, n) {
			return ref.V{U: 1}
		}
		return ref.V{}
	case ref.Int32:
		return ref.V{U: uint64(int64(zeropb.GetInt32(b, o, n)))}
	case ref.Int64:
		return ref.V{U: uint64(zeropb.GetInt64(b, o, n))}
	case ref.Uint32, ref.Enum:
		return ref.V{U: uint64(zeropb.GetUint32(b, o, n))}
	case ref.Uint64:
		return ref.V{U: zeropb.GetUint64(b, o, n)}
	case ref.Sint32:
		return ref.V{U: uint64(int64(zeropb.GetZigZagInt32(b, o, n)))}
	case ref.Sint64:
		return ref.V{U: uint64(zeropb.GetZigZagInt64(b, o, n))}
	case ref.Fixed32:
		return ref.V{U: uint64(zeropb.GetFixedUint32(b, o, n))}
	case ref.Fixed64:
		return ref.V{U: zeropb.GetFixedUint64(b, o, n)}
	case ref.Sfixed32:
		return ref.V{U: uint64(int64(zeropb.GetFixedInt32(b, o, n)))}
	case ref.Sfixed64:
		return ref.V{U: uint64(zeropb.GetFixedInt64(b, o, n))}
	case ref.Double:
		return ref.V{U: math.Float64bits(zeropb.GetFloat64(b, o, n))}
	case ref.Float:
		return ref.V{U: uint64(math.Float32bits(zeropb.GetFloat32(b, o, n)))}
	case ref.String:
		return ref.V{S: zeropb.GetString(b, o, n)}
	case ref.Bytes:
		return ref.V{S: string(zeropb.GetBytes(b, o, n))}
	case ref.Msg:
		x := zeropb.GetBytes(b, o, n)
		return ref.V{S: string(x), Has: x != nil}
	}
	panic("Get: bad kind")
}

// Iter starts iterating a repeated field.
func (m *Msg) Iter(f Field) []byte {
	m.refuel()
	return zeropb.GetRepeatedNonPacked(m.Buf, m.off(), f.Num)
}

// Next advances an iterator; ok is false at the end.
func (m *Msg) Next(it *[]byte, f Field) (elem []byte, ok bool) {
	m.refuel()
	*it, elem = zeropb.FindNextField(*it, f.Num)
	return elem, elem != nil
}

// List collects a repeated field; at most len(Buf)+1 elements can exist.
func (m *Msg) List(f Field) ([]string, error) {
	var out []string
	it := m.Iter(f)
	for {
		e, ok := m.Next(&it, f)
		if !ok {
			return out, nil
		}
		out = append(out, string(e))
		if len(out) > len(m.Buf)+1 {
			return out, fmt.Errorf("iterator yields more than %d elements from %d bytes", len(out)-1, len(m.Buf))
		}
	}
}
