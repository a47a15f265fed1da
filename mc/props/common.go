// Package props defines the checks.
package props

import (
	"strings"

	"verifmc/fuel"
	"verifmc/fw"
	"verifmc/ref"
)

// All lists the checks.
var All []*fw.Prop

func register(p *fw.Prop) { All = append(All, p) }

func u(x uint64) ref.V   { return ref.V{U: x} }
func sv(s string) ref.V  { return ref.V{S: s} }
func neg(x int64) uint64 { return uint64(x) }

// vals returns n (<=3) interesting values of a kind whose encodings differ in
// length where the kind allows it; the default value is among the first three.
func vals(k ref.Kind, n int) []ref.V {
	var l []ref.V
	switch k {
	case ref.Bool:
		l = []ref.V{u(1), u(0)}
	case ref.Int32:
		l = []ref.V{u(1), u(neg(-1)), u(0), u(300), u(neg(-1 << 31)), u(1<<31 - 1)}
	case ref.Int64:
		l = []ref.V{u(1), u(neg(-1)), u(0), u(300), u(1 << 35), u(1<<63 - 1)}
	case ref.Uint32, ref.Enum:
		l = []ref.V{u(1), u(1<<32 - 1), u(0), u(300), u(1 << 20)}
	case ref.Uint64:
		l = []ref.V{u(1), u(1<<64 - 1), u(0), u(300), u(1 << 40)}
	case ref.Sint32:
		l = []ref.V{u(neg(-1)), u(neg(-1 << 31)), u(0), u(200)}
	case ref.Sint64:
		l = []ref.V{u(neg(-1)), u(1 << 63), u(0), u(1 << 34)}
	case ref.Fixed32:
		l = []ref.V{u(0x08000102), u(1<<32 - 1), u(0)}
	case ref.Fixed64:
		l = []ref.V{u(0x0800010203040506), u(1<<64 - 1), u(0)}
	case ref.Sfixed32:
		l = []ref.V{u(1), u(neg(-2)), u(0)}
	case ref.Sfixed64:
		l = []ref.V{u(1), u(neg(-2)), u(0)}
	case ref.Double:
		l = []ref.V{u(0x3ff8000000000000), u(0xfff0000000000000), u(0)}
	case ref.Float:
		l = []ref.V{u(0x3fc00000), u(0xff800000), u(0)}
	case ref.String:
		l = []ref.V{sv("a"), sv("xyz\x08\x01"), sv("")}
	case ref.Bytes:
		l = []ref.V{sv("\x12\x01"), sv("\x80"), sv(""), sv(strings.Repeat("\x0a", 130))}
	case ref.Msg:
		l = []ref.V{sv("\x08\x01"), sv("\x08\xac\x02\x12\x00"), sv("")}
	}
	if n < len(l) {
		l = l[:n]
	}
	return l
}

var singular = append(append([]ref.Kind{}, ref.Scalars...), ref.Msg)

// refuelGolden bounds the next operations of a generated type.
func refuelGolden() { fuel.Set(1 << 26) }
