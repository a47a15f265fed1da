package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/danhhz/zeropb/golden/raftgogopb"
	"github.com/danhhz/zeropb/golden/raftpb"
	"github.com/danhhz/zeropb/golden/testgogopb"
	"github.com/golang/protobuf/proto"

	"verifmc/fuel"
	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
)

// peer is another protobuf implementation's type of a golden message.
type peer struct {
	impl string
	t    *gen.Type
	new  func() interface{}
}

func goldenByName(n string) *gen.Type {
	for _, t := range goldenTypes {
		if t.Name == n {
			return t
		}
	}
	return nil
}

func peers() []peer {
	return []peer{
		{impl: "gogo/protobuf", t: goldenByName("testzeropb.TestMessage"), new: func() interface{} { return new(testgogopb.TestMessage) }},
		{impl: "golang/protobuf", t: goldenByName("raftzeropb.Message"), new: func() interface{} { return new(raftpb.Message) }},
		{impl: "gogo/protobuf", t: goldenByName("raftzeropb.Message"), new: func() interface{} { return new(raftgogopb.Message) }},
		{impl: "golang/protobuf", t: goldenByName("raftzeropb.Entry"), new: func() interface{} { return new(raftpb.Entry) }},
		{impl: "gogo/protobuf", t: goldenByName("raftzeropb.Entry"), new: func() interface{} { return new(raftgogopb.Entry) }},
		{impl: "golang/protobuf", t: goldenByName("raftzeropb.Snapshot"), new: func() interface{} { return new(raftpb.Snapshot) }},
		{impl: "golang/protobuf", t: goldenByName("raftzeropb.SnapshotMetadata"), new: func() interface{} { return new(raftpb.SnapshotMetadata) }},
		{impl: "golang/protobuf", t: goldenByName("raftzeropb.HardState"), new: func() interface{} { return new(raftpb.HardState) }},
		{impl: "golang/protobuf", t: goldenByName("raftzeropb.ConfChange"), new: func() interface{} { return new(raftpb.ConfChange) }},
	}
}

// peerMarshal encodes with the other implementation.
func peerMarshal(x interface{}) ([]byte, error) {
	if m, ok := x.(interface{ Marshal() ([]byte, error) }); ok {
		return m.Marshal()
	}
	return proto.Marshal(x.(proto.Message))
}

func peerUnmarshal(b []byte, x interface{}) error {
	if m, ok := x.(interface{ Unmarshal([]byte) error }); ok {
		return m.Unmarshal(b)
	}
	return proto.Unmarshal(b, x.(proto.Message))
}

var peerFields = map[reflect.Type]map[int]int{}

// peerField finds the struct field with the given number.
func peerField(c *fw.Ctx, v reflect.Value, num int) reflect.Value {
	t := v.Type()
	m := peerFields[t]
	if m == nil {
		m = map[int]int{}
		for i := 0; i < t.NumField(); i++ {
			if p := strings.Split(t.Field(i).Tag.Get("protobuf"), ","); len(p) > 1 {
				n, _ := strconv.Atoi(p[1])
				m[n] = i
			}
		}
		peerFields[t] = m
	}
	i, ok := m[num]
	if !ok {
		c.Broken("%v has no field %d", t, num)
	}
	return v.Field(i)
}

// peerScalar reads a scalar of the other implementation.
func peerScalar(k ref.Kind, v reflect.Value) ref.V {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return ref.V{}
		}
		v = v.Elem()
	}
	if k == ref.Enum {
		return ref.V{U: uint64(uint32(v.Int()))}
	}
	return gen.FromGo(k, v)
}

func peerSet(c *fw.Ctx, v reflect.Value, f gen.Field, x ref.V) {
	fv := peerField(c, v, f.Num)
	switch f.Kind {
	case ref.Msg:
		t := fv.Type()
		if t.Kind() == reflect.Ptr {
			fv.Set(reflect.New(t.Elem()))
		} else {
			fv.Set(reflect.Zero(t))
			fv = fv.Addr()
		}
		if err := peerUnmarshal([]byte(x.S), fv.Interface()); err != nil {
			c.Broken("nested: %v", err)
		}
	case ref.RepMsg:
		t := fv.Type().Elem()
		ptr := t.Kind() == reflect.Ptr
		if ptr {
			t = t.Elem()
		}
		e := reflect.New(t)
		if err := peerUnmarshal([]byte(x.S), e.Interface()); err != nil {
			c.Broken("element: %v", err)
		}
		if !ptr {
			e = e.Elem()
		}
		fv.Set(reflect.Append(fv, e))
	default:
		if fv.Kind() == reflect.Ptr {
			fv.Set(reflect.New(fv.Type().Elem()))
			fv = fv.Elem()
		}
		if f.Kind == ref.Enum {
			fv.SetInt(int64(int32(x.U)))
		} else {
			fv.Set(gen.ToGo(f.Kind, x).Convert(fv.Type()))
		}
	}
}

// peerSame compares a zeropb message with another implementation's.
func peerSame(c *fw.Ctx, in *gen.Inst, v reflect.Value, where string) {
	for _, f := range in.T.Fields {
		fv := peerField(c, v, f.Num)
		switch f.Kind {
		case ref.Msg:
			got, err := in.Get(f)
			has := fv.Kind() == reflect.Ptr && !fv.IsNil()
			if err != nil || fv.Kind() == reflect.Ptr && got.Has != has {
				c.Fail("%s: nested message %s: zeropb gives present %v, error %v; the other implementation has it: %v", where, f.Name, got.Has, err, has)
			}
			if fv.Kind() == reflect.Ptr {
				if !has {
					continue
				}
				fv = fv.Elem()
			}
			peerSub(c, in, f.Name, got.S, fv, where)
		case ref.RepMsg:
			l, err := in.List(f, 100)
			if err != nil || len(l) != fv.Len() {
				c.Fail("%s: %s has %d elements (error %v), %d for the other implementation", where, f.Name, len(l), err, fv.Len())
			}
			for i, x := range l {
				peerSub(c, in, f.Name, x, reflect.Indirect(fv.Index(i)), where)
			}
		default:
			got, _ := in.Get(f)
			if want := peerScalar(f.Kind, fv); got != want {
				c.Fail("%s: %s is %v for zeropb, %v for the other implementation", where, f.Name, got, want)
			}
		}
	}
}

// peerSub compares an encoded nested message.
func peerSub(c *fw.Ctx, in *gen.Inst, name, enc string, v reflect.Value, where string) {
	t := in.SubType(name)
	for _, g := range goldenTypes {
		if reflect.TypeOf(g.New()).Elem() == t {
			sub := g.Make()
			if err := sub.Decode([]byte(enc)); err != nil {
				c.Fail("%s: nested message %s does not decode: %v", where, name, err)
			}
			peerSame(c, sub, v, where+"."+name)
			return
		}
	}
}

type peerOp struct {
	f gen.Field
	v ref.V
}

// c24Ops is every field with two or three values.
func c24Ops(t *gen.Type, n int) []peerOp {
	var ops []peerOp
	add := func(f gen.Field, vs ...ref.V) {
		for _, v := range vs {
			ops = append(ops, peerOp{f, v})
		}
	}
	for _, f := range t.Fields {
		switch {
		case f.Kind == ref.Enum:
			add(f, u(1), u(1<<32-1), u(0), u(2))
		case f.Kind == ref.String:
			add(f, sv("a\x08\x01é"), sv(""), sv(strings.Repeat("ä", 70)))
		case t.Name == "testzeropb.TestMessage" && f.Kind == ref.Msg:
			add(f, sv(""), sv("\x10\x05\x8a\x01\x02\x08\x01"), sv("\x92\x02\x00\x72\x01x\x92\x02\x02\x10\x07"))
		case t.Name == "testzeropb.TestMessage" && f.Kind == ref.RepMsg:
			add(f, sv(""), sv("\x10\x05"), sv("\x92\x02\x02\x10\x07"))
		case f.Name == "Entries":
			add(f, sv(""), sv("\x10\x05\x22\x02hi"))
		case f.Name == "Snapshot":
			add(f, sv(""), sv("\x0a\x02\x10\x05"), sv("\x12\x07\x0a\x02\x08\x01\x10\xac\x02"))
		case f.Name == "Metadata":
			add(f, sv(""), sv("\x0a\x02\x08\x01\x10\x05"))
		case f.Name == "ConfState":
			add(f, sv(""), sv("\x08\x01\x08\x02\x10\x03"))
		default:
			add(f, vals(f.Kind, n)...)
		}
	}
	return ops
}

// c24Job: every history of writes to a depth, in both directions.
//
// With sizes, instead every length-delimited operation from the first on,
// alone and between two others.
func c24Job(c *fw.Ctx, p peer, ops []peerOp, first, max int, sizes []int) {
	var idx []int
	c.Cur = func() []string {
		l := []string{p.t.Name + " against " + p.impl}
		for _, i := range idx {
			l = append(l, fmt.Sprintf("%s = %s", ops[i].f.Name, short(ops[i].v)))
		}
		return l
	}
	try := func() {
		fuel.Set(1 << 40)
		in := p.t.Make()
		direct := reflect.ValueOf(p.new())
		var frags []byte
		split := false
		seen := map[int]bool{}
		for _, i := range idx {
			o := &ops[i]
			if o.f.Kind == ref.RepMsg {
				in.Append(o.f, o.v.S)
			} else {
				in.Set(o.f, o.v)
			}
			peerSet(c, direct.Elem(), o.f, o.v)
			one := reflect.ValueOf(p.new())
			peerSet(c, one.Elem(), o.f, o.v)
			b, err := peerMarshal(one.Interface())
			if err != nil {
				c.Broken("marshal: %v", err)
			}
			frags = append(frags, b...)
			split = split || o.f.Kind == ref.Msg && seen[o.f.Num]
			seen[o.f.Num] = true
		}
		peerSame(c, in, direct.Elem(), "written field by field")
		read := reflect.ValueOf(p.new())
		if err := peerUnmarshal(append([]byte(nil), in.Encode()...), read.Interface()); err != nil {
			c.Fail("%s cannot read what zeropb wrote (%x): %v", p.impl, clipB(in.Encode()), err)
		}
		peerSame(c, in, read.Elem(), "read back by the other implementation")
		b, err := peerMarshal(direct.Interface())
		if err != nil {
			c.Broken("marshal: %v", err)
		}
		dec := p.t.Make()
		if err := dec.Decode(b); err != nil {
			c.Fail("zeropb cannot read what %s wrote (%x): %v", p.impl, clipB(b), err)
		}
		peerSame(c, dec, direct.Elem(), "read from the other implementation")
		// Concatenated encodings are a merge. (A singular message in several
		// pieces is the documented exception.)
		if _, isValue := p.new().(*raftgogopb.Message); !split && !isValue {
			merged := reflect.ValueOf(p.new())
			if err := peerUnmarshal(append([]byte(nil), frags...), merged.Interface()); err != nil {
				c.Broken("unmarshal: %v", err)
			}
			if err := dec.Decode(frags); err != nil {
				c.Fail("zeropb cannot read concatenated encodings (%x): %v", clipB(frags), err)
			}
			peerSame(c, dec, merged.Elem(), "concatenated encodings")
		}
		c.Evaluations++
		if len(idx) > 1 {
			c.Nontrivial++
		}
	}
	if sizes != nil {
		for i := range ops {
			if !c.Step() {
				return
			}
			if !ops[i].f.Kind.Lenlike() || i < first {
				continue
			}
			idx = append(idx[:0], i)
			try()
			idx = append(idx[:0], sizes[0], i, sizes[1])
			try()
		}
		return
	}
	var rec func()
	rec = func() {
		if !c.Step() {
			return
		}
		try()
		if len(idx) == max {
			if c.WantSample() {
				c.Sample(strings.Join(c.Cur(), "; "))
			}
			return
		}
		for i := range ops {
			if len(idx) == 0 && i != first {
				continue
			}
			idx = append(idx, i)
			rec()
			idx = idx[:len(idx)-1]
			if c.Incomplete {
				return
			}
		}
	}
	rec()
}

// peerMsg is an encoded message of the field's type that is n bytes long.
func peerMsg(p peer, f gen.Field, n int) string {
	// A length-delimited field of the type.
	num := map[string]int{"Entries": 4, "Snapshot": 1, "Metadata": 0, "ConfState": 0}[f.Name]
	if p.t.Name == "testzeropb.TestMessage" {
		num = 15
	}
	if num == 0 {
		return ""
	}
	for l := n - 2; l >= 0 && l >= n-8; l-- {
		if b := ref.AppendField(nil, num, ref.Bytes, ref.V{S: big(l)}); len(b) == n {
			return string(b)
		}
	}
	return ""
}

func init() {
	register(&fw.Prop{ID: "C24", Level: "exploration",
		Rule: "every history of field writes and appends to the stated length over every field of the checked-in message types with several values each, compared with golang/protobuf and gogo/protobuf in both directions and as concatenated single-field encodings; non-trivial: at least two writes",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			for _, p := range peers() {
				p := p
				max, n := 3, 3
				if tier == "thorough" {
					max = 4
				}
				if len(p.t.Fields) < 8 {
					max += 2
					n = 3
				}
				ops := c24Ops(p.t, n)
				for first := range ops {
					first := first
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s %s %d", p.impl, p.t.Name, first), Run: func(c *fw.Ctx) { c24Job(c, p, ops, first, max, nil) }})
				}
				// Values of every size.
				top, every := 1<<21+2, 600
				if tier == "thorough" {
					every = 20000
				}
				sizes := sizeLadder(top)
				for n := 0; n < every; n++ {
					sizes = append(sizes, n)
				}
				for _, f := range p.t.Fields {
					if !f.Kind.Lenlike() {
						continue
					}
					f := f
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("%s %s sizes %s", p.impl, p.t.Name, f.Name), Run: func(c *fw.Ctx) {
						l := append([]peerOp(nil), ops...)
						for _, n := range sizes {
							x := big(n)
							if f.Kind == ref.Msg || f.Kind == ref.RepMsg {
								if x = peerMsg(p, f, n); x == "" && n > 0 {
									continue
								}
							}
							l = append(l, peerOp{f, sv(x)})
						}
						c24Job(c, p, l, len(ops), 0, []int{0, len(ops) - 1})
					}})
				}
			}
			return jobs
		}})
}
