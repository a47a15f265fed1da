package props

import (
	"fmt"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/ex"
	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

// The generated types checked into the repository, described from their
// .proto files.
var goldenTypes = []*gen.Type{
	{Name: "testzeropb.TestMessage", New: func() interface{} { return new(testzeropb.TestMessage) }, Fields: []gen.Field{
		{Num: 1, Kind: ref.Bool, Name: "Bool"}, {Num: 2, Kind: ref.Int32, Name: "Int32"}, {Num: 3, Kind: ref.Int64, Name: "Int64"}, {Num: 4, Kind: ref.Uint32, Name: "Uint32"},
		{Num: 5, Kind: ref.Uint64, Name: "Uint64"}, {Num: 6, Kind: ref.Sint32, Name: "Sint32"}, {Num: 7, Kind: ref.Sint64, Name: "Sint64"}, {Num: 8, Kind: ref.Fixed32, Name: "Fixed32"},
		{Num: 9, Kind: ref.Fixed64, Name: "Fixed64"}, {Num: 10, Kind: ref.Sfixed32, Name: "Sfixed32"}, {Num: 11, Kind: ref.Sfixed64, Name: "Sfixed64"}, {Num: 12, Kind: ref.Double, Name: "Double"},
		{Num: 13, Kind: ref.Float, Name: "Float"}, {Num: 14, Kind: ref.String, Name: "String"}, {Num: 15, Kind: ref.Bytes, Name: "ByteArray"}, {Num: 16, Kind: ref.Enum, Name: "Enum"},
		{Num: 17, Kind: ref.Msg, Name: "Message"}, {Num: 34, Kind: ref.RepMsg, Name: "Messages"}}},
	{Name: "raftzeropb.Entry", New: func() interface{} { return new(raftzeropb.Entry) }, Fields: []gen.Field{
		{Num: 1, Kind: ref.Enum, Name: "Type"}, {Num: 2, Kind: ref.Uint64, Name: "Term"}, {Num: 3, Kind: ref.Uint64, Name: "Index"}, {Num: 4, Kind: ref.Bytes, Name: "Data"}}},
	{Name: "raftzeropb.SnapshotMetadata", New: func() interface{} { return new(raftzeropb.SnapshotMetadata) }, Fields: []gen.Field{
		{Num: 1, Kind: ref.Msg, Name: "ConfState"}, {Num: 2, Kind: ref.Uint64, Name: "Index"}, {Num: 3, Kind: ref.Uint64, Name: "Term"}}},
	{Name: "raftzeropb.Snapshot", New: func() interface{} { return new(raftzeropb.Snapshot) }, Fields: []gen.Field{
		{Num: 1, Kind: ref.Bytes, Name: "Data"}, {Num: 2, Kind: ref.Msg, Name: "Metadata"}}},
	{Name: "raftzeropb.Message", New: func() interface{} { return new(raftzeropb.Message) }, Fields: []gen.Field{
		{Num: 1, Kind: ref.Enum, Name: "Type"}, {Num: 2, Kind: ref.Uint64, Name: "To"}, {Num: 3, Kind: ref.Uint64, Name: "From"}, {Num: 4, Kind: ref.Uint64, Name: "Term"},
		{Num: 5, Kind: ref.Uint64, Name: "LogTerm"}, {Num: 6, Kind: ref.Uint64, Name: "Index"}, {Num: 7, Kind: ref.RepMsg, Name: "Entries"}, {Num: 8, Kind: ref.Uint64, Name: "Commit"},
		{Num: 9, Kind: ref.Msg, Name: "Snapshot"}, {Num: 10, Kind: ref.Bool, Name: "Reject"}, {Num: 11, Kind: ref.Uint64, Name: "RejectHint"}, {Num: 12, Kind: ref.Bytes, Name: "Context"}}},
	{Name: "raftzeropb.HardState", New: func() interface{} { return new(raftzeropb.HardState) }, Fields: []gen.Field{
		{Num: 1, Kind: ref.Uint64, Name: "Term"}, {Num: 2, Kind: ref.Uint64, Name: "Vote"}, {Num: 3, Kind: ref.Uint64, Name: "Commit"}}},
	{Name: "raftzeropb.ConfChange", New: func() interface{} { return new(raftzeropb.ConfChange) }, Fields: []gen.Field{
		{Num: 1, Kind: ref.Uint64, Name: "ID"}, {Num: 2, Kind: ref.Enum, Name: "Type"}, {Num: 3, Kind: ref.Uint64, Name: "NodeID"}, {Num: 4, Kind: ref.Bytes, Name: "Context"}}},
}

// compareInst compares a generated message with a reference over the whole
// generated schema.
func compareInst(c *fw.Ctx, in *gen.Inst, s *zt.Schema, r *ex.Ref) {
	for _, f := range in.T.Fields {
		var want ref.V
		var wantList []string
		for i, sf := range s.Fields {
			if sf.Num == f.Num {
				want, wantList = r.Val[i], r.Rep[i]
			}
		}
		if f.Kind == ref.RepMsg {
			l, err := in.List(f, 64)
			if err != nil || fmt.Sprint(l) != fmt.Sprint(wantList) || len(l) != len(wantList) {
				c.Fail("%s.%s iterates as %.200q (error %v), expected %.200q", in.T.Name, f.Name, l, err, wantList)
			}
			continue
		}
		got, err := in.Get(f)
		if f.Kind == ref.Msg && !want.Has {
			got.S = ""
		}
		if err != nil || got != want {
			c.Fail("%s.%s reads %v (error %v), expected %v (encoded %x)", in.T.Name, f.Name, got, err, want, clipB(in.Encode()))
		}
	}
}

// goldenJob explores write histories on the schema of every golden type that
// has a field of kind k, replaying every distinct state's history on the
// generated struct.
func goldenJob(c *fw.Ctx, k ref.Kind, check checkFn) {
	for _, t := range goldenTypes {
		for fi, gf := range t.Fields {
			if gf.Kind != k {
				continue
			}
			// The field, its neighbour in the schema, a bytes-like field and a
			// repeated field if there is one.
			pick := []gen.Field{gf}
			addf := func(f gen.Field) {
				for _, p := range pick {
					if p.Num == f.Num {
						return
					}
				}
				if len(pick) < 4 {
					pick = append(pick, f)
				}
			}
			addf(t.Fields[(fi+1)%len(t.Fields)])
			for _, f := range t.Fields {
				if f.Kind == ref.RepMsg {
					addf(f)
				}
			}
			for _, f := range t.Fields {
				if f.Kind == ref.Bytes || f.Kind == ref.Msg {
					addf(f)
				}
			}
			depth := 4
			if !c.Thorough() {
				depth = 3
			}
			goldenExplore(c, t, fmt.Sprintf("golden %s field %s", t.Name, gf.Name), pick, func(f gen.Field) []ref.V {
				if f.Kind == ref.RepMsg {
					return []ref.V{sv(""), sv("\x08\x01")}
				}
				return vals(f.Kind, 3)
			}, nil, check, depth)
		}
	}
}

// goldenExplore explores writes of the given fields' values (and extra
// operations, given with their equivalent on a generated struct) on the
// runtime API, replaying every distinct state's history on the generated type.
func goldenExplore(c *fw.Ctx, t *gen.Type, name string, pick []gen.Field, values func(f gen.Field) []ref.V, extra []extraOp, check checkFn, depth int, onInst ...func(in *gen.Inst)) {
	var fs []zt.Field
	for _, f := range pick {
		fs = append(fs, zt.Field{Num: f.Num, Kind: f.Kind})
	}
	s := zt.NewSchema(fs...)
	for _, f := range t.Fields {
		if f.Num > s.Max {
			s.Max = f.Num
		}
	}
	cf := &ex.Config{Name: name, Schema: s, Check: check(s), Depth: depth}
	var gops []func(in *gen.Inst)
	for i, f := range pick {
		for _, v := range values(f) {
			f, v := f, v
			if f.Kind == ref.RepMsg {
				cf.Ops = append(cf.Ops, unlessFailed(ex.AppendOp(s, i, v.S, 2)))
				gops = append(gops, func(in *gen.Inst) { in.Append(f, v.S) })
			} else {
				cf.Ops = append(cf.Ops, unlessFailed(ex.SetOp(s, i, v)))
				gops = append(gops, func(in *gen.Inst) { in.Set(f, v) })
			}
		}
	}
	for _, e := range extra {
		cf.Ops = append(cf.Ops, e.op(s))
		gops = append(gops, e.gold)
	}
	cf.OnState = func(c *fw.Ctx, hist func() []int, m *zt.Msg, r *ex.Ref) {
		in := t.Make()
		for _, o := range hist() {
			gops[o](in)
		}
		if r.Aux != 0 {
			return // contents unspecified
		}
		if string(in.Encode()) != string(m.Buf) {
			c.Fail("generated %s encodes %x where the runtime API gives %x", t.Name, clipB(in.Encode()), clipB(m.Buf))
		}
		compareInst(c, in, s, r)
		dec := t.Make()
		if err := dec.Decode(append([]byte(nil), in.Encode()...)); err != nil {
			c.Fail("generated %s cannot decode its own encoding %x: %v", t.Name, clipB(in.Encode()), err)
		}
		compareInst(c, dec, s, r)
		for _, f := range onInst {
			f(in)
			if string(in.Encode()) != string(m.Buf) {
				c.Fail("generated %s encodes %x after a rejected operation, %x before", t.Name, clipB(in.Encode()), clipB(m.Buf))
			}
			compareInst(c, in, s, r)
		}
		c.Replayed++
	}
	ex.Explore(c, cf)
	c.Count("configs", 1)
}

// extraOp is an operation on the runtime API and on a generated struct.
type extraOp struct {
	op   func(s *zt.Schema) ex.Op
	gold func(in *gen.Inst)
}

func clipB(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

// unlessFailed disables a write after a failed decode.
func unlessFailed(o ex.Op) ex.Op {
	return ex.Op{Name: o.Name, Do: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool { return r.Aux == 0 && o.Do(c, m, r) }}
}
