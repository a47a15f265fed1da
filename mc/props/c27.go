package props

import (
	"fmt"

	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

// C27: a message is passed around between programs whose schemas are versions
// of one another. The whole state between two programs is the byte string, so
// the reachable strings are explored breadth first.

// version is one program's schema and what it may write.
type version struct {
	name   string
	s      *zt.Schema
	edits  []edit
	nested *version // the type of field 3 where that is a message
}

func newVersion(name string, nested *version, fields ...zt.Field) *version {
	v := &version{name: name, s: zt.NewSchema(fields...), nested: nested}
	for _, f := range fields {
		var l []ref.V
		switch f.Kind {
		case ref.Msg, ref.RepMsg:
			l = []ref.V{sv(""), sv("\x08\x05")}
		case ref.String, ref.Bytes:
			l = []ref.V{sv("xy"), sv("")}
		case ref.Bool:
			l = []ref.V{u(1)}
		case ref.Int32, ref.Int64:
			l = []ref.V{u(1), u(^uint64(0))}
		default:
			l = []ref.V{u(1), u(300)}
		}
		for _, x := range l {
			v.edits = append(v.edits, edit{f, x})
		}
	}
	return v
}

// versions of one message: fields added, removed, made wider or narrower,
// singular or repeated, and one that disagrees about wire types.
func c27Versions(recursive bool) []*version {
	leafA := newVersion("leaf1", nil, zt.Field{Num: 1, Kind: ref.Int64})
	leafB := newVersion("leaf2", nil, zt.Field{Num: 1, Kind: ref.Bool}, zt.Field{Num: 2, Kind: ref.String})
	if !recursive {
		leafA, leafB = nil, nil
	}
	return []*version{
		newVersion("v1", leafA, zt.Field{Num: 1, Kind: ref.Int64}, zt.Field{Num: 3, Kind: ref.Msg}),
		newVersion("v2", nil, zt.Field{Num: 1, Kind: ref.Bool}, zt.Field{Num: 2, Kind: ref.String}),
		newVersion("v3", leafB, zt.Field{Num: 2, Kind: ref.Bytes}, zt.Field{Num: 3, Kind: ref.RepMsg}, zt.Field{Num: 17, Kind: ref.Uint32}),
		newVersion("v4", nil, zt.Field{Num: 1, Kind: ref.Int32}, zt.Field{Num: 2, Kind: ref.RepMsg}, zt.Field{Num: 3, Kind: ref.Bytes}),
		newVersion("v5", leafB, zt.Field{Num: 1, Kind: ref.Uint32}, zt.Field{Num: 3, Kind: ref.Msg}, zt.Field{Num: 17, Kind: ref.Fixed64}),
		newVersion("v6", nil),
		newVersion("v7", nil, zt.Field{Num: 2, Kind: ref.Float}, zt.Field{Num: 20, Kind: ref.Double}, zt.Field{Num: 3, Kind: ref.RepMsg}, zt.Field{Num: 2100, Kind: ref.RepMsg}),
	}
}

// c27Long: versions that write contents around the sizes where prefixes and
// positions change their form.
func c27Long() []*version {
	long := func(v *version) *version {
		var l []edit
		for _, e := range v.edits {
			if e.f.Kind.Lenlike() {
				if e.v.S != "" {
					continue
				}
				for _, n := range []int{1, 127, 16384, 65530, 70000} {
					l = append(l, edit{e.f, sv(string(long27[:n]))})
				}
			} else {
				l = append(l, e)
			}
		}
		v.edits = l
		return v
	}
	return []*version{
		long(newVersion("long1", nil, zt.Field{Num: 1, Kind: ref.Int64}, zt.Field{Num: 2, Kind: ref.String})),
		long(newVersion("long2", nil, zt.Field{Num: 3, Kind: ref.RepMsg}, zt.Field{Num: 1, Kind: ref.Bool})),
		long(newVersion("long3", nil, zt.Field{Num: 2, Kind: ref.Bytes}, zt.Field{Num: 17, Kind: ref.Fixed32})),
	}
}

var long27 = func() []byte {
	b := make([]byte, 70000)
	for i := range b {
		b[i] = byte(i * 7)
	}
	return b
}()

// hopPath is how a byte string came about.
type hopPath struct {
	prev *hopPath
	what string
}

func (p *hopPath) list() []string {
	if p == nil {
		return nil
	}
	return append(p.prev.list(), p.what)
}

type hopState struct {
	b    []byte
	path *hopPath
}

type c27 struct {
	c     *fw.Ctx
	vs    []*version
	seen  map[string]bool
	path  *hopPath
	what  string
	a, b  []ref.Occ
	depth int
}

// reached checks a byte string with every version and queues it.
func (x *c27) reached(b []byte, next []hopState) []hopState {
	if x.seen[string(b)] {
		return next
	}
	x.seen[string(b)] = true
	x.c.States++
	occs, ok := ref.Parse(b, x.b[:0])
	if !ok {
		x.c.Fail("not well-formed: %x", b)
	}
	x.b = occs
	for _, v := range x.vs {
		m := zt.New(v.s)
		if err := m.Decode(v.s, b[:len(b):len(b)]); err != nil {
			x.c.Fail("%s cannot decode %x: %v", v.name, b, err)
		}
		expectDecoded(x.c, v.s, m, occs)
		if string(m.Buf) != string(b) {
			x.c.Fail("%s decodes %x and encodes %x", v.name, b, m.Buf)
		}
	}
	return append(next, hopState{b, &hopPath{x.path, x.what}})
}

// apply performs one write and checks what it did to the bytes.
func (x *c27) apply(m *zt.Msg, e edit) {
	x.a, _ = ref.Parse(m.Buf, x.a[:0])
	before, own := wireItems(x.a, e.f.Num), only(x.a, e.f.Num)
	e.apply(m)
	x.c.Transitions++
	x.b = checkEdit(x.c, e, before, own, m.Buf, x.b)
}

// nestedEdits applies every write of the nested version to every nested
// message of field 3 (through its own struct, in place where it fits) and
// writes the result back.
func (x *c27) nestedEdits(v *version, b []byte, f func(m *zt.Msg, what string)) {
	if v.nested == nil {
		return
	}
	field, _ := v.s.ByNum(3)
	for _, e := range v.nested.edits {
		m := zt.New(v.s)
		if m.Decode(v.s, append([]byte(nil), b...)) != nil {
			x.c.Fail("decode fails")
		}
		n := zt.New(v.nested.s)
		var raw []byte
		if field.Kind == ref.Msg {
			raw = m.GetRaw(field)
		} else {
			it := m.Iter(field)
			raw, _ = m.Next(&it, field)
		}
		if raw == nil || n.Decode(v.nested.s, raw) != nil {
			return
		}
		x.what = fmt.Sprintf("%s: nested field 3: %s", v.name, e)
		x.a, _ = ref.Parse(m.Buf, x.a[:0])
		before := wireItems(x.a, 3)
		n2 := n.Clone(0) // the edit, away from the parent
		x.apply(n2, e)
		e.apply(n) // the edit, inside the parent
		if string(n.Buf) != string(n2.Buf) {
			x.c.Fail("the nested message becomes %x inside its parent, %x on its own", n.Buf, n2.Buf)
		}
		x.a, _ = ref.Parse(m.Buf, x.a[:0])
		if !sameItems(before, wireItems(x.a, 3)) {
			x.c.Fail("editing a nested message changed other fields of its parent: before %v, after %x", before, m.Buf)
		}
		back := edit{field, sv(string(n2.Buf))}
		if field.Kind == ref.Msg {
			x.a, _ = ref.Parse(m.Buf, x.a[:0])
			own := only(x.a, 3)
			m.SetRaw(field, n.Buf)
			x.b = checkEdit(x.c, back, before, own, m.Buf, x.b)
		} else {
			own := only(x.a, 3)
			m.Append(field, n.Buf)
			x.b = checkEdit(x.c, back, before, own, m.Buf, x.b)
		}
		x.c.Transitions++
		f(m, x.what)
	}
}

func (x *c27) run(start []byte, depth, writes int) {
	x.c.Cur = func() []string { return append(x.path.list(), x.what) }
	x.seen = map[string]bool{}
	x.what = fmt.Sprintf("start from %x", start)
	level := x.reached(start, nil)
	for d := 0; d < depth; d++ {
		var next []hopState
		for _, st := range level {
			x.path = st.path
			for _, v := range x.vs {
				v := v
				for slack := 0; slack <= 40; slack += 40 {
					m0 := zt.New(v.s)
					buf := make([]byte, len(st.b), len(st.b)+slack)
					copy(buf, st.b)
					x.what = v.name + ": decode"
					if err := m0.Decode(v.s, buf); err != nil {
						x.c.Fail("%v", err)
					}
					var rec func(m *zt.Msg, left int, what string) bool
					rec = func(m *zt.Msg, left int, what string) bool {
						for _, e := range v.edits {
							if !x.c.Step() {
								return false
							}
							n := m.Clone(cap(m.Buf) - len(m.Buf))
							x.what = what + ", " + e.String()
							x.apply(n, e)
							expectDecoded(x.c, v.s, n, x.b)
							next = x.reached(n.Buf, next)
							if left > 1 && !rec(n, left-1, x.what) {
								return false
							}
						}
						return true
					}
					if !rec(m0, writes, x.what) {
						return
					}
				}
				x.nestedEdits(v, st.b, func(m *zt.Msg, what string) {
					next = x.reached(append([]byte(nil), m.Buf...), next)
				})
			}
		}
		level = next
		x.c.SetMax("hops", int64(d+1))
	}
	if x.c.WantSample() && len(level) > 0 {
		x.c.Sample(fmt.Sprint(level[len(level)-1].path.list()))
	}
	x.c.Evaluations++
	x.c.Nontrivial++
}

// c27Foreign are fields as yet another program could have written them: with
// contents of the sizes that the versions write, and padded.
func c27Foreign() []Token {
	var toks []Token
	for _, num := range []uint64{1, 2, 3, 17} {
		for _, pad := range [][2]int{{0, 0}, {0, 1}, {0, 2}, {1, 0}, {2, 1}} {
			for _, x := range []string{"", "q", "\x08\x07"} {
				if pad[0] == 2 && x == "q" {
					continue
				}
				toks = append(toks, rawTok(fmt.Sprintf("%d=%q (tag +%d, length +%d)", num, x, pad[0], pad[1]), num, ref.WBytes, pad[0], append(ref.AppendVarintPad(nil, uint64(len(x)), pad[1]), x...)))
			}
			toks = append(toks, rawTok(fmt.Sprintf("%d=9 (tag +%d, value +%d)", num, pad[0], pad[1]), num, ref.WVarint, pad[0], ref.AppendVarintPad(nil, 9, pad[1])))
		}
		toks = append(toks, rawTok(fmt.Sprintf("%d:fixed32", num), num, ref.WFixed32, 0, payloads[ref.WFixed32]), rawTok(fmt.Sprintf("%d:fixed64", num), num, ref.WFixed64, 1, payloads[ref.WFixed64]))
	}
	return toks
}

// c27Golden passes a byte string between two generated types, one of which
// knows fields that the other doesn't or has them with another type.
func c27Golden(c *fw.Ctx, ta, tb *gen.Type, depth int) {
	type ged struct {
		t *gen.Type
		f gen.Field
		v ref.V
	}
	var es []ged
	for _, t := range []*gen.Type{ta, tb} {
		n := 0
		for _, f := range t.Fields {
			if len(t.Fields) > 8 && n >= 5 && f.Kind != ref.RepMsg && f.Kind != ref.Msg {
				continue
			}
			n++
			es = append(es, ged{t, f, goldVals(f.Kind)[n%2]})
		}
	}
	cur := []string{}
	c.Cur = func() []string { return cur }
	schemas := map[*gen.Type]*zt.Schema{}
	for _, t := range []*gen.Type{ta, tb} {
		var fs []zt.Field
		for _, f := range t.Fields {
			fs = append(fs, zt.Field{Num: f.Num, Kind: f.Kind})
		}
		schemas[t] = zt.NewSchema(fs...)
	}
	seen := map[string]bool{"": true}
	level := []hopState{{nil, nil}}
	var occsA, occsB []ref.Occ
	for d := 0; d < depth; d++ {
		var next []hopState
		for _, st := range level {
			for _, e := range es {
				if !c.Step() {
					return
				}
				what := fmt.Sprintf("%s writes %s = %s", e.t.Name, e.f.Name, short(e.v))
				cur = append(st.path.list(), what)
				in := e.t.Make()
				if err := in.Decode(append([]byte(nil), st.b...)); err != nil {
					c.Fail("Decode of a well-formed message fails: %v", err)
				}
				occsA, _ = ref.Parse(st.b, occsA[:0])
				before, own := wireItems(occsA, e.f.Num), only(occsA, e.f.Num)
				if e.f.Kind == ref.RepMsg {
					in.Append(e.f, e.v.S)
				} else {
					in.Set(e.f, e.v)
				}
				c.Transitions++
				c.Replayed++
				b := in.Encode()
				occsB = checkEdit(c, edit{zt.Field{Num: e.f.Num, Kind: e.f.Kind}, e.v}, before, own, b, occsB)
				if seen[string(b)] {
					continue
				}
				seen[string(b)] = true
				c.States++
				for _, t := range []*gen.Type{ta, tb} {
					s := schemas[t]
					m := zt.New(s)
					if err := m.Decode(s, b); err != nil {
						c.Fail("Decode of a well-formed message fails: %v", err)
					}
					expectDecoded(c, s, m, occsB)
					in := t.Make()
					if err := in.Decode(b[:len(b):len(b)]); err != nil {
						c.Fail("Decode of a well-formed message fails: %v", err)
					}
					for _, f := range t.Fields {
						if f.Kind == ref.RepMsg || f.Kind == ref.Msg {
							continue // nested contents of the other type need not be messages
						}
						got, _ := in.Get(f)
						if want := m.Get(zt.Field{Num: f.Num, Kind: f.Kind}); got != want {
							c.Fail("%s.%s reads %v, the runtime API %v: %x", t.Name, f.Name, got, want, b)
						}
					}
				}
				next = append(next, hopState{append([]byte(nil), b...), &hopPath{st.path, what}})
			}
		}
		level = next
	}
	c.Evaluations++
	c.Nontrivial++
}

func init() {
	register(&fw.Prop{ID: "C27", Level: "model_checking",
		Rule: "the states are the byte strings that can be passed on, the transitions are a program of some schema version decoding one, writing one or two fields (or editing a nested message and writing it back), and passing the result on; every reachable string is decoded by every version and compared with the reference parser",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			depth, two, gold := 5, 2, 4
			if tier == "thorough" {
				depth, two, gold = 7, 3, 5
			}
			vs := c27Versions(false)
			// Starting points with what no version would write itself.
			starts := [][]byte{nil,
				{0x88, 0x00, 0x01},       // padded tag
				{0x1a, 0x81, 0x00, 0x08}, // padded length of a nested message that is malformed
				{0x1a, 0x00, 0x08, 0x80, 0x00, 0x1a, 0x02, 0x08, 0x07}, // two pieces, padded varint between
				// What looks like field 3 to a reader that cuts numbers off, between elements.
				{0x1a, 0x01, 0x09, 0x9a, 0x80, 0x20, 0x01, 0x08, 0x9a, 0x80, 0x80, 0x08, 0x01, 0x07, 0x08, 0x85, 0x80, 0x80, 0x00, 0x1a, 0x00},
				// Look-alikes of fields 1 and 3 at the end.
				{0x08, 0x09, 0x1a, 0x01, 0x09, 0x9a, 0x80, 0x20, 0x01, 0x08, 0x88, 0x80, 0x20, 0x05},
				// A field whose number is reserved.
				{0xc0, 0xa6, 0x09, 0x05},
				{0xc2, 0x0c, 0x03, 'a', 'b', 'c', 0x12, 0x01, 'q', 0x12, 0x02, 'r', 's'}, // unknown to all, duplicates
			}
			for i := range vs {
				for j := i; j < len(vs); j++ {
					pair := []*version{vs[i], vs[j]}
					for k, st := range starts {
						st, dp := st, depth
						if k > 0 {
							dp--
						}
						jobs = append(jobs, fw.Job{Name: fmt.Sprintf("pair-%s-%s-%d", vs[i].name, vs[j].name, k), Run: func(c *fw.Ctx) {
							(&c27{c: c, vs: pair}).run(st, dp, 1)
						}})
					}
				}
			}
			for k, st := range starts {
				st := st
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("all-%d", k), Run: func(c *fw.Ctx) {
					(&c27{c: c, vs: vs}).run(st, two+1, 1)
				}}, fw.Job{Name: fmt.Sprintf("two-writes-%d", k), Run: func(c *fw.Ctx) {
					(&c27{c: c, vs: vs}).run(st, two, 2)
				}}, fw.Job{Name: fmt.Sprintf("nested-%d", k), Run: func(c *fw.Ctx) {
					(&c27{c: c, vs: c27Versions(true)}).run(st, two+1, 1)
				}})
			}
			toks := c27Foreign()
			for i := range toks {
				i := i
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("foreign-%d", i), Run: func(c *fw.Ctx) {
					x := &c27{c: c, vs: vs}
					max := 2
					if tier == "thorough" {
						max = 3
					}
					seqs(toks, max, i, func(buf []byte, idx []int) bool {
						x.path = nil
						x.run(append([]byte(nil), buf...), 2, 1)
						c.Count("foreign_starts", 1)
						return !c.Incomplete
					})
				}})
			}
			for k := 0; k < 3; k++ {
				k := k
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("long-%d", k), Run: func(c *fw.Ctx) {
					all := c27Long()
					(&c27{c: c, vs: []*version{all[k], all[(k+1)%3]}}).run(nil, two+1, 1)
				}})
			}
			for i, a := range goldenTypes {
				for _, b := range goldenTypes[i+1:] {
					a, b := a, b
					jobs = append(jobs, fw.Job{Name: "golden-" + a.Name + "-" + b.Name, Run: func(c *fw.Ctx) { c27Golden(c, a, b, gold) }})
				}
			}
			return jobs
		}})
}
