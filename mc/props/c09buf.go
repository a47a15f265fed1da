package props

import (
	"fmt"

	"verifmc/ex"
	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

// A program that reads messages into one buffer, over and over: what is in the
// memory changes while address and length stay the same, so nothing may be
// remembered about a buffer from one message to the next. Every history is run
// from its beginning and in its own buffer.

// bufMsg is what the histories are run on: the runtime API or a generated type.
type bufMsg interface {
	decode(b []byte) error
	reset(b []byte)
	set(i int, v ref.V)
	app(i int, x string)
	// peek starts to read: each field, and the first element of each list.
	peek(c *fw.Ctx)
	check(c *fw.Ctx, r *ex.Ref)
	encoded() []byte
	fresh() bufMsg
}

type bufZt struct {
	s *zt.Schema
	m *zt.Msg
}

func (b *bufZt) decode(x []byte) error { return b.m.Decode(b.s, x) }
func (b *bufZt) reset(x []byte)        { b.m.Reset(x) }
func (b *bufZt) set(i int, v ref.V)    { b.m.Set(b.s.Fields[i], v) }
func (b *bufZt) app(i int, x string)   { b.m.Append(b.s.Fields[i], []byte(x)) }
func (b *bufZt) encoded() []byte       { return b.m.Buf }
func (b *bufZt) fresh() bufMsg         { return &bufZt{b.s, zt.New(b.s)} }
func (b *bufZt) check(c *fw.Ctx, r *ex.Ref) {
	ex.CheckRead(c, b.s, b.m, r)
}
func (b *bufZt) peek(c *fw.Ctx) {
	for _, f := range b.s.Fields {
		if f.Kind == ref.RepMsg {
			it := b.m.Iter(f)
			b.m.Next(&it, f)
		} else {
			b.m.Get(f)
		}
	}
}

type bufGen struct {
	t  *gen.Type
	s  *zt.Schema
	fs []gen.Field
	in *gen.Inst
}

func (b *bufGen) decode(x []byte) error      { return b.in.Decode(x) }
func (b *bufGen) reset(x []byte)             { b.in.Reset(x) }
func (b *bufGen) set(i int, v ref.V)         { b.in.Set(b.fs[i], v) }
func (b *bufGen) app(i int, x string)        { b.in.Append(b.fs[i], x) }
func (b *bufGen) encoded() []byte            { return b.in.Encode() }
func (b *bufGen) fresh() bufMsg              { return &bufGen{b.t, b.s, b.fs, b.t.Make()} }
func (b *bufGen) check(c *fw.Ctx, r *ex.Ref) { compareInst(c, b.in, b.s, r) }
func (b *bufGen) peek(c *fw.Ctx) {
	for _, f := range b.fs {
		if f.Kind == ref.RepMsg {
			b.in.ListAll(f, 1)
		} else {
			b.in.Get(f)
		}
	}
}

type bufState struct {
	m   bufMsg
	r   *ex.Ref
	mem []byte
}

type bufOp struct {
	name string
	do   func(c *fw.Ctx, t *bufState) bool
}

// bufHistories runs every sequence of operations up to depth, from scratch, and
// compares at the end of each (every prefix is a sequence of its own, so what a
// history remembers is not disturbed by intermediate comparisons).
func bufHistories(c *fw.Ctx, name string, depth int, start func() *bufState, ops []bufOp) {
	hist := make([]int, 0, depth)
	c.Cur = func() []string {
		t := []string{name}
		for _, o := range hist {
			t = append(t, ops[o].name)
		}
		return t
	}
	var rec func()
	rec = func() {
		for o := range ops {
			hist = append(hist, o)
			if !c.Step() {
				return
			}
			t := start()
			ok := true
			for _, h := range hist {
				if ok = ops[h].do(c, t); !ok {
					break
				}
			}
			if ok {
				c.Transitions++
				t.m.check(c, t.r)
				c.States++
				c.SetMax("depth", int64(len(hist)))
				if len(hist) < depth {
					rec()
				} else if c.WantSample() {
					c.Sample(fmt.Sprint(c.Cur()))
				}
			}
			hist = hist[:len(hist)-1]
		}
	}
	rec()
	c.Count("histories_in_one_buffer", c.States)
}

// bufOps are the operations on one buffer for a schema with fields {0: integer,
// 1: k, 2: string or bytes, 3: repeated}; a negative index leaves a field out.
func bufOps(s *zt.Schema, k ref.Kind, i0, i1, i2, i3 int) []bufOp {
	v := vals(k, 2)
	num := func(i int) int { return s.Fields[i].Num }
	var e0, e1, e2 []byte
	el := func(x string) []byte {
		if i3 < 0 {
			return nil
		}
		return ref.AppendField(nil, num(i3), ref.RepMsg, sv(x))
	}
	if i0 >= 0 {
		e0 = ref.AppendField(nil, num(i0), s.Fields[i0].Kind, u(5))
	}
	if i1 >= 0 {
		e1 = ref.AppendField(nil, num(i1), k, v[0])
	}
	if i2 >= 0 {
		e2 = ref.AppendField(nil, num(i2), s.Fields[i2].Kind, sv("abc"))
	}
	pad := func(n int) []byte {
		return append([]byte{0xc2, 0xb8, 0x02, byte(n)}, make([]byte, n)...)
	}
	cat := func(l ...[]byte) (b []byte) {
		for _, x := range l {
			b = append(b, x...)
		}
		return b
	}
	a := el("\x08\x01")
	b := el("\x08\x02")
	empty := el("")
	layouts := [][]byte{
		cat(e0, a, e1, e2, b, pad(3), empty),
		cat(e0, a, e1, e2, pad(3), b, empty), // the second element elsewhere
		cat(e2, e1, pad(3), empty, b, a, e0), // everything elsewhere
	}
	if n := len(layouts[0]) - 4; n < 120 {
		layouts = append(layouts, pad(n)) // nothing that is known
	}
	if len(e1) > 1 {
		// The field twice, in the place of others.
		l := cat(e1, e1)
		if n := len(layouts[0]) - len(l) - 4; n >= 0 && n < 120 {
			layouts = append(layouts, cat(e1, pad(n), e1))
		}
	}
	var ops []bufOp
	add := func(name string, do func(c *fw.Ctx, t *bufState) bool) { ops = append(ops, bufOp{name, do}) }
	for i, l := range layouts {
		l := l
		add(fmt.Sprintf("read %x into the buffer and decode it", l), func(c *fw.Ctx, t *bufState) bool {
			if len(l) != len(layouts[0]) {
				c.Broken("layout %d", i)
			}
			copy(t.mem, l)
			if err := t.m.decode(t.mem[:len(l)]); err != nil {
				c.Fail("decode returns %v", err)
			}
			t.r = refOf(c, s, l)
			return true
		})
	}
	add("read every field and the first element", func(c *fw.Ctx, t *bufState) bool { t.m.peek(c); return true })
	add("read everything", func(c *fw.Ctx, t *bufState) bool { t.m.check(c, t.r); return true })
	add("decode the message's bytes into another struct and use that", func(c *fw.Ctx, t *bufState) bool {
		n := t.m.fresh()
		if err := n.decode(t.m.encoded()); err != nil {
			c.Fail("decode returns %v", err)
		}
		t.m = n
		return true
	})
	set := func(i int, v ref.V) {
		if i < 0 {
			return
		}
		if s.Fields[i].Kind == ref.Msg {
			v.Has = true
		}
		add(fmt.Sprintf("set field %d = %v", num(i), v), func(c *fw.Ctx, t *bufState) bool {
			t.m.set(i, v)
			t.r.Val[i], t.r.Set[i] = v, true
			return true
		})
	}
	set(i0, u(6))
	set(i1, v[1])
	set(i2, sv("\x22\x00\x0a"))
	if i3 >= 0 {
		add(fmt.Sprintf("append to field %d", num(i3)), func(c *fw.Ctx, t *bufState) bool {
			t.m.app(i3, "\x08\x03")
			t.r.Rep[i3] = append(t.r.Rep[i3][:len(t.r.Rep[i3]):len(t.r.Rep[i3])], "\x08\x03")
			return true
		})
	}
	add("reset onto the buffer", func(c *fw.Ctx, t *bufState) bool {
		t.m.reset(t.mem[:0])
		t.r = ex.NewRef(s)
		return true
	})
	return ops
}

func c09Buf(c *fw.Ctx, k ref.Kind) {
	s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 2, Kind: k}, zt.Field{Num: 17, Kind: ref.String}, zt.Field{Num: 4, Kind: ref.RepMsg})
	depth := 4
	if c.Thorough() {
		depth = 5
	}
	bufHistories(c, fmt.Sprintf("one buffer {1:uint64, 2:%s, 17:string, 4:repeated message}", k), depth, func() *bufState {
		return &bufState{m: &bufZt{s, zt.New(s)}, r: ex.NewRef(s), mem: make([]byte, 160)}
	}, bufOps(s, k, 0, 1, 2, 3))
}

func c09BufGolden(c *fw.Ctx, t *gen.Type) {
	// The integer, the other field, the string and the list.
	idx := [4]int{-1, -1, -1, -1}
	var fs []gen.Field
	take := func(slot int, ok func(k ref.Kind) bool) {
		for _, f := range t.Fields {
			dup := false
			for _, g := range fs {
				dup = dup || f.Num == g.Num
			}
			if !dup && ok(f.Kind) {
				idx[slot] = len(fs)
				fs = append(fs, f)
				return
			}
		}
	}
	take(0, func(k ref.Kind) bool { return k == ref.Uint64 })
	take(2, func(k ref.Kind) bool { return k == ref.Bytes || k == ref.String })
	take(3, func(k ref.Kind) bool { return k == ref.RepMsg })
	take(1, func(k ref.Kind) bool { return k == ref.Msg })
	if idx[1] < 0 {
		take(1, func(k ref.Kind) bool { return k != ref.RepMsg })
	}
	var zf []zt.Field
	k := ref.Bool
	for _, f := range fs {
		zf = append(zf, zt.Field{Num: f.Num, Kind: f.Kind})
	}
	if idx[1] >= 0 {
		k = fs[idx[1]].Kind
	}
	s := zt.NewSchema(zf...)
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	bufHistories(c, "one buffer "+t.Name, depth, func() *bufState {
		return &bufState{m: (&bufGen{t: t, s: s, fs: fs}).fresh(), r: ex.NewRef(s), mem: make([]byte, 160)}
	}, bufOps(s, k, idx[0], idx[1], idx[2], idx[3]))
}
