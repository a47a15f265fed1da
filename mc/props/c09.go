package props

import (
	"fmt"

	"verifmc/ex"
	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

// since is what a message's behaviour may depend on: the bytes last decoded
// (nil after a reset) and the operations since.
type since struct {
	base []byte
	ops  []func(m *zt.Msg)
}

func (b *since) add(f func(m *zt.Msg)) *since {
	return &since{b.base, append(b.ops[:len(b.ops):len(b.ops)], f)}
}

// refOf is the reference for a message that was just decoded.
func refOf(c *fw.Ctx, s *zt.Schema, buf []byte) *ex.Ref {
	r := ex.NewRef(s)
	occs, ok := ref.Parse(buf, nil)
	if !ok {
		c.Broken("refOf: malformed")
	}
	for i, f := range s.Fields {
		for j := range occs {
			if int(occs[j].Num) != f.Num {
				continue
			}
			if f.Kind == ref.RepMsg {
				r.Rep[i] = append(r.Rep[i], string(occs[j].B))
			} else {
				r.Val[i], _ = ref.Read(f.Kind, &occs[j])
				r.Set[i] = true
			}
		}
	}
	return r
}

// c09Decode decodes into whatever the message held before.
func c09Decode(s *zt.Schema, name string, b []byte, wellFormed bool) ex.Op {
	if !wellFormed {
		name += " (malformed)"
	}
	return ex.Op{Name: "decode " + name, Do: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		err := m.Decode(s, append([]byte(nil), b...))
		if (err == nil) != wellFormed {
			c.Fail("decode returns %v", err)
		}
		if !wellFormed {
			*r = *ex.NewRef(s)
			r.Aux = 1
			r.Base = &since{}
			return true
		}
		*r = *refOf(c, s, b)
		r.Base = &since{base: b}
		return true
	}}
}

func c09Reset(s *zt.Schema, name string, buf func(m *zt.Msg) []byte) ex.Op {
	return ex.Op{Name: name, Do: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		m.Reset(buf(m))
		*r = *ex.NewRef(s)
		r.Base = &since{}
		return true
	}}
}

// c09Write makes a write available unless the last decode failed.
func c09Write(o ex.Op, f func(m *zt.Msg)) ex.Op {
	return ex.Op{Name: o.Name, Do: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		if r.Aux != 0 || !o.Do(c, m, r) {
			return false
		}
		r.Base = r.Base.(*since).add(f)
		return true
	}}
}

// c09Onto resets onto a caller's buffer and writes: the encoding must be in
// that buffer.
func c09Onto(s *zt.Schema, i int, v ref.V) ex.Op {
	f := s.Fields[i]
	if f.Kind == ref.Msg {
		v.Has = true
	}
	return ex.Op{Name: fmt.Sprintf("reset onto a buffer of capacity 256, set field %d = %s", f.Num, short(v)), Do: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		mem := make([]byte, 256)
		for j := range mem {
			mem[j] = 0x88
		}
		m.Reset(mem[:0])
		m.Set(f, v)
		if len(m.Buf) > len(mem) || len(m.Buf) == 0 || &m.Buf[0] != &mem[0] {
			c.Fail("the message does not encode into the buffer given to Reset")
		}
		*r = *ex.NewRef(s)
		r.Val[i], r.Set[i] = v, true
		r.Base = (&since{}).add(func(m *zt.Msg) { m.Set(f, v) })
		return true
	}}
}

// c09Check compares with a fresh message that only saw what matters.
func c09Check(s *zt.Schema) func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
	return func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
		if r.Aux != 0 {
			return
		}
		ex.CheckRead(c, s, m, r)
		h := r.Base.(*since)
		t := zt.New(s)
		if h.base != nil {
			if err := t.Decode(s, append([]byte(nil), h.base...)); err != nil {
				c.Fail("fresh decode: %v", err)
			}
		}
		for _, f := range h.ops {
			f(t)
		}
		if string(t.Buf) != string(m.Buf) {
			c.Fail("the reused message encodes %x, a fresh one %x", clipB(m.Buf), clipB(t.Buf))
		}
		ex.CheckRead(c, s, t, r)
	}
}

func c09Config(k ref.Kind, large bool) *ex.Config {
	s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 2, Kind: k}, zt.Field{Num: 17, Kind: ref.String}, zt.Field{Num: 4, Kind: ref.RepMsg})
	cf := &ex.Config{Name: fmt.Sprintf("reuse {1:uint64, 2:%s, 17:string, 4:repeated message} large=%v", k, large), Schema: s, Check: c09Check(s)}
	cf.Init = func() (*zt.Msg, *ex.Ref) {
		r := ex.NewRef(s)
		r.Base = &since{}
		return zt.New(s), r
	}
	e := func(num int, k ref.Kind, v ref.V) []byte { return ref.AppendField(nil, num, k, v) }
	cat := func(l ...[]byte) (b []byte) {
		for _, x := range l {
			b = append(b, x...)
		}
		return b
	}
	v := vals(k, 2)
	small := e(1, ref.Uint64, u(5))
	mixed := cat(e(17, ref.String, sv("abc")), e(4, ref.RepMsg, sv("")), e(2, k, v[0]), e(4, ref.RepMsg, sv("\x08\x01")))
	dec := func(name string, b []byte) { cf.Ops = append(cf.Ops, c09Decode(s, name, b, true)) }
	bad := func(name string, b []byte) { cf.Ops = append(cf.Ops, c09Decode(s, name, b, false)) }
	set := func(i int, v ref.V) {
		f := s.Fields[i]
		cf.Ops = append(cf.Ops, c09Write(ex.SetOp(s, i, v), func(m *zt.Msg) { m.Set(f, v) }))
	}
	dec("empty", []byte{})
	dec("1=5", small)
	dec("17=abc 4= 2 4", mixed)
	dec("unknown only", rawTok("", 5000, 2, 0, []byte{2, 8, 9}).B)
	bad("1=5 then truncated 2", cat(small, e(2, k, v[0])[:1]))
	bad("17 4 2 4 then group", cat(mixed, []byte{1<<3 | 3, 0}))
	bad("2 then overlong length", cat(e(2, k, v[1]), []byte{17<<3&0x7f | 2 | 0x80, 1, 0xff, 0xff, 3}))
	set(0, u(1))
	set(0, u(300))
	set(1, v[1])
	set(2, sv(""))
	if large {
		dec("17=66000 bytes then 1 2 4", cat(e(17, ref.String, sv(big(66000))), e(1, ref.Uint64, u(9)), e(2, k, v[0]), e(4, ref.RepMsg, sv("\x08\x02"))))
		dec("4=66000 bytes then 17", cat(e(4, ref.RepMsg, sv(big(66000))), e(17, ref.String, sv("z"))))
		bad("17=66000 bytes then 1 2 4 then truncated", cat(e(17, ref.String, sv(big(66000))), e(1, ref.Uint64, u(9)), e(2, k, v[0]), e(4, ref.RepMsg, sv("\x08\x02")), []byte{0x08}))
		set(2, sv(big(66000)))
	}
	f4 := s.Fields[3]
	cf.Ops = append(cf.Ops, c09Write(ex.AppendOp(s, 3, "\x08\x01", 2), func(m *zt.Msg) { m.Append(f4, []byte("\x08\x01")) }))
	cf.Ops = append(cf.Ops,
		c09Reset(s, "reset(nil)", func(m *zt.Msg) []byte { return nil }),
		c09Reset(s, "reset onto own buffer", func(m *zt.Msg) []byte { return m.Buf[:0] }),
		c09Onto(s, 0, u(77)), c09Onto(s, 1, v[0]), c09Onto(s, 2, sv("hello")))
	return cf
}

func c09Golden(c *fw.Ctx, t *gen.Type) {
	for i, gf := range t.Fields {
		pick := []gen.Field{gf}
		for _, f := range append(append([]gen.Field{}, t.Fields[(i+1)%len(t.Fields)]), t.Fields...) {
			dup := false
			for _, p := range pick {
				dup = dup || p.Num == f.Num
			}
			if !dup && (len(pick) == 1 || f.Kind == ref.RepMsg) {
				pick = append(pick, f)
			}
		}
		var mixed []byte
		for _, f := range pick {
			mixed = ref.AppendField(mixed, f.Num, f.Kind, goldVals(f.Kind)[0])
		}
		large := append(rawTok("", 60, 2, 0, append(ref.AppendVarint(nil, 66000), big(66000)...)).B, mixed...)
		trunc := append(append([]byte(nil), mixed...), 0x80)
		decode := func(name string, b []byte, ok bool) extraOp {
			return extraOp{func(s *zt.Schema) ex.Op { return c09Decode(s, name, b, ok) }, func(in *gen.Inst) {
				if err := in.Decode(append([]byte(nil), b...)); (err == nil) != ok {
					c.Fail("generated %s: decode %s returns %v", t.Name, name, err)
				}
			}}
		}
		mem := make([]byte, 64)
		extra := []extraOp{
			decode("empty", nil, true), decode("mixed", mixed, true), decode("large", large, true), decode("truncated", trunc, false),
			{func(s *zt.Schema) ex.Op { return c09Reset(s, "reset(nil)", func(m *zt.Msg) []byte { return nil }) }, func(in *gen.Inst) { in.Reset(nil) }},
			{func(s *zt.Schema) ex.Op {
				if s.Fields[0].Kind == ref.RepMsg {
					return c09Reset(s, "reset(mem)", func(m *zt.Msg) []byte { return nil })
				}
				return c09Onto(s, 0, vals(s.Fields[0].Kind, 1)[0])
			}, func(in *gen.Inst) {
				in.Reset(mem[:0])
				if gf.Kind != ref.RepMsg {
					in.Set(gf, vals(gf.Kind, 1)[0])
					if b := in.Encode(); len(b) == 0 || &b[0] != &mem[0] {
						c.Fail("generated %s does not encode into the buffer given to Reset", t.Name)
					}
				}
			}},
		}
		goldenExplore(c, t, fmt.Sprintf("reuse %s.%s", t.Name, gf.Name), pick, func(f gen.Field) []ref.V { return goldVals(f.Kind) }, extra,
			func(s *zt.Schema) func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
				return func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
					if r.Aux == 0 {
						ex.CheckRead(c, s, m, r)
					}
				}
			}, 3, func(in *gen.Inst) {
				// A buffer that already has contents is refused.
				for _, b := range [][]byte{{0}, mixed} {
					refused := true
					func() {
						defer func() { _ = recover() }()
						in.Reset(b[:len(b):len(b)])
						refused = false
					}()
					if !refused {
						c.Fail("generated %s: Reset accepts a buffer with %d bytes of contents", t.Name, len(b))
					}
				}
			})
		if c.Incomplete {
			return
		}
	}
}

func init() {
	register(&fw.Prop{ID: "C09", Level: "model_checking",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			for _, k := range singular {
				for _, large := range []bool{false, true} {
					k, large := k, large
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("reuse-%s-%v", k, large), Run: func(c *fw.Ctx) {
						cf := c09Config(k, large)
						cf.Depth = 7
						if large {
							cf.Depth = 5
						}
						if tier == "thorough" {
							cf.Depth += 2
						}
						ex.Explore(c, cf)
						c.Count("configs", 1)
					}})
				}
			}
			for _, t := range goldenTypes {
				t := t
				jobs = append(jobs, fw.Job{Name: "golden-" + t.Name, Run: func(c *fw.Ctx) { c09Golden(c, t) }})
				jobs = append(jobs, fw.Job{Name: "one-buffer-" + t.Name, Run: func(c *fw.Ctx) { c09BufGolden(c, t) }})
			}
			for _, k := range singular {
				k := k
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("one-buffer-%s", k), Run: func(c *fw.Ctx) { c09Buf(c, k) }})
			}
			jobs = append(jobs, shiftedJobs(tier, wideReuse)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c09"), pairReuse)...)
			return append(jobs, wideJobs(wideFamilies(wideOpt{1 << 18, 1100, 40000}), bothSchemas, wideReuse)...)
		}})
}
