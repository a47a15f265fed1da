package props

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/ex"
	"verifmc/fuel"
	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

// C13 works on a recursive message type (the one of testzeropb.TestMessage, so
// that every history can be replayed on the generated code):
// a bytes, s string, u uint64, n nested message, e repeated message.
var c13F = struct{ a, s, u, n, e int }{0, 1, 2, 3, 4}

func c13Schema() *zt.Schema {
	s := zt.NewSchema(zt.Field{Num: 15, Kind: ref.Bytes}, zt.Field{Num: 14, Kind: ref.String}, zt.Field{Num: 5, Kind: ref.Uint64}, zt.Field{Num: 17, Kind: ref.Msg}, zt.Field{Num: 34, Kind: ref.RepMsg})
	return s
}

var c13Gold = []string{"ByteArray", "String", "Uint64", "Message", "Messages"}

// gop is an operation on the generated struct.
type gop func(in *gen.Inst)

func call(in reflect.Value, m string, args ...reflect.Value) []reflect.Value {
	f := in.MethodByName(m)
	if !f.IsValid() {
		panic(gen.BadAPI("no method " + m))
	}
	return f.Call(args)
}

// content of field i as the reference sees the encoded bytes.
func c13Content(s *zt.Schema, buf []byte, i int) (last *ref.Occ, all []ref.Occ, ok bool) {
	occs, ok := ref.Parse(buf, nil)
	if !ok {
		return nil, nil, false
	}
	for j := range occs {
		if int(occs[j].Num) == s.Fields[i].Num {
			all = append(all, occs[j])
			last = &occs[j]
		}
	}
	return last, all, true
}

// c13Ops builds the alphabet. dirty accepts whatever an in-place edit without
// write-back left in the edited part, and nothing else.
func c13Ops(s *zt.Schema, maxApp int) ([]ex.Op, []gop) {
	F := s.Fields
	var ops []ex.Op
	var gops []gop
	add := func(name string, do func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool, g gop) {
		ops = append(ops, ex.Op{Name: name, Do: do})
		gops = append(gops, g)
	}
	set := func(i int, v ref.V) {
		add(fmt.Sprintf("set %s = %s", c13Gold[i], short(v)), func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
			m.Set(F[i], v)
			r.Val[i], r.Set[i] = v, true
			if i == c13F.n {
				r.Val[i].Has = true
			}
			return true
		}, func(in *gen.Inst) { in.Set(gen.Field{Num: F[i].Num, Kind: F[i].Kind, Name: c13Gold[i]}, v) })
	}
	set(c13F.a, sv("pqr"))
	set(c13F.a, sv(strings.Repeat("\x7a\x01", 65)))
	set(c13F.s, sv(""))
	set(c13F.s, sv("hello"))
	set(c13F.u, u(1))
	set(c13F.u, u(1<<40))
	set(c13F.n, sv("\x7a\x03xyz\x72\x02st\x28\x01"))
	add("append element", func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		if r.Appends >= maxApp {
			return false
		}
		x := "\x72\x01q\x28\x07"
		m.Append(F[c13F.e], []byte(x))
		r.Rep[c13F.e] = append(r.Rep[c13F.e], x)
		r.Appends++
		return true
	}, func(in *gen.Inst) {
		in.Append(gen.Field{Num: 34, Kind: ref.RepMsg, Name: "Messages"}, "\x72\x01q\x28\x07")
	})

	// Copies of values read as views, whole or in part.
	type cut struct {
		name string
		f    func(n int) (int, int, bool)
	}
	whole := cut{"", func(n int) (int, int, bool) { return 0, n, true }}
	tail := cut{"[1:]", func(n int) (int, int, bool) { return 1, n, n > 1 }}
	head := cut{"[:len-1]", func(n int) (int, int, bool) { return 0, n - 1, n > 1 }}
	copyTo := func(dst, src int, ct cut) {
		add(fmt.Sprintf("%s = %s%s", c13Gold[dst], c13Gold[src], ct.name), func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
			if !r.Set[src] {
				return false
			}
			x := r.Val[src].S
			lo, hi, ok := ct.f(len(x))
			if !ok {
				return false
			}
			if F[src].Kind == ref.String && F[dst].Kind == ref.String {
				m.SetRawString(F[dst], m.GetRawString(F[src])[lo:hi])
			} else {
				m.SetRaw(F[dst], m.GetRaw(F[src])[lo:hi])
			}
			r.Val[dst], r.Set[dst] = ref.V{S: x[lo:hi], Has: dst == c13F.n}, true
			return true
		}, func(in *gen.Inst) {
			p := in.P
			x := call(p, c13Gold[src])[0]
			n := x.Len()
			lo, hi, _ := ct.f(n)
			x = x.Slice(lo, hi)
			if F[src].Kind == ref.String && F[dst].Kind == ref.Bytes {
				x = reflect.ValueOf([]byte(x.String()))
			} else if F[src].Kind == ref.Bytes && F[dst].Kind == ref.String {
				x = reflect.ValueOf(string(x.Bytes()))
			}
			call(p, "Set"+c13Gold[dst], x)
		})
	}
	copyTo(c13F.a, c13F.a, whole)
	copyTo(c13F.a, c13F.a, tail)
	copyTo(c13F.a, c13F.a, head)
	copyTo(c13F.a, c13F.s, whole)
	copyTo(c13F.s, c13F.a, whole)
	copyTo(c13F.s, c13F.s, tail)

	// A nested message (or the first element) is obtained, edited, and written
	// back somewhere or not.
	type subEdit struct {
		name string
		do   func(m, sub *zt.Msg)
		g    func(m, sub reflect.Value)
	}
	edits := []subEdit{
		{"no edit", func(m, sub *zt.Msg) {}, func(m, sub reflect.Value) {}},
		{"sub.u = 2", func(m, sub *zt.Msg) { sub.Set(F[c13F.u], u(2)) }, func(m, sub reflect.Value) { call(sub, "SetUint64", reflect.ValueOf(uint64(2))) }},
		{"sub.u = 1<<50", func(m, sub *zt.Msg) { sub.Set(F[c13F.u], u(1<<50)) }, func(m, sub reflect.Value) {
			call(sub, "SetUint64", reflect.ValueOf(uint64(1<<50)))
		}},
		{"sub.s = ''", func(m, sub *zt.Msg) { sub.Set(F[c13F.s], sv("")) }, func(m, sub reflect.Value) { call(sub, "SetString", reflect.ValueOf("")) }},
		{"sub.s = 'uv'", func(m, sub *zt.Msg) { sub.Set(F[c13F.s], sv("uv")) }, func(m, sub reflect.Value) { call(sub, "SetString", reflect.ValueOf("uv")) }},
		{"sub.a = long", func(m, sub *zt.Msg) { sub.Set(F[c13F.a], sv(strings.Repeat("L", 40))) }, func(m, sub reflect.Value) {
			call(sub, "SetByteArray", reflect.ValueOf([]byte(strings.Repeat("L", 40))))
		}},
		{"sub.a = sub.a", func(m, sub *zt.Msg) { sub.SetRaw(F[c13F.a], sub.GetRaw(F[c13F.a])) }, func(m, sub reflect.Value) {
			call(sub, "SetByteArray", call(sub, "ByteArray")[0])
		}},
		{"sub.a = m.a", func(m, sub *zt.Msg) { sub.SetRaw(F[c13F.a], m.GetRaw(F[c13F.a])) }, func(m, sub reflect.Value) {
			call(sub, "SetByteArray", call(m, "ByteArray")[0])
		}},
		// The memory around the nested message, and all of it.
		{"sub.a = m", func(m, sub *zt.Msg) { sub.SetRaw(F[c13F.a], m.Buf) }, func(m, sub reflect.Value) {
			call(sub, "SetByteArray", call(m, "Encode")[0])
		}},
		{"sub.s = sub", func(m, sub *zt.Msg) { sub.SetRaw(F[c13F.s], sub.Buf) }, func(m, sub reflect.Value) {
			call(sub, "SetString", reflect.ValueOf(string(call(sub, "Encode")[0].Bytes())))
		}},
	}
	type back struct {
		name string
		do   func(m, sub *zt.Msg) (field int, app bool, val func() string)
		g    func(m, sub reflect.Value)
	}
	for _, src := range []int{c13F.n, c13F.e} {
		for _, e := range edits {
			for b := 0; b < 4; b++ {
				src, e, b := src, e, b
				bname := []string{"", ", m.Message = sub", ", append sub to m.Messages", ", m.ByteArray = sub.ByteArray"}[b]
				if e.name == "no edit" && b == 0 {
					continue
				}
				if b > 1 && (e.name == "sub.a = m" || e.name == "sub.s = sub") {
					continue
				}
				if b >= 2 && (e.name == "sub.u = 2" || e.name == "sub.s = ''") {
					continue
				}
				from := "sub = m.Message"
				if src == c13F.e {
					from = "sub = m.Messages[0]"
				}
				add(from+", "+e.name+bname, func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
					if b == 2 && r.Appends >= maxApp || len(m.Buf) > 600 || len(m.Buf) > 150 && (e.name == "sub.a = m" || e.name == "sub.s = sub") {
						return false
					}
					var x []byte
					var was string
					if src == c13F.n {
						if !r.Set[src] {
							return false
						}
						x, was = m.GetRaw(F[src]), r.Val[src].S
					} else {
						if len(r.Rep[src]) == 0 {
							return false
						}
						it := m.Iter(F[src])
						x, _ = m.Next(&it, F[src])
						was = r.Rep[src][0]
					}
					if string(x) != was {
						c.Fail("nested message reads %q, expected %q", x, was)
					}
					sub := zt.New(s)
					if err := sub.Decode(s, x); err != nil {
						return false
					}
					// What the nested message must contain after the edit.
					before, _ := ref.Parse([]byte(was), nil)
					want := ex.NewRef(s)
					for i, f := range F {
						for j := range before {
							if int(before[j].Num) == f.Num {
								if before[j].WT != f.Kind.WireType() {
									return false
								}
								if f.Kind == ref.RepMsg {
									want.Rep[i] = append(want.Rep[i], string(before[j].B))
								} else {
									want.Val[i], _ = ref.Read(f.Kind, &before[j])
								}
							}
						}
					}
					switch e.name {
					case "sub.u = 2":
						want.Val[c13F.u].U = 2
					case "sub.u = 1<<50":
						want.Val[c13F.u].U = 1 << 50
					case "sub.s = ''":
						want.Val[c13F.s].S = ""
					case "sub.s = 'uv'":
						want.Val[c13F.s].S = "uv"
					case "sub.a = long":
						want.Val[c13F.a].S = strings.Repeat("L", 40)
					case "sub.a = m":
						want.Val[c13F.a].S = string(m.Buf)
					case "sub.s = sub":
						want.Val[c13F.s].S = was
					case "sub.a = m.a":
						want.Val[c13F.a].S = r.Val[c13F.a].S
					}
					e.do(m, sub)
					ex.CheckRead(c, s, sub, want)
					// The nested edit may have happened in place: only the bytes of
					// the nested message may have changed, not their extent.
					cur := string(sub.Buf)
					last, all, ok := c13Content(s, m.Buf, src)
					if !ok || last == nil {
						c.Fail("editing the nested message broke the parent: %x", m.Buf)
					}
					if src == c13F.n {
						if len(last.B) != len(was) {
							c.Fail("editing the nested message changed its extent in the parent")
						}
						r.Val[src].S = string(last.B)
					} else {
						if len(all) != len(r.Rep[src]) || len(all[0].B) != len(was) {
							c.Fail("editing the element changed its extent in the parent")
						}
						r.Rep[src] = append([]string{string(all[0].B)}, r.Rep[src][1:]...)
					}
					ex.CheckRead(c, s, m, r)
					switch b {
					case 1:
						m.SetRaw(F[c13F.n], sub.Buf)
						r.Val[c13F.n], r.Set[c13F.n] = ref.V{S: cur, Has: true}, true
					case 2:
						m.Append(F[c13F.e], sub.Buf)
						r.Rep[c13F.e] = append(r.Rep[c13F.e][:len(r.Rep[c13F.e]):len(r.Rep[c13F.e])], cur)
						r.Appends++
					case 3:
						// sub.a as it reads now.
						m.SetRaw(F[c13F.a], sub.GetRaw(F[c13F.a]))
						r.Val[c13F.a], r.Set[c13F.a] = ref.V{S: want.Val[c13F.a].S}, true
					}
					return true
				}, func(in *gen.Inst) {
					p := in.P
					var sub reflect.Value
					if src == c13F.n {
						sub = reflect.New(p.MethodByName("Message").Type().In(0).Elem())
						call(p, "Message", sub)
					} else {
						it := reflect.New(p.MethodByName("Messages").Type().Out(0))
						it.Elem().Set(call(p, "Messages")[0])
						sub = reflect.New(it.MethodByName("Next").Type().In(0).Elem())
						call(it, "Next", sub)
					}
					e.g(p, sub)
					switch b {
					case 1:
						call(p, "SetMessage", sub.Elem())
					case 2:
						call(p, "AppendToMessages", sub.Elem())
					case 3:
						call(p, "SetByteArray", call(sub, "ByteArray")[0])
					}
				})
			}
		}
	}
	// The message written into itself.
	add("m.Message = m", func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		if len(m.Buf) > 120 {
			return false
		}
		cur := string(m.Buf)
		m.SetRaw(F[c13F.n], m.Buf)
		r.Val[c13F.n], r.Set[c13F.n] = ref.V{S: cur, Has: true}, true
		return true
	}, func(in *gen.Inst) { call(in.P, "SetMessage", in.P.Elem()) })
	add("append m to m.Messages", func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		if len(m.Buf) > 120 || r.Appends >= maxApp {
			return false
		}
		cur := string(m.Buf)
		m.Append(F[c13F.e], m.Buf)
		r.Rep[c13F.e] = append(r.Rep[c13F.e], cur)
		r.Appends++
		return true
	}, func(in *gen.Inst) { call(in.P, "AppendToMessages", in.P.Elem()) })
	return ops, gops
}

func c13Inits(s *zt.Schema) []Token {
	nested := "\x7a\x05abcde\x72\x03xyz\x28\x81\x01"
	var b []byte
	cat := func(t ...Token) []byte {
		b = nil
		for _, x := range t {
			b = append(b, x.B...)
		}
		return b
	}
	return []Token{
		tok("empty", nil),
		tok("all fields", cat(fieldTok(15, ref.Bytes, sv("ABCDEFG")), fieldTok(17, ref.Msg, sv(nested)), fieldTok(14, ref.String, sv("strstr")), fieldTok(34, ref.RepMsg, sv(nested)), fieldTok(5, ref.Uint64, u(7)), fieldTok(34, ref.RepMsg, sv("")))),
		tok("nested first", cat(fieldTok(17, ref.Msg, sv(nested)), fieldTok(5, ref.Uint64, u(300)), fieldTok(15, ref.Bytes, sv("Z")), fieldTok(14, ref.String, sv("")))),
		tok("element first, padded", cat(rawTok("", 34, 2, 1, append([]byte{0x8f, 0x00}, nested...)), rawTok("", 17, 2, 1, append([]byte{0x8f, 0x00}, nested...)), rawTok("", 15, 2, 1, []byte{0x82, 0x00, 'o', 'p'}), fieldTok(14, ref.String, sv("tail")))),
		tok("nested last, empty", cat(fieldTok(15, ref.Bytes, sv("only")), fieldTok(34, ref.RepMsg, sv("\x28\x01")), fieldTok(17, ref.Msg, sv("")))),
	}
}

func c13Job(c *fw.Ctx, init, slack, depth, firstOp, nparts int) {
	s := c13Schema()
	ops, gops := c13Ops(s, 2)
	in := c13Inits(s)[init]
	start := func() (*zt.Msg, *ex.Ref) {
		m, r := zt.New(s), ex.NewRef(s)
		buf := make([]byte, len(in.B), len(in.B)+slack)
		copy(buf, in.B)
		if err := m.Decode(s, buf); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		occs, _ := ref.Parse(in.B, nil)
		for i, f := range s.Fields {
			for j := range occs {
				if int(occs[j].Num) == f.Num {
					if f.Kind == ref.RepMsg {
						r.Rep[i] = append(r.Rep[i], string(occs[j].B))
					} else {
						r.Val[i], _ = ref.Read(f.Kind, &occs[j])
						r.Set[i] = true
					}
				}
			}
		}
		return m, r
	}
	var scratch []ref.Occ
	t := goldenTypes[0]
	cf := &ex.Config{Name: fmt.Sprintf("decoded %q, %d bytes spare", in.Name, slack), Schema: s, Ops: ops, Depth: depth, Slack: slack, Init: start,
		Check: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
			ex.CheckRead(c, s, m, r)
			ex.CheckWire(c, s, m, r, &scratch)
		},
		OnState: func(c *fw.Ctx, hist func() []int, m *zt.Msg, r *ex.Ref) {
			h := hist()
			if len(h) > 2 && len(h) == depth && !c.Thorough() {
				return
			}
			g := t.Make()
			buf := make([]byte, len(in.B), len(in.B)+slack)
			copy(buf, in.B)
			if err := g.Decode(buf); err != nil {
				c.Fail("generated Decode fails: %v", err)
			}
			for _, o := range h {
				fuel.Set(1 << 30)
				gops[o](g)
			}
			if string(g.Encode()) != string(m.Buf) {
				c.Fail("the generated message encodes %x where the runtime API gives %x", g.Encode(), m.Buf)
			}
			c.Replayed++
		}}
	ex.Explore(c, cf)
}

func init() {
	register(&fw.Prop{ID: "C13", Level: "model_checking",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			depth := 3
			if tier == "thorough" {
				depth = 4
			}
			for i := range c13Inits(c13Schema()) {
				for _, slack := range []int{0, 40, 2000} {
					i, slack := i, slack
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("alias-%d-%d", i, slack), Run: func(c *fw.Ctx) { c13Job(c, i, slack, depth, 0, 1) }})
				}
			}
			jobs = append(jobs, shiftedJobs(tier, wideSelf)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c13"), pairSelf)...)
			return append(jobs, wideJobs(wideFamilies(wideOpt{1 << 18, 300, 40000}), bothSchemas, wideSelf)...)
		}})
}
