package props

import (
	"fmt"
	"strings"

	"verifmc/ex"
	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

// bigs caches filler strings by length. The content looks like nothing in
// particular to a parser that loses its place: tag 10 (a legal varint field).
var bigEven, bigOdd string

func big(n int) string {
	if len(bigEven) < n {
		bigEven = strings.Repeat("P\x01", n+500)
	}
	return bigEven[:n]
}

func fullCheck(s *zt.Schema) func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
	var scratch []ref.Occ
	return func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
		ex.CheckRead(c, s, m, r)
		ex.CheckWire(c, s, m, r, &scratch)
		ex.CheckMinimal(c, s, m, r)
	}
}

// redecodeOp decodes the message's own bytes into the same message.
func redecodeOp(s *zt.Schema) ex.Op {
	return ex.Op{Name: "decode own encoding into the same message", Do: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		if err := m.Decode(s, m.Buf); err != nil {
			c.Fail("decoding the message's own encoding fails: %v", err)
		}
		return true
	}}
}

func resetOp(s *zt.Schema) ex.Op {
	return ex.Op{Name: "reset onto own buffer", Do: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		m.Reset(m.Buf[:0])
		*r = *ex.NewRef(s)
		return true
	}}
}

// c08Config: one big field of swept size and small fields of every offset
// behaviour around it.
func c08Config(size int, variant int) *ex.Config {
	var s *zt.Schema
	cf := &ex.Config{}
	set := func(i int, v ref.V) { cf.Ops = append(cf.Ops, ex.SetOp(s, i, v)) }
	switch variant {
	case 0: // a big field first or last, scalars and elements that move over the boundary
		s = zt.NewSchema(zt.Field{Num: 1, Kind: ref.Bytes}, zt.Field{Num: 2, Kind: ref.Uint64}, zt.Field{Num: 16, Kind: ref.String}, zt.Field{Num: 4, Kind: ref.RepMsg})
		set(0, sv(big(size)))
		set(0, sv(""))
		set(1, u(1))
		set(1, u(300))
		set(2, sv("a"))
		set(2, sv("abcdef"))
		cf.Ops = append(cf.Ops, ex.AppendOp(s, 3, "", 3), ex.AppendOp(s, 3, "\x08\x01", 3))
	case 1: // two big fields whose sum is near the boundary
		s = zt.NewSchema(zt.Field{Num: 3, Kind: ref.String}, zt.Field{Num: 2, Kind: ref.Msg}, zt.Field{Num: 1, Kind: ref.Fixed32}, zt.Field{Num: 5, Kind: ref.RepMsg})
		set(0, sv(big(30000)))
		set(0, sv(big(1)))
		set(1, sv(big(size-30000)))
		set(1, sv(big(size)))
		set(1, sv(""))
		set(2, u(7))
		cf.Ops = append(cf.Ops, ex.AppendOp(s, 3, "\x08\x01", 3), ex.AppendOp(s, 3, big(300), 3))
	case 2: // beyond twice the boundary
		s = zt.NewSchema(zt.Field{Num: 1, Kind: ref.Bytes}, zt.Field{Num: 17, Kind: ref.Bytes}, zt.Field{Num: 2, Kind: ref.Sint32}, zt.Field{Num: 4, Kind: ref.Bool})
		set(0, sv(big(size)))
		set(0, sv(big(3)))
		set(1, sv(big(65536)))
		set(1, sv(big(size+1)))
		set(1, sv(""))
		set(2, u(1))
		set(2, u(100000))
		set(3, u(1))
	case 3: // big repeated elements between fields
		s = zt.NewSchema(zt.Field{Num: 1, Kind: ref.RepMsg}, zt.Field{Num: 2, Kind: ref.RepMsg}, zt.Field{Num: 3, Kind: ref.Uint32}, zt.Field{Num: 4, Kind: ref.Msg})
		cf.Ops = append(cf.Ops, ex.AppendOp(s, 0, big(size), 3), ex.AppendOp(s, 0, "", 3), ex.AppendOp(s, 1, big(size/2), 3), ex.AppendOp(s, 1, "\x08\x01", 3))
		set(2, u(1))
		set(2, u(1<<20))
		set(3, sv("\x08\x01"))
		set(3, sv(big(200)))
	}
	cf.Schema = s
	cf.Check = fullCheck(s)
	cf.Ops = append(cf.Ops, redecodeOp(s), resetOp(s))
	cf.Name = fmt.Sprintf("size %d variant %d", size, variant)
	return cf
}

// c08Prefix: sizes at which a length prefix grows.
func c08Prefix(n int, k ref.Kind) *ex.Config {
	s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 2, Kind: k}, zt.Field{Num: 3, Kind: ref.String})
	cf := &ex.Config{Name: fmt.Sprintf("prefix %s size %d", k, n), Schema: s, Check: fullCheck(s)}
	cf.Ops = append(cf.Ops, ex.SetOp(s, 0, u(1)), ex.SetOp(s, 0, u(300)), ex.SetOp(s, 2, sv("a")), ex.SetOp(s, 2, sv("")))
	if k == ref.RepMsg {
		cf.Ops = append(cf.Ops, ex.AppendOp(s, 1, big(n), 2), ex.AppendOp(s, 1, big(n+1), 2))
	} else {
		cf.Ops = append(cf.Ops, ex.SetOp(s, 1, sv(big(n))), ex.SetOp(s, 1, sv(big(n+1))))
	}
	cf.Ops = append(cf.Ops, redecodeOp(s))
	return cf
}

func init() {
	register(&fw.Prop{ID: "C08", Level: "model_checking",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			lo, hi, depth := 65505, 65545, 4
			if tier == "thorough" {
				lo, hi, depth = 65480, 65560, 5
			}
			for v := 0; v < 4; v++ {
				for n := lo; n <= hi; n++ {
					n, v := n, v
					d := depth
					if tier != "thorough" && n >= 65520 && n <= 65536 && v == 0 {
						d++
					}
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("size-%d-%d", n, v), Run: func(c *fw.Ctx) {
						cf := c08Config(n, v)
						cf.Depth = d
						if n%2 == 1 {
							cf.Slack = 300
						}
						ex.Explore(c, cf)
						c.Count("configs", 1)
					}})
				}
			}
			for _, k := range []ref.Kind{ref.String, ref.Bytes, ref.Msg, ref.RepMsg} {
				k := k
				for _, rg := range [][2]int{{0, 40}, {110, 140}, {245, 260}, {16370, 16390}, {65525, 65540}, {2097145, 2097153}} {
					rg := rg
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("prefix-%s-%d", k, rg[0]), Run: func(c *fw.Ctx) {
						for n := rg[0]; n <= rg[1]; n++ {
							cf := c08Prefix(n, k)
							cf.Depth = 3
							if n > 1<<20 {
								cf.Depth = 2
							}
							ex.Explore(c, cf)
							c.Count("configs", 1)
						}
					}})
				}
			}
			for _, t := range goldenTypes {
				t := t
				jobs = append(jobs, fw.Job{Name: "golden-" + t.Name, Run: func(c *fw.Ctx) { c08Golden(c, t) }})
			}
			jobs = append(jobs, wideJobs([]wideFamily{beyond(wideFamily{"numbers", wideNumbers}), beyond(wideFamily{"padding", widePadding}), beyond(wideFamily{"counts", wideCounts(40)}), beyond(wideFamily{"all", wideAll}), beyond(wideFamily{"wire types", wideMismatch}),
				{"counts", wideCounts(30000)}}, bothSchemas, wideBoundary)...)
			jobs = append(jobs, wideJobs([]wideFamily{beyond(wideFamily{"all", wideAll})}, shiftedSchemas(tier), wideBoundary)...)
			return append(jobs, c08GiantJobs()...)
		}})
}

// bigMsg is big as a valid encoded message.
func bigMsg(n int) string {
	if n%2 == 0 {
		return big(n)
	}
	if len(bigOdd) < n {
		bigOdd = "R\x01x" + strings.Repeat("P\x01", n+500)
	}
	return bigOdd[:n]
}

func c08Golden(c *fw.Ctx, t *gen.Type) {
	var bigf []gen.Field
	for _, f := range t.Fields {
		if f.Kind == ref.String || f.Kind == ref.Bytes || f.Kind == ref.Msg || f.Kind == ref.RepMsg {
			bigf = append(bigf, f)
		}
	}
	for _, bf := range bigf {
		// The big field, a scalar on each side and, if any, a repeated field.
		pick := []gen.Field{bf}
		add := func(g gen.Field) {
			for _, p := range pick {
				if p.Num == g.Num {
					return
				}
			}
			pick = append(pick, g)
		}
		for i, f := range t.Fields {
			if f.Num == bf.Num {
				add(t.Fields[(i+1)%len(t.Fields)])
				add(t.Fields[(i+len(t.Fields)-1)%len(t.Fields)])
			}
		}
		for _, f := range t.Fields {
			if f.Kind == ref.RepMsg {
				add(f)
			}
		}
		for n := 65522; n <= 65540; n += 3 {
			n := n
			goldenExplore(c, t, fmt.Sprintf("golden %s.%s size %d", t.Name, bf.Name, n), pick, func(f gen.Field) []ref.V {
				switch {
				case f.Num == bf.Num && (f.Kind == ref.Msg || f.Kind == ref.RepMsg):
					return []ref.V{sv(bigMsg(n)), sv("")}
				case f.Num == bf.Num:
					return []ref.V{sv(big(n)), sv("")}
				case f.Kind == ref.RepMsg:
					return []ref.V{sv("\x08\x01")}
				}
				return vals(f.Kind, 2)
			}, nil, fullCheck, 3)
			if c.Incomplete {
				return
			}
		}
	}
}
