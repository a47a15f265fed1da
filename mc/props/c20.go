package props

import (
	"fmt"

	"verifmc/ex"
	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// c20Pair explores a small alphabet on two fields with the given numbers.
func c20Pair(c *fw.Ctx, n1, n2 int, k1, k2 ref.Kind, depth int) {
	if n1 == n2 {
		return
	}
	s := zt.NewSchema(zt.Field{Num: n1, Kind: k1}, zt.Field{Num: n2, Kind: k2})
	var scratch []ref.Occ
	cf := &ex.Config{Name: fmt.Sprintf("fields %d (%s) and %d (%s)", n1, k1, n2, k2), Schema: s, Depth: depth,
		Check: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
			ex.CheckRead(c, s, m, r)
			ex.CheckWire(c, s, m, r, &scratch)
			ex.CheckMinimal(c, s, m, r)
		}}
	for i, f := range s.Fields {
		if f.Kind == ref.RepMsg {
			cf.Ops = append(cf.Ops, ex.AppendOp(s, i, "", 2), ex.AppendOp(s, i, "\x08\x01", 2))
			continue
		}
		for _, v := range vals(f.Kind, 2) {
			cf.Ops = append(cf.Ops, ex.SetOp(s, i, v))
		}
	}
	cf.Ops = append(cf.Ops, ex.Op{Name: "decode own encoding", Do: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		if err := m.Decode(s, m.Buf); err != nil {
			c.Fail("decode: %v", err)
		}
		return true
	}}, ex.Op{Name: "reset", Do: func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) bool {
		m.Reset(m.Buf[:0])
		*r = *ex.NewRef(s)
		return true
	}})
	ex.Explore(c, cf)
	c.Count("number_pairs", 1)
}

var c20Kinds = [][2]ref.Kind{{ref.Uint64, ref.Bytes}, {ref.Bytes, ref.Fixed32}, {ref.Fixed64, ref.RepMsg}, {ref.RepMsg, ref.Sint32}, {ref.String, ref.Uint64}}

// c20Skip: the number as an unknown field, before, between and after known
// fields and elements of a small schema.
func c20Skip(c *fw.Ctx, nums []uint64) {
	s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 3, Kind: ref.RepMsg}, zt.Field{Num: 6, Kind: ref.Bytes})
	m := zt.New(s)
	var curIdx []int
	var toks []Token
	c.Cur = func() []string { return []string{"decode " + seqNames(toks, curIdx)} }
	var occs []ref.Occ
	for _, n := range nums {
		if _, ok := s.ByNum(int(n)); ok {
			continue
		}
		toks = []Token{fieldTok(1, ref.Uint64, u(300)), fieldTok(3, ref.RepMsg, sv("\x08\x01")), fieldTok(3, ref.RepMsg, sv("")), fieldTok(6, ref.Bytes, sv("\x1a\x00"))}
		for _, wt := range wireTypes {
			toks = append(toks, rawTok(fmt.Sprintf("%d:wire type %d", n, wt), n, wt, 0, payloads[wt]))
		}
		if !seqs(toks, 3, -1, func(buf []byte, idx []int) bool {
			curIdx = idx
			if !c.Step() {
				return false
			}
			c.Transitions++
			occs, _ = ref.Parse(buf, occs[:0])
			if err := m.Decode(s, buf); err != nil {
				c.Fail("Decode of a well-formed message fails: %v", err)
			}
			expectDecoded(c, s, m, occs)
			return true
		}) {
			return
		}
		c.Count("unknown_numbers", 1)
	}
}

func init() {
	register(&fw.Prop{ID: "C20", Level: "model_checking",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			// Every number up to the bound, with each of the companions.
			max, depth := 2100, 3
			if tier == "thorough" {
				max, depth = 17000, 4
			}
			comp := func(n int) []int {
				return []int{1, 2, 15, 16, n - 1, n + 1, 2047, 2048, n + 128, n + 256, n + 2048, n ^ 1<<11, 8 * n, 128 * n, n + 65536}
			}
			const parts = 64
			for part := 0; part < parts; part++ {
				part := part
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("numbers-%d", part), Run: func(c *fw.Ctx) {
					for n := part + 1; n <= max; n += parts {
						for i, o := range comp(n) {
							if o < 1 || n > 2100 && i > 5 {
								continue
							}
							k := c20Kinds[(n+i)%len(c20Kinds)]
							d := depth
							if n > 2100 || o > n+2048 {
								d = 2
							}
							if o > n+2048 && n%8 != 1 && n > 40 && tier != "thorough" {
								continue
							}
							c20Pair(c, n, o, k[0], k[1], d)
							if n <= 40 || n > 2040 && n <= 2052 {
								for _, k := range c20Kinds {
									c20Pair(c, n, o, k[0], k[1], depth)
								}
							}
							if c.Incomplete {
								return
							}
						}
					}
				}})
			}
			// Where tags grow from 3 to 4 and from 4 to 5 bytes.
			big := []int{16383, 16384, 32767, 65535, 65536, 262142, 262143, 262144, 262145}
			for _, n := range big {
				n := n
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("big-%d", n), Run: func(c *fw.Ctx) {
					for _, k := range c20Kinds {
						for _, o := range []int{1, 16, n - 1} {
							c20Pair(c, n, o, k[0], k[1], 2)
							c20Pair(c, o, n, k[0], k[1], 2)
						}
					}
				}})
			}
			huge := []int{1<<25 - 1, 1 << 25}
			if tier == "thorough" {
				huge = append(huge, ref.MaxNum)
			}
			for _, n := range huge {
				n := n
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("huge-%d", n), Run: func(c *fw.Ctx) { c20Huge(c, n) }})
			}
			var nums []uint64
			for n := uint64(1); n <= 300; n++ {
				nums = append(nums, n)
			}
			for _, b := range []uint64{2048, 16384, 65536, 262144, 1 << 25, 1 << 28, 1<<29 - 2} {
				for d := uint64(0); d < 4; d++ {
					if b+d-2 <= ref.MaxNum {
						nums = append(nums, b+d-2)
					}
				}
			}
			// Aliases of the known numbers.
			for _, k := range []uint64{1, 3, 6} {
				for sh := 3; sh < 29; sh++ {
					for _, n := range []uint64{k + 1<<sh, k << sh} {
						if n > 300 && n <= ref.MaxNum {
							nums = append(nums, n)
						}
					}
				}
			}
			for part := 0; part < 16; part++ {
				part := part
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("skip-%d", part), Run: func(c *fw.Ctx) {
					var l []uint64
					for i := part; i < len(nums); i += 16 {
						l = append(l, nums[i])
					}
					c20Skip(c, l)
				}})
			}
			return append(jobs, allNumberJobs()...)
		}})
}

// c20Huge runs one history on a message whose offset table has n+1 entries
// (cloning and hashing it for a search would take minutes).
func c20Huge(c *fw.Ctx, n int) {
	s := zt.NewSchema(zt.Field{Num: n, Kind: ref.Bytes}, zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: n - 1, Kind: ref.Fixed32})
	m, r := zt.New(s), ex.NewRef(s)
	var names []string
	c.Cur = func() []string { return names }
	var scratch []ref.Occ
	ops := []ex.Op{ex.SetOp(s, 0, sv("abc")), ex.SetOp(s, 1, u(5)), ex.SetOp(s, 2, u(9)), ex.SetOp(s, 0, sv("longer")), ex.SetOp(s, 1, u(500)), ex.SetOp(s, 2, u(1)), ex.SetOp(s, 0, sv(""))}
	for _, o := range ops {
		names = append(names, o.Name)
		o.Do(c, m, r)
		c.Transitions++
		ex.CheckRead(c, s, m, r)
		ex.CheckMinimal(c, s, m, r)
	}
	names = append(names, "decode own encoding")
	ex.CheckRead(c, s, m, r)
	if err := m.Decode(s, m.Buf); err != nil {
		c.Fail("decode: %v", err)
	}
	c.Transitions++
	ex.CheckRead(c, s, m, r)
	occs, _ := ref.Parse(m.Buf, scratch)
	expectDecoded(c, s, m, occs)
	rs := zt.NewSchema(zt.Field{Num: n, Kind: ref.RepMsg})
	rm := &zt.Msg{A: m.A, M: m.M}
	rm.Reset(nil)
	names = append(names, "reset, append two elements and iterate")
	rm.Append(rs.Fields[0], []byte("\x08\x01"))
	rm.Append(rs.Fields[0], nil)
	l, err := rm.List(rs.Fields[0])
	if err != nil || !sameStrings(l, []string{"\x08\x01", ""}) {
		c.Fail("iterates as %q (%v)", l, err)
	}
	c.Transitions += 2
	c.States++
}
