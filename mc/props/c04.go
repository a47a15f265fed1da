package props

import (
	"fmt"

	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

func nextKind(k ref.Kind) ref.Kind { return singular[(int(k)+1)%len(singular)] }

// decodeTokens is the alphabet for a schema {2:k, 1:k2, 17:bytes, 4:rep}, gaps
// 3 and 20, unknown from 21.
func decodeSchema(k ref.Kind) (*zt.Schema, []Token) {
	k2 := nextKind(k)
	s := zt.NewSchema(zt.Field{Num: 2, Kind: k}, zt.Field{Num: 1, Kind: k2}, zt.Field{Num: 17, Kind: ref.Bytes}, zt.Field{Num: 4, Kind: ref.RepMsg})
	s.Max = 20
	var t []Token
	for _, v := range vals(k, 3) {
		t = append(t, fieldTok(2, k, v))
	}
	if p, ok := paddedVal(2, k, vals(k, 1)[0], 1); ok {
		t = append(t, p)
	}
	t = append(t, rawTok(fmt.Sprintf("2:%s(tag padded)", k), 2, k.WireType(), 2, ref.AppendValue(nil, k, vals(k, 2)[1])))
	switch k {
	case ref.Bool, ref.Int32, ref.Uint32, ref.Enum:
		for _, x := range []uint64{1<<32 + 5, 1 << 32, 1<<64 - 1, 2} {
			t = append(t, rawTok(fmt.Sprintf("2:%s wide %#x", k, x), 2, ref.WVarint, 0, ref.AppendVarint(nil, x)))
		}
	}
	t = append(t, fieldTok(1, k2, vals(k2, 1)[0]), fieldTok(1, k2, vals(k2, 2)[1]))
	t = append(t, fieldTok(17, ref.Bytes, sv("\x10\x01\x88")), rawTok("17:bytes(tag padded)", 17, ref.WBytes, 1, []byte{2, 9, 9}))
	t = append(t, fieldTok(4, ref.RepMsg, sv("")), fieldTok(4, ref.RepMsg, sv("\x10\x07")))
	t = append(t, rawTok("gap 3 varint", 3, 0, 0, []byte{0x96, 0x01}), rawTok("gap 20 bytes", 20, 2, 0, []byte{3, 0x10, 0x05, 0x22}))
	t = append(t, rawTok("unknown 21 varint", 21, 0, 0, []byte{1}), rawTok("unknown 21 fixed64", 21, 1, 0, []byte{0x10, 1, 0x10, 2, 0x10, 3, 0x10, 4}),
		rawTok("unknown 300 bytes", 300, 2, 0, []byte{2, 0x10, 0x01}), rawTok("unknown 5000 fixed32", 5000, 5, 0, []byte{0x10, 1, 0x10, 2}),
		rawTok("unknown max varint", ref.MaxNum, 0, 0, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}))
	return s, t
}

// expectDecoded compares all accessors with protobuf semantics of occs. Fields
// with a wire type other than the declared one are skipped.
func expectDecoded(c *fw.Ctx, s *zt.Schema, m *zt.Msg, occs []ref.Occ) {
	for _, f := range s.Fields {
		if f.Kind == ref.RepMsg {
			var want []string
			mism := false
			for j := range occs {
				if int(occs[j].Num) == f.Num {
					want = append(want, string(occs[j].B))
					mism = mism || occs[j].WT != ref.WBytes
				}
			}
			if mism {
				continue
			}
			got, err := m.List(f)
			if err != nil {
				c.Fail("field %d: %v", f.Num, err)
			}
			if !sameStrings(got, want) {
				c.Fail("repeated field %d reads %q, expected %q", f.Num, got, want)
			}
			continue
		}
		var want ref.V
		definite := true
		for j := range occs {
			if int(occs[j].Num) == f.Num {
				if occs[j].WT != f.Kind.WireType() {
					definite = false
					continue
				}
				var d bool
				want, d = ref.Read(f.Kind, &occs[j])
				definite = d
			}
		}
		if !definite {
			continue
		}
		if got := m.Get(f); got != want {
			c.Fail("field %d (%s) reads %v, expected %v", f.Num, f.Kind, got, want)
		}
	}
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// known reports whether a well-formed message has a field the schema declares.
func hasKnown(s *zt.Schema, occs []ref.Occ) bool {
	for i := range occs {
		if _, ok := s.ByNum(int(occs[i].Num)); ok {
			return true
		}
	}
	return false
}

func c04Job(c *fw.Ctx, k ref.Kind, first int, max int) {
	s, toks := decodeSchema(k)
	if first >= len(toks) {
		return
	}
	m := zt.New(s)
	var occs []ref.Occ
	var curIdx []int
	var curBuf []byte
	c.Cur = func() []string {
		return []string{fmt.Sprintf("schema {2:%s, 1:%s, 17:bytes, 4:repeated message}", k, nextKind(k)), "decode " + seqNames(toks, curIdx), fmt.Sprintf("bytes %x", curBuf)}
	}
	seqs(toks, max, first, func(buf []byte, idx []int) bool {
		curIdx, curBuf = idx, buf
		if !c.Step() {
			return false
		}
		c.Evaluations++
		var ok bool
		occs, ok = ref.Parse(buf, occs[:0])
		if !ok {
			c.Broken("token sequence not well-formed: %x", buf)
		}
		if err := m.Decode(s, buf); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		expectDecoded(c, s, m, occs)
		if len(idx) > 1 && hasKnown(s, occs) {
			c.Nontrivial++
			if c.WantSample() && len(idx) == max {
				c.Sample(seqNames(toks, idx))
			}
		}
		return true
	})
}

// c04Golden decodes token sequences with the generated types.
func c04Golden(c *fw.Ctx, t *gen.Type, max int) {
	var toks []Token
	for _, f := range t.Fields {
		if f.Kind == ref.RepMsg {
			toks = append(toks, fieldTok(f.Num, f.Kind, sv("\x10\x01")), fieldTok(f.Num, f.Kind, sv("")))
			continue
		}
		vs := vals(f.Kind, 2)
		toks = append(toks, fieldTok(f.Num, f.Kind, vs[0]), fieldTok(f.Num, f.Kind, vs[1]))
	}
	toks = append(toks, rawTok("unknown 5000", 5000, 2, 0, []byte{1, 8}))
	in := t.Make()
	var curIdx []int
	var curBuf []byte
	var occs []ref.Occ
	c.Cur = func() []string {
		return []string{"type " + t.Name, "decode " + seqNames(toks, curIdx), fmt.Sprintf("bytes %x", curBuf)}
	}
	seqs(toks, max, -1, func(buf []byte, idx []int) bool {
		curIdx, curBuf = idx, buf
		if !c.Step() {
			return false
		}
		c.Evaluations++
		occs, _ = ref.Parse(buf, occs[:0])
		if err := in.Decode(buf); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		for _, f := range t.Fields {
			if f.Kind == ref.RepMsg {
				var want []string
				for j := range occs {
					if int(occs[j].Num) == f.Num {
						want = append(want, string(occs[j].B))
					}
				}
				got, err := in.List(f, 16)
				if err != nil || !sameStrings(got, want) {
					c.Fail("%s iterates as %q (%v), expected %q", f.Name, got, err, want)
				}
				continue
			}
			var want ref.V
			for j := range occs {
				if int(occs[j].Num) == f.Num {
					want, _ = ref.Read(f.Kind, &occs[j])
				}
			}
			got, err := in.Get(f)
			if f.Kind == ref.Msg && !want.Has {
				got.S = ""
			}
			if err != nil || got != want {
				c.Fail("%s reads %v (%v), expected %v", f.Name, got, err, want)
			}
		}
		if len(idx) > 1 {
			c.Nontrivial++
		}
		return true
	})
}

func init() {
	register(&fw.Prop{ID: "C04", Level: "exploration",
		Rule: "every sequence (up to the bound) of encoded fields over the alphabet of a schema, one schema per field type and per checked-in generated type; non-trivial: at least two fields, at least one known to the schema",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			max := 5
			gmax := 4
			if tier == "thorough" {
				max = 6
			}
			for _, k := range singular {
				k := k
				_, toks := decodeSchema(k)
				for first := range toks {
					first := first
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("decode-%s-%d", k, first), Run: func(c *fw.Ctx) { c04Job(c, k, first, max) }})
				}
			}
			for _, t := range goldenTypes {
				t := t
				m := gmax
				if len(t.Fields) > 10 {
					m = 3
				}
				if tier == "thorough" {
					m++
				}
				jobs = append(jobs, fw.Job{Name: "golden-" + t.Name, Run: func(c *fw.Ctx) { c04Golden(c, t, m) }})
			}
			jobs = append(jobs, shiftedJobs(tier, wideDecode)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c04"), anyField(wideDecode))...)
			return append(jobs, wideJobs(wideFamilies(wideOpt{1 << 22, 70000, 40000}), bothSchemas, wideDecode)...)
		}})
}
