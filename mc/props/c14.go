package props

import (
	"fmt"

	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

// edit is one write applied to a decoded message.
type edit struct {
	f zt.Field
	v ref.V
}

func (e edit) String() string {
	if e.f.Kind == ref.RepMsg {
		return fmt.Sprintf("append %q to field %d", e.v.S, e.f.Num)
	}
	return fmt.Sprintf("set field %d (%s) = %s", e.f.Num, e.f.Kind, short(e.v))
}

func (e edit) apply(m *zt.Msg) {
	if e.f.Kind == ref.RepMsg {
		m.Append(e.f, []byte(e.v.S))
	} else {
		m.Set(e.f, e.v)
	}
}

// checkEdit compares the message's bytes after the edit with those before it.
func checkEdit(c *fw.Ctx, e edit, before []wireItem, beforeOwn []wireItem, buf []byte, scratch []ref.Occ) []ref.Occ {
	occs, ok := ref.Parse(buf, scratch[:0])
	if !ok {
		c.Fail("after the edit the message is not well-formed: %x", buf)
	}
	after := wireItems(occs, e.f.Num)
	if !sameItems(before, after) {
		c.Fail("the edit changed other fields: before %v, after %v (bytes %x)", before, after, buf)
	}
	var own []wireItem
	var last *ref.Occ
	for i := range occs {
		if int(occs[i].Num) == e.f.Num {
			own = append(own, wireItem{occs[i].Num, occs[i].WT, occs[i].U, string(occs[i].B)})
			last = &occs[i]
		}
	}
	if last == nil || last.WT != e.f.Kind.WireType() {
		c.Fail("the written field %d is missing or has the wrong wire type: %x", e.f.Num, buf)
	}
	// Other decoders merge the pieces of a message.
	if e.f.Kind == ref.Msg {
		is := 0
		for _, o := range own {
			if o.wt == ref.WBytes {
				is++
			}
		}
		if len(beforeOwn) == 1 && is != 1 {
			c.Fail("the written message field %d is there %d times, other decoders would merge the old contents with the new: %x", e.f.Num, is, buf)
		}
	}
	got, _ := ref.Read(e.f.Kind, last)
	want := e.v
	want.Has = e.f.Kind == ref.Msg || e.f.Kind == ref.RepMsg
	if got != want {
		c.Fail("the written field %d is encoded as %v, expected %v: %x", e.f.Num, got, want, buf)
	}
	if e.f.Kind == ref.RepMsg && !sameItems(own[:len(own)-1], beforeOwn) {
		c.Fail("appending changed existing elements: before %v, after %v", beforeOwn, own)
	}
	return occs
}

func only(occs []ref.Occ, num int) []wireItem {
	var l []wireItem
	for i := range occs {
		if int(occs[i].Num) == num {
			l = append(l, wireItem{occs[i].Num, occs[i].WT, occs[i].U, string(occs[i].B)})
		}
	}
	return l
}

func c14Schema(k ref.Kind) (*zt.Schema, []Token, []edit) {
	s, toks := decodeSchema(k)
	toks = append(toks, mismatches(2, k.WireType())...)
	toks = append(toks, mismatches(17, ref.WBytes)...)
	toks = append(toks, rawTok("4:element (tag padded)", 4, 2, 1, []byte{1, 7}), rawTok("4:element (length padded)", 4, 2, 0, []byte{0x81, 0, 7}))
	var es []edit
	for _, f := range s.Fields {
		switch f.Num {
		case 2:
			for _, v := range vals(f.Kind, 3) {
				es = append(es, edit{f, v})
			}
		case 1:
			es = append(es, edit{f, vals(f.Kind, 2)[1]})
		case 17:
			// Lengths that make the new encoding as long as a mismatched old one.
			es = append(es, edit{f, sv("")}, edit{f, sv("\x10\x01\x88")}, edit{f, sv("1234567")})
		case 4:
			es = append(es, edit{f, sv("\x12\x00")})
		}
	}
	return s, toks, es
}

func c14Job(c *fw.Ctx, k ref.Kind, first, max, edits int) {
	s, toks, es := c14Schema(k)
	if first >= len(toks) {
		return
	}
	var curIdx []int
	var curEd []int
	c.Cur = func() []string {
		t := []string{fmt.Sprintf("schema {2:%s, 1:%s, 17:bytes, 4:repeated message}", k, nextKind(k)), "decode " + seqNames(toks, curIdx)}
		for _, e := range curEd {
			t = append(t, es[e].String())
		}
		return t
	}
	var occsA, occsB []ref.Occ
	seqs(toks, max, first, func(buf []byte, idx []int) bool {
		curIdx = idx
		m0 := zt.New(s)
		if err := m0.Decode(s, append([]byte(nil), buf...)); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		c.States++
		var rec func(m *zt.Msg, depth int) bool
		rec = func(m *zt.Msg, depth int) bool {
			if depth == edits {
				return true
			}
			for i := range es {
				curEd = append(curEd[:depth], i)
				if !c.Step() {
					return false
				}
				occsA, _ = ref.Parse(m.Buf, occsA[:0])
				before, own := wireItems(occsA, es[i].f.Num), only(occsA, es[i].f.Num)
				slack := 0
				if (len(idx)+i)%2 == 1 {
					slack = 64
				}
				n := m.Clone(slack)
				es[i].apply(n)
				c.Transitions++
				occsB = checkEdit(c, es[i], before, own, n.Buf, occsB)
				expectDecoded(c, s, n, occsB)
				if len(own) > 0 {
					c.Count("rewrites", 1)
				}
				// The edited message decodes to the same thing.
				d := n.Clone(0)
				if err := d.Decode(s, d.Buf); err != nil {
					c.Fail("decoding the edited message fails: %v", err)
				}
				expectDecoded(c, s, d, occsB)
				if !rec(n, depth+1) {
					return false
				}
			}
			curEd = curEd[:depth]
			return true
		}
		if !rec(m0, 0) {
			return false
		}
		if len(idx) == max && c.WantSample() {
			c.Sample(seqNames(toks, idx) + " then every edit")
		}
		return true
	})
}

// c14Golden edits messages decoded by the generated types.
func c14Golden(c *fw.Ctx, t *gen.Type, max int) {
	var toks []Token
	type ged struct {
		f gen.Field
		v ref.V
	}
	var es []ged
	for _, f := range t.Fields {
		toks = append(toks, fieldTok(f.Num, f.Kind, goldVals(f.Kind)[0]))
		if len(t.Fields) < 10 || f.Num > 15 {
			toks = append(toks, rawTok(fmt.Sprintf("%d:%s(tag padded)", f.Num, f.Kind), uint64(f.Num), f.Kind.WireType(), 1, ref.AppendValue(nil, f.Kind, goldVals(f.Kind)[0])))
		}
		if len(t.Fields) < 10 && f.Kind != ref.RepMsg {
			toks = append(toks, mismatches(f.Num, f.Kind.WireType())...)
		}
		es = append(es, ged{f, goldVals(f.Kind)[1]})
	}
	toks = append(toks, rawTok("unknown 5000", 5000, 2, 0, []byte{1, 8}))
	in := t.Make()
	var curIdx []int
	cur := ""
	c.Cur = func() []string { return []string{"type " + t.Name, "decode " + seqNames(toks, curIdx), cur} }
	var occsA, occsB []ref.Occ
	seqs(toks, max, -1, func(buf []byte, idx []int) bool {
		curIdx = idx
		for _, e := range es {
			cur = fmt.Sprintf("write %s = %s", e.f.Name, short(e.v))
			if !c.Step() {
				return false
			}
			occsA, _ = ref.Parse(buf, occsA[:0])
			before, own := wireItems(occsA, e.f.Num), only(occsA, e.f.Num)
			if err := in.Decode(append([]byte(nil), buf...)); err != nil {
				c.Fail("Decode of a well-formed message fails: %v", err)
			}
			if e.f.Kind == ref.RepMsg {
				in.Append(e.f, e.v.S)
			} else {
				in.Set(e.f, e.v)
			}
			c.Replayed++
			occsB = checkEdit(c, edit{zt.Field{Num: e.f.Num, Kind: e.f.Kind}, e.v}, before, own, in.Encode(), occsB)
		}
		return true
	})
}

// goldVals returns two values of a kind that are valid for nested messages of
// any generated type too.
func goldVals(k ref.Kind) []ref.V {
	if k == ref.Msg || k == ref.RepMsg {
		return []ref.V{sv("\x10\x01"), sv("")}
	}
	return vals(k, 2)
}

func init() {
	register(&fw.Prop{ID: "C14", Level: "model_checking",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			max, edits, gmax := 3, 1, 2
			if tier == "thorough" {
				max, gmax = 4, 3
			}
			for _, k := range singular {
				k := k
				_, toks, _ := c14Schema(k)
				for first := range toks {
					first := first
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("edit-%s-%d", k, first), Run: func(c *fw.Ctx) { c14Job(c, k, first, max, edits) }})
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("edit2-%s-%d", k, first), Run: func(c *fw.Ctx) { c14Job(c, k, first, max-1, edits+1) }})
				}
			}
			for _, t := range goldenTypes {
				t := t
				jobs = append(jobs, fw.Job{Name: "golden-" + t.Name, Run: func(c *fw.Ctx) { c14Golden(c, t, gmax) }})
			}
			jobs = append(jobs, shiftedJobs(tier, wideEdit)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c14"), pairEdit)...)
			return append(jobs, wideJobs(append(wideFamilies(wideOpt{1 << 21, 300, 40000}), wideFamily{"wire types", wideMismatch}), bothSchemas, wideEdit)...)
		}})
}
