package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/fuel"
	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

// reader is one read operation with a comparable result.
type reader struct {
	name string
	do   func(m *zt.Msg) string
}

func readers(s *zt.Schema) []reader {
	var rs []reader
	for _, f := range s.Fields {
		f := f
		if f.Kind == ref.RepMsg {
			rs = append(rs, reader{fmt.Sprintf("iterate field %d", f.Num), func(m *zt.Msg) string {
				l, err := m.List(f)
				return fmt.Sprintf("%q %v", l, err)
			}})
			continue
		}
		rs = append(rs, reader{fmt.Sprintf("read field %d", f.Num), func(m *zt.Msg) string { return m.Get(f).String() }})
		if f.Kind == ref.Msg {
			rs = append(rs, reader{fmt.Sprintf("descend into field %d", f.Num), func(m *zt.Msg) string {
				sub := zt.New(s)
				x := m.GetRaw(f)
				if x == nil {
					return "absent"
				}
				err := sub.Decode(s, x)
				return fmt.Sprintf("%v %v %q", err == nil, sub.Get(s.Fields[1]), sub.Buf)
			}})
		}
	}
	rs = append(rs, reader{"encode", func(m *zt.Msg) string { return fmt.Sprintf("%d@%d", len(m.Buf), addr(m.Buf)) }})
	return rs
}

const guard = 24

func c12Job(c *fw.Ctx, k ref.Kind, first, max int) {
	s, toks := decodeSchema(k)
	if first >= len(toks) {
		return
	}
	toks = append(toks, mismatches(2, k.WireType())...)
	rs := readers(s)
	var curIdx []int
	var curOps []string
	c.Cur = func() []string {
		return append([]string{fmt.Sprintf("schema {2:%s, 1:%s, 17:bytes, 4:repeated message}", k, nextKind(k)), "decode " + seqNames(toks, curIdx)}, curOps...)
	}
	m := zt.New(s)
	var occs []ref.Occ
	arena := make([]byte, 4096)
	orig := make([]byte, 4096)
	alone := make([]string, len(rs))
	seqs(toks, max, first, func(buf []byte, idx []int) bool {
		curIdx, curOps = idx, nil
		if !c.Step() {
			return false
		}
		c.Evaluations++
		if len(idx) > 1 {
			c.Nontrivial++
			if c.WantSample() {
				c.Sample(seqNames(toks, idx))
			}
		}
		n := len(buf)
		a := arena[:n+2*guard]
		for i := range a {
			a[i] = 0xa5
		}
		copy(a[guard:], buf)
		o := orig[:len(a)]
		copy(o, a)
		in := a[guard : guard+n] // with the guard as spare capacity
		unchanged := func() {
			if !bytes.Equal(a, o) {
				c.Fail("the caller's bytes changed: before %x, after %x", o, a)
			}
			if len(m.Buf) != n || addr(m.Buf) != addr(in) {
				c.Fail("the encoded form is no longer the decoded bytes")
			}
		}
		if err := m.Decode(s, in); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		unchanged()
		fresh := m.Clone(0)
		state := string(fmt.Sprint(fresh.A, fresh.M))
		for i, r := range rs {
			curOps = append(curOps[:0], r.name)
			alone[i] = r.do(m)
			unchanged()
		}
		// Every ordered pair of reads.
		if len(idx) <= 2 || c.Thorough() && len(idx) <= 3 {
			for i := range rs {
				for j := range rs {
					curOps = append(curOps[:0], rs[i].name, rs[j].name)
					rs[i].do(m)
					if got := rs[j].do(m); got != alone[j] {
						c.Fail("result changed from %s to %s", alone[j], got)
					}
				}
			}
			unchanged()
		}
		if got := fmt.Sprint(m.A, m.M); got != state {
			c.Fail("reading changed the message's offsets from %s to %s", state, got)
		}
		// Any spare capacity must stay as it is.
		for spare := 0; spare < guard && (len(idx) <= 2 || c.Thorough()); spare++ {
			in = a[guard : guard+n : guard+n+spare]
			curOps = append(curOps[:0], fmt.Sprintf("with %d bytes of spare capacity", spare))
			if err := m.Decode(s, in); err != nil {
				c.Fail("Decode of a well-formed message fails: %v", err)
			}
			for i, r := range rs {
				curOps = append(curOps[:1], r.name)
				if got := r.do(m); got != alone[i] {
					c.Fail("reads %s, with more capacity %s", got, alone[i])
				}
			}
			unchanged()
			c.Count("spare_capacities", 1)
		}
		in = a[guard : guard+n]
		if err := m.Decode(s, in); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		// Views.
		occs, _ = ref.Parse(buf, occs[:0])
		for _, f := range s.Fields {
			if f.Kind.WireType() != ref.WBytes {
				continue
			}
			var all []*ref.Occ
			okay := true
			for i := range occs {
				if int(occs[i].Num) == f.Num {
					okay = okay && occs[i].WT == ref.WBytes
					all = append(all, &occs[i])
				}
			}
			if !okay || len(all) == 0 {
				continue
			}
			view := func(what string, p uintptr, v []byte, oc *ref.Occ) {
				curOps = append(curOps[:0], what)
				if string(v) != string(oc.B) {
					c.Fail("view is %q, expected %q", v, oc.B)
				}
				if len(v) > 0 && p != addr(in)+uintptr(oc.End-len(oc.B)) {
					c.Fail("view is not the field's bytes in the message")
				}
				if cap(v) > len(v) {
					_ = append(v, bytes.Repeat([]byte{0xee}, cap(v)-len(v))...)
					unchanged()
				}
			}
			last := all[len(all)-1]
			if f.Kind == ref.RepMsg {
				it := m.Iter(f)
				for i := 0; i < len(all); i++ {
					e, ok := m.Next(&it, f)
					if !ok {
						c.Fail("field %d: element %d missing", f.Num, i)
					}
					view(fmt.Sprintf("view of element %d of field %d", i, f.Num), addr(e), e, all[i])
				}
				continue
			}
			v := m.GetRaw(f)
			view(fmt.Sprintf("view of field %d", f.Num), addr(v), v, last)
			sv := m.GetRawString(f)
			view(fmt.Sprintf("string view of field %d", f.Num), strAddr(sv), []byte(sv)[:len(sv):len(sv)], last)
		}
		return true
	})
}

func c12Golden(c *fw.Ctx, t *gen.Type, max int) {
	var toks []Token
	for _, f := range t.Fields {
		toks = append(toks, fieldTok(f.Num, f.Kind, goldVals(f.Kind)[0]))
	}
	toks = append(toks, rawTok("unknown 5000", 5000, 2, 0, []byte{1, 8}))
	in := t.Make()
	var curIdx []int
	cur := ""
	c.Cur = func() []string { return []string{"type " + t.Name, "decode " + seqNames(toks, curIdx), cur} }
	arena := make([]byte, 4096)
	orig := make([]byte, 4096)
	read := func(f gen.Field) string {
		if f.Kind == ref.RepMsg {
			l, err := in.List(f, 64)
			return fmt.Sprintf("%q %v", l, err)
		}
		v, err := in.Get(f)
		return fmt.Sprintf("%v %v", v, err)
	}
	seqs(toks, max, -1, func(buf []byte, idx []int) bool {
		curIdx = idx
		if !c.Step() {
			return false
		}
		c.Evaluations++
		if len(idx) > 1 {
			c.Nontrivial++
		}
		a := arena[:len(buf)+2*guard]
		for i := range a {
			a[i] = 0xa5
		}
		copy(a[guard:], buf)
		o := orig[:len(a)]
		copy(o, a)
		b := a[guard : guard+len(buf)]
		if err := in.Decode(b); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		var first []string
		for _, f := range t.Fields {
			cur = "read " + f.Name
			first = append(first, read(f))
			if !bytes.Equal(a, o) {
				c.Fail("the caller's bytes changed: before %x, after %x", o, a)
			}
		}
		for i := len(t.Fields) - 1; i >= 0; i-- {
			cur = "read again " + t.Fields[i].Name
			if got := read(t.Fields[i]); got != first[i] {
				c.Fail("result changed from %s to %s", first[i], got)
			}
		}
		for spare := 0; spare < guard && len(idx) < 2; spare++ {
			b = a[guard : guard+len(buf) : guard+len(buf)+spare]
			cur = fmt.Sprintf("decode with %d bytes of spare capacity", spare)
			if err := in.Decode(b); err != nil {
				c.Fail("Decode of a well-formed message fails: %v", err)
			}
			for i, f := range t.Fields {
				if got := read(f); got != first[i] {
					c.Fail("result changed from %s to %s", first[i], got)
				}
			}
			if !bytes.Equal(a, o) {
				c.Fail("the caller's bytes changed: before %x, after %x", o, a)
			}
		}
		if e := in.Encode(); len(e) != len(b) || addr(e) != addr(b) {
			c.Fail("Encode after Decode does not return the decoded bytes")
		}
		if tm, ok := in.P.Interface().(*testzeropb.TestMessage); ok {
			fuel.Set(1 << 26)
			cur = "text"
			if x, y := tm.Text(), tm.Text(); x != y || strings.Contains(x, "\xa5") {
				c.Fail("text changed from %s to %s", x, y)
			}
		}
		if !bytes.Equal(a, o) {
			c.Fail("the caller's bytes changed: before %x, after %x", o, a)
		}
		return true
	})
}

func init() {
	register(&fw.Prop{ID: "C12", Level: "exploration",
		Rule: "every token sequence up to the bound, decoded inside a guarded arena; every read and every ordered pair of reads; views compared by address with the field's extent; non-trivial: at least two fields",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			max, gmax := 4, 3
			if tier == "thorough" {
				max, gmax = 5, 4
			}
			for _, k := range singular {
				k := k
				_, toks := decodeSchema(k)
				for first := range toks {
					first := first
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("read-%s-%d", k, first), Run: func(c *fw.Ctx) { c12Job(c, k, first, max) }})
				}
			}
			for _, t := range goldenTypes {
				t := t
				g := gmax
				if len(t.Fields) > 15 {
					g = 2
				}
				jobs = append(jobs, fw.Job{Name: "golden-" + t.Name, Run: func(c *fw.Ctx) { c12Golden(c, t, g) }})
			}
			jobs = append(jobs, shiftedJobs(tier, wideUnchanged)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c12"), anyField(wideUnchanged))...)
			return append(jobs, wideJobs(append(wideFamilies(wideOpt{1 << 21, 1100, 40000}), wideFamily{"wire types", wideMismatch}), bothSchemas, wideUnchanged)...)
		}})
}
