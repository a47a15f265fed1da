package props

import (
	"fmt"
	"unsafe"

	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/zt"
)

func addr(b []byte) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[:1][0]))
}

func strAddr(s string) uintptr {
	if len(s) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(unsafe.StringData(s)))
}

// inside says whether a view lies in the decoded bytes (empty views have no
// bytes to be outside).
func inside(buf []byte, p uintptr, n int) bool {
	if n == 0 {
		return true
	}
	lo := addr(buf)
	return p >= lo && p+uintptr(n) <= lo+uintptr(len(buf))
}

// c06 reads everything from accepted bytes held in three environments that
// differ only in what lies beyond the message.
type c06 struct {
	c       *fw.Ctx
	schemas []*zt.Schema
	ms      []*zt.Msg
	envs    [3][]byte
	nums    []int
	cur     []byte
	what    string
	occs    []ref.Occ
}

func newC06(c *fw.Ctx) *c06 {
	x := &c06{c: c, nums: []int{1, 2, 3}}
	a := zt.NewSchema(zt.Field{Num: 3, Kind: ref.RepMsg})
	b := zt.NewSchema(zt.Field{Num: 1, Kind: ref.RepMsg}, zt.Field{Num: 2, Kind: ref.RepMsg})
	for _, s := range []*zt.Schema{a, b} {
		s.Max = 4
		x.schemas = append(x.schemas, s)
		x.ms = append(x.ms, zt.New(s))
	}
	c.Cur = func() []string { return []string{fmt.Sprintf("decode %x", x.cur), x.what} }
	return x
}

type reading struct {
	v    ref.V
	list []string
	errs []bool
}

func (x *c06) readAll(m *zt.Msg, s *zt.Schema, buf []byte, depth int, out []reading) []reading {
	for _, n := range x.nums {
		for _, k := range singular {
			f := zt.Field{Num: n, Kind: k}
			r := reading{v: m.Get(f)}
			switch k {
			case ref.String:
				v := m.GetRawString(f)
				if !inside(buf, strAddr(v), len(v)) {
					x.fail("string field %d read outside the message", n)
				}
			case ref.Bytes:
				v := m.GetRaw(f)
				if !inside(buf, addr(v), len(v)) {
					x.fail("bytes field %d read outside the message", n)
				}
				if v != nil && depth > 0 {
					sub := zt.New(s)
					err := sub.Decode(s, v)
					r.errs = append(r.errs, err == nil)
					if err == nil {
						out = x.readAll(sub, s, v, depth-1, out)
					}
				}
			}
			out = append(out, r)
		}
		f := zt.Field{Num: n, Kind: ref.RepMsg}
		var r reading
		it := m.Iter(f)
		for i := 0; ; i++ {
			e, ok := m.Next(&it, f)
			if !ok {
				break
			}
			if i > len(buf) {
				x.fail("iterating field %d does not end (%d elements from %d bytes)", n, i, len(buf))
			}
			if !inside(buf, addr(e), len(e)) {
				x.fail("iterating field %d yields bytes outside the message", n)
			}
			if !inside(buf, addr(it), len(it)) {
				x.fail("iterator of field %d points outside the message", n)
			}
			r.list = append(r.list, string(e))
			if depth > 0 {
				sub := zt.New(s)
				err := sub.Decode(s, e)
				r.errs = append(r.errs, err == nil)
				if err == nil {
					out = x.readAll(sub, s, e, depth-1, out)
				}
			}
		}
		if e, ok := m.Next(&it, f); ok {
			x.fail("iterator of field %d continues after the end with %q", n, e)
		}
		out = append(out, r)
	}
	return out
}

func (x *c06) fail(format string, a ...interface{}) { x.c.Fail(format, a...) }

// try reads everything if the bytes are accepted.
func (x *c06) try(in []byte, depth int) bool {
	var ok bool
	if x.occs, ok = ref.Parse(in, x.occs[:0]); !ok {
		x.cur = in
		return x.c.Step()
	}
	return x.read(in, depth, true)
}

// tryAny reads everything whether or not the bytes are accepted.
func (x *c06) tryAny(in []byte, depth int) bool {
	var ok bool
	x.occs, ok = ref.Parse(in, x.occs[:0])
	return x.read(in, depth, ok)
}

func (x *c06) read(in []byte, depth int, valid bool) bool {
	x.cur, x.what = in, "read every field with every accessor"
	if !valid {
		x.what += " although Decode failed"
	}
	if !x.c.Step() {
		return false
	}
	x.c.Evaluations++
	if len(x.occs) > 0 {
		x.c.Nontrivial++
	}
	fills := []byte{0, 0xff, 0x08}
	for i := range x.envs {
		n := len(in) + 24*i
		if cap(x.envs[i]) < n {
			x.envs[i] = make([]byte, n+64)
		}
		// The first environment has no capacity beyond the message.
		e := x.envs[i][:n:n]
		copy(e, in)
		for j := len(in); j < n; j++ {
			e[j] = fills[i]
		}
		x.envs[i] = e
	}
	for si, s := range x.schemas {
		var first []reading
		for i := range x.envs {
			buf := x.envs[i][:len(in)]
			m := x.ms[si]
			if err := m.Decode(s, buf); err != nil && valid {
				x.fail("Decode of a well-formed message fails: %v", err)
			}
			r := x.readAll(m, s, buf, depth, nil)
			if i == 0 {
				first = r
				continue
			}
			if len(r) != len(first) {
				x.fail("reads depend on what lies beyond the message")
			}
			for j := range r {
				if r[j].v != first[j].v || !sameStrings(r[j].list, first[j].list) || fmt.Sprint(r[j].errs) != fmt.Sprint(first[j].errs) {
					x.fail("reads depend on what lies beyond the message: %v versus %v", first[j], r[j])
				}
			}
		}
		for i := range x.envs {
			x.envs[i] = x.envs[i][:0]
		}
		for i := range x.envs {
			x.envs[i] = x.envs[i][:len(in)+24*i]
		}
	}
	if len(x.occs) > 1 && x.c.WantSample() {
		x.c.Sample(fmt.Sprintf("%x", in))
	}
	return true
}

// c06Tokens: fields 1..3 with every wire type and hostile contents.
func c06Tokens() []Token {
	var t []Token
	for n := 1; n <= 3; n++ {
		t = append(t, mismatches(n, -1)...)
		// Values that are small in their low 32 bits, or negative there.
		for _, x := range []uint64{1 << 31, 1<<32 | 1, 1<<32 | 3, 1<<63 | 2} {
			t = append(t, rawTok(fmt.Sprintf("%d:varint %#x", n, x), uint64(n), ref.WVarint, 0, ref.AppendVarint(nil, x)))
		}
		t = append(t,
			rawTok(fmt.Sprintf("%d:varint 0xff..", n), uint64(n), ref.WVarint, 0, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}),
			rawTok(fmt.Sprintf("%d:varint 200", n), uint64(n), ref.WVarint, 0, []byte{0xc8, 0x01}),
			rawTok(fmt.Sprintf("%d:fixed32 continuation", n), uint64(n), ref.WFixed32, 0, []byte{0x80, 0x80, 0x80, 0x80}),
			rawTok(fmt.Sprintf("%d:fixed64 0xff..", n), uint64(n), ref.WFixed64, 0, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}),
			rawTok(fmt.Sprintf("%d:fixed64 long length", n), uint64(n), ref.WFixed64, 0, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}),
			rawTok(fmt.Sprintf("%d:fixed64 group", n), uint64(n), ref.WFixed64, 0, []byte{0x00, 0x0b, 0x0c, 0x0e, 0x0f, 0x80, 0x80, 0x80}),
			rawTok(fmt.Sprintf("%d:empty", n), uint64(n), ref.WBytes, 0, []byte{0}),
			rawTok(fmt.Sprintf("%d:nested", n), uint64(n), ref.WBytes, 0, []byte{5, 0x0d, 0xff, 0xff, 0xff, 0xff}),
			rawTok(fmt.Sprintf("%d:nested overlong", n), uint64(n), ref.WBytes, 0, []byte{3, 0x10, 0x81, 0x00}),
		)
	}
	t = append(t, rawTok("9:fixed32", 9, ref.WFixed32, 0, []byte{0x80, 0x80, 0x80, 0x80}))
	return t
}

// c06Golden: every generated accessor over every wire type of every field.
func c06Golden(c *fw.Ctx, t *gen.Type) {
	var toks []Token
	for _, f := range t.Fields {
		toks = append(toks, mismatches(f.Num, -1)...)
		toks = append(toks, rawTok(fmt.Sprintf("%d:fixed64 0xff..", f.Num), uint64(f.Num), ref.WFixed64, 0, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}))
	}
	in := t.Make()
	var curIdx []int
	c.Cur = func() []string {
		return []string{"type " + t.Name, "decode " + seqNames(toks, curIdx) + " and read every field"}
	}
	seqs(toks, 2, -1, func(buf []byte, idx []int) bool {
		curIdx = idx
		if !c.Step() {
			return false
		}
		c.Evaluations++
		if len(idx) > 0 {
			c.Nontrivial++
		}
		if err := in.Decode(buf[:len(buf):len(buf)]); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		for _, f := range t.Fields {
			if f.Kind == ref.RepMsg {
				_, n := in.ListAll(f, len(buf)+2)
				if n > len(buf)+1 {
					c.Fail("%s iterates forever", f.Name)
				}
				continue
			}
			in.Get(f)
		}
		return true
	})
	// The same for messages cut off anywhere, which don't decode.
	seqs(toks, 2, -1, func(buf []byte, idx []int) bool {
		curIdx = idx
		if len(idx) == 0 {
			return true
		}
		for n := len(buf) - len(toks[idx[len(idx)-1]].B) + 1; n < len(buf); n++ {
			if !c.Step() {
				return false
			}
			c.Evaluations++
			c.Nontrivial++
			in.Decode(buf[:n:n])
			for _, f := range t.Fields {
				if f.Kind == ref.RepMsg {
					if _, m := in.ListAll(f, n+2); m > n+1 {
						c.Fail("%s iterates forever", f.Name)
					}
					continue
				}
				in.Get(f)
			}
		}
		return true
	})
}

func init() {
	register(&fw.Prop{ID: "C06", Level: "exploration",
		Rule: "every accepted byte string over the critical alphabet up to the bound and every token sequence up to the bound over fields 1-3 with every wire type and hostile payloads; each is read by every accessor of every type, iterated, and descended into, with three different surroundings; the same for byte strings that do not decode (short ones and truncated token sequences); non-trivial: at least one field present",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			crit, max := 5, 2
			if tier == "thorough" {
				crit, max = 6, 3
			}
			jobs = append(jobs, fw.Job{Name: "short", Run: func(c *fw.Ctx) {
				x := newC06(c)
				bytesOver(allBytes(), nil, 2, func(b []byte) bool { return x.try(b, 1) })
			}})
			// The same when Decode failed: short contents and messages cut off
			// anywhere.
			jobs = append(jobs, fw.Job{Name: "failed-short", Run: func(c *fw.Ctx) {
				x := newC06(c)
				bytesOver(allBytes(), nil, 2, func(b []byte) bool { return x.tryAny(b, 1) })
			}})
			for _, a := range critical {
				a := a
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("failed-%02x", a), Run: func(c *fw.Ctx) {
					x := newC06(c)
					bytesOver(critical, []byte{a}, crit-1, func(b []byte) bool { return len(b) < 3 || x.tryAny(b, 1) })
				}})
			}
			for _, a := range critical {
				for _, b := range critical {
					a, b := a, b
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("critical-%02x%02x", a, b), Run: func(c *fw.Ctx) {
						x := newC06(c)
						bytesOver(critical, []byte{a, b}, crit, func(b []byte) bool { return len(b) < 3 || x.try(b, 1) })
					}})
				}
			}
			toks := c06Tokens()
			for first := range toks {
				first := first
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("tokens-%d", first), Run: func(c *fw.Ctx) {
					x := newC06(c)
					seqs(toks, max, first, func(buf []byte, idx []int) bool { x.what = seqNames(toks, idx); return x.try(buf, 2) })
				}})
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("truncated-%d", first), Run: func(c *fw.Ctx) {
					x := newC06(c)
					seqs(toks, 2, first, func(buf []byte, idx []int) bool {
						last := len(toks[idx[len(idx)-1]].B)
						for n := len(buf) - last + 1; n < len(buf); n++ {
							if !x.tryAny(buf[:n:n], 1) {
								return false
							}
						}
						return true
					})
				}})
			}
			for _, t := range goldenTypes {
				t := t
				jobs = append(jobs, fw.Job{Name: "golden-" + t.Name, Run: func(c *fw.Ctx) { c06Golden(c, t) }})
			}
			jobs = append(jobs, shiftedJobs(tier, wideSafe)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c06"), anyField(wideSafe))...)
			return append(jobs, wideJobs(append(wideFamilies(wideOpt{70000, 300, 40000}), wideFamily{"wire types", wideMismatch}), bothSchemas, wideSafe)...)
		}})
}
