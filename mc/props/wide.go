package props

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	"verifmc/ex"
	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// The ladders: instead of the small alphabets that the exhaustive sequences
// use, these spaces enumerate one dimension at a time (field number, padding,
// length, count, number of fields) as far as it goes, in a fixed set of
// contexts. Every property that speaks about decoded messages judges every
// document with its own oracle.

// wideSchema has a field of (nearly) every type with tags of one, two and
// three bytes, pairs of field numbers that agree modulo 256, and two repeated
// fields.
func wideSchema() *zt.Schema {
	return zt.NewSchema(
		zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 2, Kind: ref.Bytes}, zt.Field{Num: 3, Kind: ref.RepMsg}, zt.Field{Num: 4, Kind: ref.Sint32},
		zt.Field{Num: 5, Kind: ref.Fixed32}, zt.Field{Num: 6, Kind: ref.Fixed64}, zt.Field{Num: 7, Kind: ref.Bool}, zt.Field{Num: 8, Kind: ref.Int32},
		zt.Field{Num: 15, Kind: ref.String}, zt.Field{Num: 16, Kind: ref.Msg}, zt.Field{Num: 17, Kind: ref.RepMsg}, zt.Field{Num: 130, Kind: ref.Bytes},
		zt.Field{Num: 258, Kind: ref.Int64}, zt.Field{Num: 300, Kind: ref.Enum}, zt.Field{Num: 2047, Kind: ref.Float}, zt.Field{Num: 2048, Kind: ref.String},
		zt.Field{Num: 5000, Kind: ref.Uint32})
}

// narrowSchema is the beginning of wideSchema: everything from 18 is unknown.
func narrowSchema() *zt.Schema { return zt.NewSchema(wideSchema().Fields[:11]...) }

// wideVal is the value a known field has in a document; pos tells apart
// occurrences.
func wideVal(f zt.Field, pos int) ref.V {
	switch f.Kind {
	case ref.RepMsg, ref.Msg, ref.Bytes, ref.String:
		return sv([]string{"\x08\x01", "", "\x08\xac\x02\x12\x01a"}[pos%3])
	case ref.Bool:
		return u(uint64(pos+1) & 1)
	}
	return vals(f.Kind, 3)[pos%2]
}

func wideTok(f zt.Field, pos int) Token { return fieldTok(f.Num, f.Kind, wideVal(f, pos)) }

// numberLadder is every small field number, the surroundings of every power of
// two, and numbers that agree with one of known in their low bits.
func numberLadder(known []zt.Field) []uint64 {
	seen := map[uint64]bool{}
	var l []uint64
	add := func(n uint64) {
		if n >= 1 && n <= ref.MaxNum && !seen[n] {
			seen[n] = true
			l = append(l, n)
		}
	}
	for n := uint64(1); n <= 560; n++ {
		add(n)
	}
	for k := uint(9); k <= 29; k++ {
		for d := uint64(0); d < 5; d++ {
			add(1<<k + d - 2)
		}
	}
	for _, f := range known {
		for k := uint(4); k <= 28; k++ {
			add(uint64(f.Num) + 1<<k)
		}
		add(uint64(f.Num) * 8)
		add(uint64(f.Num) * 128)
		add(uint64(f.Num) << 16)
	}
	return l
}

// sizeLadder is the surroundings of every power of two.
func sizeLadder(max int) []int {
	var l []int
	last := -1
	for k := uint(0); 1<<k <= max+2; k++ {
		for d := -3; d <= 2; d++ {
			n := 1<<k + d
			if n > last && n <= max {
				l = append(l, n)
				last = n
			}
		}
	}
	return l
}

func countLadder(max int) []int {
	var l []int
	for n := 0; n <= 20; n++ {
		l = append(l, n)
	}
	for k := uint(5); k <= 16; k++ {
		for d := -1; d <= 1; d++ {
			if n := 1<<k + d; n <= max {
				l = append(l, n)
			}
		}
	}
	return l
}

// wideDocs enumerates the documents of one family (part of parts of it).
type wideFamily struct {
	name string
	// each calls f with every document; it stops when f returns false.
	each func(s *zt.Schema, part, parts int, f func(name string, buf []byte) bool) bool
}

func join(toks ...Token) (string, []byte) {
	var n []string
	var b []byte
	for _, t := range toks {
		n = append(n, t.Name)
		b = append(b, t.B...)
	}
	return "[" + strings.Join(n, " | ") + "]", b
}

func wideNumbers(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
	emit := func(t ...Token) bool { return f(join(t...)) }
	rep, rep2, b, v := s.Fields[2], s.Fields[10], s.Fields[1], s.Fields[0]
	for i, n := range numberLadder(s.Fields) {
		if i%parts != part {
			continue
		}
		known, isKnown := s.ByNum(int(n))
		for _, wt := range wireTypes {
			if isKnown && wt != known.Kind.WireType() {
				continue
			}
			t := rawTok(fmt.Sprintf("%d:wire type %d", n, wt), n, wt, 0, payloads[wt])
			if isKnown {
				t = wideTok(known, 0)
			}
			if !emit(t) || !emit(wideTok(rep, 0), t, wideTok(rep, 2), wideTok(v, 0)) || !emit(t, wideTok(b, 2), t, wideTok(rep2, 0)) ||
				!emit(wideTok(v, 1), wideTok(rep2, 2), t, wideTok(rep, 0), wideTok(b, 0), t) {
				return false
			}
			// Next to the fields it could be taken for.
			for _, k := range s.Fields {
				for sh := uint(4); sh <= 28; sh++ {
					if uint64(k.Num)%(1<<sh) == n%(1<<sh) && uint64(k.Num) != n {
						if !emit(wideTok(k, 0), t, wideTok(v, 1)) || !emit(t, wideTok(k, 2), wideTok(b, 0)) || !emit(wideTok(k, 0), t, wideTok(k, 2)) {
							return false
						}
						break
					}
				}
			}
		}
	}
	return true
}

func widePadding(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
	n := 0
	for i, k := range s.Fields {
		o := s.Fields[(i+3)%len(s.Fields)]
		tagMax := 10 - ref.VarintLen(uint64(k.Num)*8)
		for tp := 0; tp <= tagMax; tp++ {
			for vp := 0; vp <= 9; vp++ {
				if k.Kind.WireType() != ref.WVarint && k.Kind.WireType() != ref.WBytes && vp > 0 {
					break
				}
				for pos := 0; pos < 2; pos++ {
					v := wideVal(k, pos)
					p := ref.AppendValue(nil, k.Kind, v)
					switch k.Kind.WireType() {
					case ref.WVarint:
						if len(p)+vp > 10 {
							continue
						}
						for j := 0; j < vp; j++ {
							p[len(p)-1] |= 128
							p = append(p, 0)
						}
					case ref.WBytes:
						p = append(ref.AppendVarintPad(nil, uint64(len(v.S)), vp), v.S...)
					}
					t := rawTok(fmt.Sprintf("%d:%s=%s(tag +%d, value +%d)", k.Num, k.Kind, short(v), tp, vp), uint64(k.Num), k.Kind.WireType(), tp, p)
					n++
					if n%parts != part {
						continue
					}
					if !f(join(t)) || !f(join(t, wideTok(o, 0))) || !f(join(wideTok(o, 1), t)) || !f(join(wideTok(k, 0), wideTok(o, 0), t, wideTok(o, 2))) || !f(join(t, wideTok(o, 0), wideTok(k, 0))) {
						return false
					}
				}
			}
		}
		// Wide varints in narrow fields and every varint length.
		if k.Kind.WireType() == ref.WVarint {
			for b := uint(0); b < 64; b++ {
				for d := uint64(0); d < 2; d++ {
					n++
					if n%parts != part {
						continue
					}
					x := uint64(1)<<b - d
					t := rawTok(fmt.Sprintf("%d:varint %#x", k.Num, x), uint64(k.Num), 0, 0, ref.AppendVarint(nil, x))
					if !f(join(t, wideTok(o, 0))) || !f(join(wideTok(o, 0), t)) {
						return false
					}
				}
			}
		}
	}
	return true
}

func wideSizes(max int) func(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
	return func(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
		n := 0
		fs := append([]zt.Field{}, s.Fields...)
		fs = append(fs, zt.Field{Num: 9, Kind: ref.Bytes}, zt.Field{Num: 6000, Kind: ref.Bytes})
		for i, k := range fs {
			if !k.Kind.Lenlike() {
				continue
			}
			o := s.Fields[(i+5)%len(s.Fields)]
			for _, size := range sizeLadder(max) {
				n++
				if n%parts != part {
					continue
				}
				x := big(size)
				if k.Kind == ref.Msg || k.Kind == ref.RepMsg {
					if size != 1 {
						x = bigMsg(size)
					}
				}
				t := fieldTok(k.Num, k.Kind, sv(x))
				t.Name = fmt.Sprintf("%d:%s of %d bytes", k.Num, k.Kind, size)
				if !f(join(t)) || !f(join(t, wideTok(o, 0), wideTok(s.Fields[2], 0), wideTok(s.Fields[1], 0))) ||
					!f(join(wideTok(s.Fields[10], 0), wideTok(o, 1), t, wideTok(s.Fields[10], 2), wideTok(s.Fields[15%len(s.Fields)], 0), wideTok(s.Fields[0], 1))) {
					return false
				}
			}
		}
		return true
	}
}

func wideCounts(max int) func(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
	return func(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
		n := 0
		unknown := rawTok("unknown 7000", 7000, 5, 0, payloads[5])
		group := [][]Token{
			{wideTok(s.Fields[2], 0)}, {wideTok(s.Fields[2], 1)}, {wideTok(s.Fields[10], 2), wideTok(s.Fields[0], 0)}, {wideTok(s.Fields[2], 2), wideTok(s.Fields[10], 0)},
			{wideTok(s.Fields[1], 0)}, {wideTok(s.Fields[0], 1), wideTok(s.Fields[8], 0)}, {unknown}, {wideTok(s.Fields[2], 0), unknown}, {wideTok(s.Fields[9], 0), unknown, wideTok(s.Fields[5], 1)},
		}
		for _, g := range group {
			for _, cnt := range countLadder(max) {
				n++
				if n%parts != part {
					continue
				}
				name, b := join(g...)
				b = bytes.Repeat(b, cnt)
				name = fmt.Sprintf("%d times %s", cnt, name)
				if !f(name, b) {
					return false
				}
				n2, b2 := join(wideTok(s.Fields[8], 2), wideTok(s.Fields[2], 2))
				n3, b3 := join(wideTok(s.Fields[10], 1), wideTok(s.Fields[3], 0))
				if !f(n2+" then "+name+" then "+n3, append(append(b2, b...), b3...)) {
					return false
				}
			}
		}
		return true
	}
}

// wideAll: every field present, in several orders, with up to two fields
// duplicated.
func wideAll(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
	n := 0
	k := len(s.Fields)
	for _, step := range []int{1, 3, k - 1, k - 4} {
		for start := 0; start < k; start++ {
			var toks []Token
			for i := 0; i < k; i++ {
				toks = append(toks, wideTok(s.Fields[(start+i*step)%k], i))
			}
			n++
			if n%parts != part {
				continue
			}
			if !f(join(toks...)) {
				return false
			}
			for i := 0; i < k; i++ {
				for j := 0; j < k; j += 1 + i%3 {
					if !f(join(append(toks[:k:k], wideTok(s.Fields[i], i), wideTok(s.Fields[j], j))...)) {
						return false
					}
				}
			}
		}
	}
	return true
}

// wideMismatch: every field with every other wire type next to others.
func wideMismatch(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
	for i, k := range s.Fields {
		if i%parts != part {
			continue
		}
		for _, t := range mismatches(k.Num, k.Kind.WireType()) {
			for j, o := range s.Fields {
				if !f(join(t, wideTok(o, j))) || !f(join(wideTok(o, j), t, wideTok(k, 0))) || !f(join(wideTok(k, 0), wideTok(o, 0), t)) {
					return false
				}
			}
		}
	}
	return true
}

type wideOpt struct{ size, count, every int }

// wideEvery goes through every field number, every size and every count up to
// a bound, where the ladders only have the surroundings of powers of two.
// The rest of the document depends on the number.
func wideEvery(maxNum, maxSize, maxCount int) []wideFamily {
	numbers := func(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
		rep, rep2, b, v := s.Fields[2], s.Fields[10], s.Fields[1], s.Fields[0]
		around := [][3]Token{
			{wideTok(rep, 0), wideTok(rep, 2), wideTok(b, 0)}, {wideTok(v, 1), wideTok(b, 2), wideTok(v, 0)},
			{wideTok(rep2, 2), wideTok(s.Fields[9], 0), wideTok(rep2, 0)}, {wideTok(b, 0), wideTok(rep2, 0), wideTok(rep2, 2)}}
		for n := part + 1; n <= maxNum; n += parts {
			if _, ok := s.ByNum(n); ok {
				continue
			}
			for i, wt := range wireTypes {
				a := around[(n+i)%len(around)]
				buf := make([]byte, 0, 80)
				put := func(wt int) {
					buf = append(ref.AppendTag(buf, uint64(n), wt), payloads[wt]...)
				}
				if n%2 == 0 {
					put(wt)
				}
				buf = append(buf, a[0].B...)
				put(wt)
				buf = append(buf, a[1].B...)
				put(wireTypes[(i+n/4)%len(wireTypes)])
				buf = append(buf, a[2].B...)
				if !f(fmt.Sprintf("unknown field %d of wire type %d around [%s | %s | %s]", n, wt, a[0].Name, a[1].Name, a[2].Name), buf) {
					return false
				}
			}
		}
		return true
	}
	sizes := func(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
		var fs []zt.Field
		for _, k := range append(append([]zt.Field{}, s.Fields...), zt.Field{Num: 9, Kind: ref.Bytes}, zt.Field{Num: 6000, Kind: ref.Bytes}) {
			if k.Kind.Lenlike() {
				fs = append(fs, k)
			}
		}
		for size := part; size <= maxSize; size += parts {
			r := size / parts // so that every field is combined with every residue
			k, o, o2 := fs[r%len(fs)], s.Fields[r/3%len(s.Fields)], s.Fields[(r/7+5)%len(s.Fields)]
			x := big(size)
			if (k.Kind == ref.Msg || k.Kind == ref.RepMsg) && size != 1 {
				x = bigMsg(size)
			}
			buf := make([]byte, 0, size+60)
			name := ""
			if r%3 != 0 {
				t := wideTok(o2, 1)
				buf, name = append(buf, t.B...), t.Name
			}
			buf = ref.AppendField(buf, k.Num, k.Kind, sv(x))
			t, t2 := wideTok(o, 0), wideTok(s.Fields[0], r)
			buf = append(append(buf, t.B...), t2.B...)
			if !f(fmt.Sprintf("[%s | %d:%s of %d bytes | %s | %s]", name, k.Num, k.Kind, size, t.Name, t2.Name), buf) {
				return false
			}
		}
		return true
	}
	counts := func(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
		unknown := rawTok("unknown 7000", 7000, 5, 0, payloads[5])
		group := [][]Token{
			{wideTok(s.Fields[2], 0)}, {wideTok(s.Fields[10], 2), wideTok(s.Fields[0], 0)}, {wideTok(s.Fields[1], 0)},
			{wideTok(s.Fields[2], 1), unknown}, {unknown}}
		for cnt := part; cnt <= maxCount; cnt += parts {
			r := cnt / parts
			name, b := join(group[r%len(group)]...)
			n2, b2 := join(wideTok(s.Fields[8], 2), wideTok(s.Fields[2], 2))
			n3, b3 := join(wideTok(s.Fields[10], 1), wideTok(s.Fields[3], 0))
			buf := bytes.Repeat(b, cnt)
			name = fmt.Sprintf("%d times %s", cnt, name)
			if r%2 == 0 {
				buf, name = append(append(b2, buf...), b3...), n2+" then "+name+" then "+n3
			}
			if !f(name, buf) {
				return false
			}
		}
		return true
	}
	return []wideFamily{{"every number", numbers}, {"every size", sizes}, {"every count", counts}}
}

func wideFamilies(o wideOpt) []wideFamily {
	return append(wideEvery(o.every, min(o.size, 70000), min(o.count, 1200)), wideLadders(o)...)
}

func wideLadders(o wideOpt) []wideFamily {
	return []wideFamily{{"numbers", wideNumbers}, {"padding", widePadding}, {"sizes", wideSizes(o.size)}, {"counts", wideCounts(o.count)}, {"all", wideAll}}
}

// wideJobs makes jobs that run one check function over every document. mk
// returns the check for a schema.
func wideJobs(fams []wideFamily, schemas []func() *zt.Schema, mk func(c *fw.Ctx, s *zt.Schema) func(buf []byte, occs []ref.Occ)) []fw.Job {
	var jobs []fw.Job
	for si, sc := range schemas {
		for _, fam := range fams {
			const parts = 8
			for part := 0; part < parts; part++ {
				sc, fam, part := sc, fam, part
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("ladder-%s-%d-%d", fam.name, si, part), Run: func(c *fw.Ctx) {
					s := sc()
					try := mk(c, s)
					cur := ""
					var curBuf []byte
					base := c.Cur
					c.Cur = func() []string {
						t := []string{fmt.Sprintf("schema with largest field number %d, decode %s", s.Max, cur), fmt.Sprintf("bytes %x", clipB(curBuf))}
						if base != nil {
							t = append(t, base()...)
						}
						return t
					}
					var occs []ref.Occ
					fam.each(s, part, parts, func(name string, buf []byte) bool {
						cur, curBuf = name, buf
						if !c.Step() {
							return false
						}
						var ok bool
						occs, ok = ref.Parse(buf, occs[:0])
						if !ok {
							c.Broken("document not well-formed: %s", name)
						}
						c.Count("ladder_documents", 1)
						if len(occs) > 1 {
							c.Nontrivial++
						}
						c.Evaluations++
						try(buf, occs)
						return true
					})
				}})
			}
		}
	}
	return jobs
}

var bothSchemas = []func() *zt.Schema{wideSchema, narrowSchema}

// --- C04 ---

func wideDecode(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) {
	m := zt.New(s)
	return func(buf []byte, occs []ref.Occ) {
		if err := m.Decode(s, buf); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		expectDecoded(c, s, m, occs)
	}
}

// --- C05 ---

func wideTruncate(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) { return truncations(c, s, false) }

// wideTruncateSome cuts one field of every document.
func wideTruncateSome(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) {
	return truncations(c, s, true)
}

func truncations(c *fw.Ctx, s *zt.Schema, some bool) func([]byte, []ref.Occ) {
	m := zt.New(s)
	doc := 0
	return func(buf []byte, occs []ref.Occ) {
		doc++
		if err := m.Decode(s, buf); err != nil {
			c.Fail("Decode rejects a well-formed message: %v", err)
		}
		// Cut inside the last field, and inside any other if there are few.
		cut := func(o *ref.Occ) {
			for n := o.Start + 1; n < o.End; n++ {
				if n == o.Val+12 && o.End-12 > n {
					n = o.End - 12
				}
				c.Evaluations++
				if err := m.Decode(s, buf[:n:n]); err == nil {
					c.Fail("Decode accepts the message cut to %d bytes", n)
				}
				if err := m.Decode(s, buf[:n]); err == nil {
					c.Fail("Decode accepts the message cut to %d bytes, with the rest in its capacity", n)
				}
			}
		}
		for i := range occs {
			if some && i != doc%len(occs) {
				continue
			}
			if some || len(occs) < 12 || i == len(occs)-1 {
				cut(&occs[i])
			}
		}
	}
}

// --- C06 ---

func wideSafe(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) {
	x := &c06{c: c, schemas: []*zt.Schema{s}, ms: []*zt.Msg{zt.New(s)}}
	for _, f := range s.Fields {
		x.nums = append(x.nums, f.Num)
	}
	return func(buf []byte, occs []ref.Occ) {
		if len(buf) > 1<<17 {
			return
		}
		// Few fields are present: read those and a few absent ones.
		x.nums = x.nums[:0]
		for _, f := range s.Fields {
			present := f.Num < 4
			for i := range occs {
				present = present || int(occs[i].Num) == f.Num
			}
			if present {
				x.nums = append(x.nums, f.Num)
			}
		}
		b := append(make([]byte, 0, len(buf)), buf...)
		m := x.ms[0]
		if err := m.Decode(s, b); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		x.readAll(m, s, b, 0, nil)
		if len(buf) > 64 {
			return
		}
		// The same with something behind the message.
		e := append(append(make([]byte, 0, len(buf)+24), buf...), bytes.Repeat([]byte{0xff}, 24)...)[:len(buf)]
		first := x.readAll(m, s, b, 0, nil)
		if err := m.Decode(s, e); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		r := x.readAll(m, s, e, 0, nil)
		for j := range r {
			if r[j].v != first[j].v || !sameStrings(r[j].list, first[j].list) {
				c.Fail("reads depend on what lies beyond the message: %v versus %v", first[j], r[j])
			}
		}
	}
}

// --- C07 ---

func wideIterate(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) {
	m := zt.New(s)
	fa, fb := s.Fields[2], s.Fields[10]
	return func(buf []byte, occs []ref.Occ) {
		if err := m.Decode(s, buf); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		var a, b []string
		for i := range occs {
			switch int(occs[i].Num) {
			case fa.Num:
				a = append(a, string(occs[i].B))
			case fb.Num:
				b = append(b, string(occs[i].B))
			}
		}
		ia := iterator{f: fa, it: m.Iter(fa), want: a}
		ib := iterator{f: fb, it: m.Iter(fb), want: b}
		if len(a) <= 12 && len(b) <= 12 {
			product(c, m, ia, ib)
			product(c, m, ia, iterator{f: fa, it: m.Iter(fa), want: a})
			n := m.Clone(0)
			n.Append(fb, []byte("\x08\x07"))
			n.Append(fa, nil)
			product(c, n, iterator{f: fa, it: n.Iter(fa), want: append(a[:len(a):len(a)], "")}, iterator{f: fb, it: n.Iter(fb), want: append(b[:len(b):len(b)], "\x08\x07")})
			return
		}
		// In step, the second one element behind, and starting over.
		ic := iterator{f: fa, it: m.Iter(fa), want: a}
		for i := 0; i < len(a)+2 || i < len(b)+2; i++ {
			ia.advance(c, m)
			ib.advance(c, m)
			if i > 0 {
				ic.advance(c, m)
			}
			c.Transitions++
			if i >= 40 && i != len(a) && i != len(b) && i%4096 != 0 {
				continue
			}
			id := iterator{f: fa, it: m.Iter(fa), want: a}
			id.advance(c, m)
		}
	}
}

// --- C09 ---

// wideReuse decodes every document into structs that held something before.
func wideReuse(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) { return reuse(c, s, -1) }

// pairReuse has two of the pasts for every document, in turn.
func pairReuse(c *fw.Ctx, s *zt.Schema, fi int) func([]byte, []ref.Occ) { return reuse(c, s, fi) }

func reuse(c *fw.Ctx, s *zt.Schema, focus int) func([]byte, []ref.Occ) {
	docs := 0
	_, all := join()
	for i, f := range s.Fields {
		all = append(all, wideTok(f, i).B...)
	}
	large := append(ref.AppendField(nil, 15, ref.String, sv(big(66000))), all...)
	before := []struct {
		name string
		do   func(m *zt.Msg)
	}{
		{"all fields", func(m *zt.Msg) { m.Decode(s, append([]byte(nil), all...)) }},
		{"all fields beyond 64 KiB", func(m *zt.Msg) { m.Decode(s, append([]byte(nil), large...)) }},
		{"all fields, failed", func(m *zt.Msg) { m.Decode(s, append(append([]byte(nil), all...), 0x80)) }},
		{"all fields beyond 64 KiB, failed", func(m *zt.Msg) { m.Decode(s, append(append([]byte(nil), large...), 0x0b)) }},
		{"all fields beyond 64 KiB, reset", func(m *zt.Msg) { m.Decode(s, append([]byte(nil), large...)); m.Reset(nil) }},
	}
	was := ""
	c.Cur = func() []string { return []string{"into a struct that held " + was} }
	fresh := zt.New(s)
	writes := []zt.Field{s.Fields[0], s.Fields[1], s.Fields[2], s.Fields[9], s.Fields[len(s.Fields)-1]}
	m := zt.New(s)
	return func(buf []byte, occs []ref.Occ) {
		in := append(make([]byte, 0, len(buf)), buf...)
		docs++
		for bi, b := range before {
			if focus >= 0 && bi != docs%len(before) && (bi != (docs+2)%len(before) || len(buf) > 4096) {
				continue
			}
			if focus < 0 && len(buf) > 4096 && bi != 1 && bi != 2 {
				continue
			}
			was = b.name
			b.do(m)
			if err := m.Decode(s, in); err != nil {
				c.Fail("Decode of a well-formed message fails: %v", err)
			}
			expectDecoded(c, s, m, occs)
			if len(buf) > 20000 {
				continue
			}
			// One write each, on a copy and on a fresh message.
			w := writes[(bi+docs)%len(writes)]
			if focus >= 0 && docs%3 == 0 {
				w = s.Fields[focus]
			}
			*fresh = zt.Msg{A: fresh.A}
			for i := range fresh.A {
				fresh.A[i] = 0
			}
			if err := fresh.Decode(s, in); err != nil {
				c.Fail("Decode of a well-formed message fails: %v", err)
			}
			e := edit{w, wideVal(w, 2)}
			fresh.Buf = append(make([]byte, 0, len(in)), in...)
			m.Buf = append(make([]byte, 0, len(in)), in...)
			e.apply(fresh)
			e.apply(m)
			c.Transitions++
			if string(m.Buf) != string(fresh.Buf) {
				c.Fail("after %s the reused message encodes %x, a fresh one %x", e, clipB(m.Buf), clipB(fresh.Buf))
			}
		}
	}
}

// --- C10 ---

func wideAllocs(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) {
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	a := newAmsg(s)
	a.mem = make([]byte, 1<<17)
	var reads []aop
	for _, f := range s.Fields {
		reads = append(reads, a.get(f))
	}
	writes := []zt.Field{s.Fields[0], s.Fields[1], s.Fields[2], s.Fields[9], s.Fields[len(s.Fields)-1]}
	var ws []aop
	for _, f := range writes {
		ws = append(ws, a.set(f, wideVal(f, 2)))
	}
	var docs int
	own := a.decodeOwn(s)
	return func(buf []byte, occs []ref.Occ) {
		if len(buf) > 65000 {
			return
		}
		docs++
		if docs%512 == 0 {
			runtime.GC()
		}
		run := func() {
			a.m.M = nil
			a.m.Buf = append(a.mem[:0:len(buf)], buf...)
			own.do()
			for i := range reads {
				reads[i].do()
			}
			a.m.Buf = a.mem[: len(buf) : len(buf)+64]
			w := ws[docs%len(ws)]
			w.do()
		}
		if measure(run) == 0 {
			return
		}
		if n := measure(func() {
			for i := 0; i < 50; i++ {
				run()
			}
		}); n >= 50 {
			c.Fail("decoding, reading every field and then %s (in capacity) allocates: %d allocations in 50 runs", ws[docs%len(ws)].name, n)
		}
		c.Count("noise", 1)
	}
}

// --- C12 ---

func wideUnchanged(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) {
	m := zt.New(s)
	rs := readers(s)
	op := ""
	c.Cur = func() []string { return []string{op} }
	var arena, orig []byte
	docs := 0
	return func(buf []byte, occs []ref.Occ) {
		n := len(buf)
		docs++
		if cap(arena) < n+2*guard {
			arena, orig = make([]byte, n+2*guard), make([]byte, n+2*guard)
		}
		a, o := arena[:n+2*guard], orig[:n+2*guard]
		for i := range a {
			a[i] = 0xa5
		}
		copy(a[guard:], buf)
		copy(o, a)
		in := a[guard : guard+n : guard+n+docs%(guard+1)]
		op = fmt.Sprintf("decode (%d bytes of spare capacity)", cap(in)-n)
		if err := m.Decode(s, in); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		unchanged := func() {
			if !bytes.Equal(a, o) {
				c.Fail("the caller's bytes changed: before %x, after %x", clipB(o), clipB(a))
			}
			if len(m.Buf) != n || addr(m.Buf) != addr(in) {
				c.Fail("the encoded form is no longer the decoded bytes")
			}
		}
		unchanged()
		for _, r := range rs {
			op = r.name
			r.do(m)
			if n < 256 {
				unchanged()
			}
		}
		op = "read every field"
		unchanged()
		expectDecoded(c, s, m, occs)
		for _, f := range s.Fields {
			if f.Kind.WireType() != ref.WBytes || f.Kind == ref.RepMsg {
				continue
			}
			var last *ref.Occ
			for i := range occs {
				if int(occs[i].Num) == f.Num {
					last = &occs[i]
				}
			}
			if last == nil || last.WT != ref.WBytes {
				continue
			}
			op = fmt.Sprintf("view of field %d", f.Num)
			v := m.GetRaw(f)
			if string(v) != string(last.B) || len(v) > 0 && addr(v) != addr(in)+uintptr(last.End-len(last.B)) {
				c.Fail("the view is not the field's bytes in the message")
			}
			if cap(v) > len(v) {
				_ = append(v, 0xee)
				unchanged()
			}
		}
	}
}

// --- C13 ---

// wideSelf writes every length-delimited field's own bytes into every other.
func wideSelf(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) { return selfWrites(c, s, -1) }

// pairSelf has the field in focus as source or destination only, and one other.
func pairSelf(c *fw.Ctx, s *zt.Schema, fi int) func([]byte, []ref.Occ) { return selfWrites(c, s, fi) }

func selfWrites(c *fw.Ctx, s *zt.Schema, focus int) func([]byte, []ref.Occ) {
	docs := 0
	m := zt.New(s)
	op := ""
	c.Cur = func() []string { return []string{op} }
	var after []ref.Occ
	return func(buf []byte, occs []ref.Occ) {
		if len(buf) > 1<<18 {
			return
		}
		docs++
		for si, src := range s.Fields {
			if !src.Kind.Lenlike() {
				continue
			}
			var last *ref.Occ
			for i := range occs {
				if int(occs[i].Num) == src.Num && (src.Kind != ref.RepMsg || last == nil) {
					last = &occs[i]
				}
			}
			if last == nil || last.WT != ref.WBytes {
				continue
			}
			for di, dst := range s.Fields {
				if !dst.Kind.Lenlike() || len(buf) > 4096 && (si+di)%3 != 0 {
					continue
				}
				if focus >= 0 && (si != focus && di != focus || si != di && (docs+si+di)%4 != 0) {
					continue
				}
				if !c.Step() {
					return
				}
				op = fmt.Sprintf("read field %d as a view and write it to field %d", src.Num, dst.Num)
				in := append(make([]byte, 0, len(buf)+[]int{0, 3000, 1, 40, 2, 300, 7}[(si+di+len(buf))%7]), buf...)
				if err := m.Decode(s, in); err != nil {
					c.Fail("Decode of a well-formed message fails: %v", err)
				}
				var x []byte
				if src.Kind == ref.RepMsg {
					it := m.Iter(src)
					x, _ = m.Next(&it, src)
				} else {
					x = m.GetRaw(src)
				}
				want := string(last.B)
				before, own := wireItems(occs, dst.Num), only(occs, dst.Num)
				if dst.Kind == ref.RepMsg {
					m.Append(dst, x)
				} else {
					m.SetRaw(dst, x)
				}
				c.Transitions++
				after = checkEdit(c, edit{dst, sv(want)}, before, own, m.Buf, after)
				expectDecoded(c, s, m, after)
			}
		}
	}
}

// --- C14 ---

func wideEdit(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) { return edits(c, s, -1) }

// pairEdit edits the field in focus and one other.
func pairEdit(c *fw.Ctx, s *zt.Schema, fi int) func([]byte, []ref.Occ) { return edits(c, s, fi) }

func edits(c *fw.Ctx, s *zt.Schema, focus int) func([]byte, []ref.Occ) {
	docs := 0
	m := zt.New(s)
	op := ""
	c.Cur = func() []string { return []string{op} }
	var after []ref.Occ
	n := 0
	return func(buf []byte, occs []ref.Occ) {
		docs++
		for fi, f := range s.Fields {
			if focus >= 0 && fi != focus && fi != docs%len(s.Fields) {
				continue
			}
			present := focus == fi
			for i := range occs {
				present = present || int(occs[i].Num) == f.Num
			}
			n++
			for pos := 0; pos < 3; pos++ {
				if focus >= 0 {
					if pos != (docs+fi)%3 {
						continue
					}
				} else if len(buf) > 4096 && (!present && fi%4 != 0 || pos != fi%3) || !present && pos != 2 {
					continue
				}
				if !c.Step() {
					return
				}
				e := edit{f, wideVal(f, pos)}
				op = e.String()
				in := append(make([]byte, 0, len(buf)+n%2*64), buf...)
				if err := m.Decode(s, in); err != nil {
					c.Fail("Decode of a well-formed message fails: %v", err)
				}
				before, own := wireItems(occs, f.Num), only(occs, f.Num)
				e.apply(m)
				c.Transitions++
				after = checkEdit(c, e, before, own, m.Buf, after)
				expectDecoded(c, s, m, after)
			}
		}
	}
}

// --- C01, C02, C03: wide writes ---

// wideWrites explores pairs of writes on messages that already hold every
// field.
func wideWriteConfigs(thorough bool, check checkFn) []*ex.Config {
	var out []*ex.Config
	for init := 0; init < 3; init++ {
		s := wideSchema()
		cf := &ex.Config{Name: fmt.Sprintf("seventeen fields, start %d", init), Schema: s, Depth: 2, Slack: []int{0, 300, 70000}[init], Check: check(s)}
		if thorough {
			cf.Depth = 3
		}
		for i, f := range s.Fields {
			if f.Kind == ref.RepMsg {
				cf.Ops = append(cf.Ops, ex.AppendOp(s, i, "\x08\x01", 60))
				continue
			}
			for _, v := range vals(f.Kind, 2) {
				cf.Ops = append(cf.Ops, ex.SetOp(s, i, v))
			}
			if f.Kind.Lenlike() {
				sizes := []int{128, 16384, 40000, 65536}
				if f.Num == 15 && !thorough {
					sizes = append(sizes, 1<<21)
				}
				for _, n := range sizes {
					cf.Ops = append(cf.Ops, ex.SetOp(s, i, sv(big(n))))
				}
			}
		}
		if init > 0 {
			cf.Init = func() (*zt.Msg, *ex.Ref) {
				m, r := zt.New(s), ex.NewRef(s)
				for i := range s.Fields {
					j := i
					if init == 2 {
						j = len(s.Fields) - 1 - i
					}
					f := s.Fields[j]
					if f.Kind == ref.RepMsg {
						for k := 0; k < init; k++ {
							m.Append(f, []byte(wideVal(f, k).S))
							r.Rep[j] = append(r.Rep[j], wideVal(f, k).S)
						}
						continue
					}
					v := wideVal(f, i)
					if f.Kind == ref.Msg {
						v.Has = true
					}
					m.Set(f, v)
					r.Val[j], r.Set[j] = v, true
				}
				return m, r
			}
			cf.InitTrace = []string{"every field set once, in " + []string{"", "ascending", "descending"}[init] + " order"}
		}
		out = append(out, cf)
	}
	return out
}

// resizeJob rewrites a field of every size with every other size, with fields
// before and behind it.
func resizeJob(c *fw.Ctx, k ref.Kind, part, parts int, check checkFn) {
	s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 2, Kind: k}, zt.Field{Num: 17, Kind: ref.String}, zt.Field{Num: 4, Kind: ref.RepMsg})
	chk := check(s)
	sizes := sizeLadder(70000)
	if c.Thorough() {
		sizes = append(sizes, 99999, 131071, 131072, 200000)
	}
	huge := []int{1<<21 - 1, 1 << 21}
	var names []string
	c.Cur = func() []string { return names }
	ops := func(a, b int) [][]ex.Op {
		setA, setB := ex.SetOp(s, 1, sv(big(a))), ex.SetOp(s, 1, sv(big(b)))
		v, st, el := ex.SetOp(s, 0, u(300)), ex.SetOp(s, 2, sv("abc")), ex.AppendOp(s, 3, "\x08\x01", 9)
		return [][]ex.Op{
			{setA, v, el, st, setB, ex.SetOp(s, 0, u(1))},
			{v, setA, setB, st, setA, el},
			{st, el, setA, v, setB, ex.SetOp(s, 2, sv(""))},
		}
	}
	n := 0
	run := func(a, b int) bool {
		n++
		if n%parts != part {
			return true
		}
		for oi, seq := range ops(a, b) {
			if !c.Step() {
				return false
			}
			names = nil
			m, r := zt.New(s), ex.NewRef(s)
			if (n+oi)%2 == 0 {
				m.Buf = make([]byte, 0, a+b+100)
			}
			for i, o := range seq {
				names = append(names, o.Name)
				o.Do(c, m, r)
				c.Transitions++
				if i >= 3 {
					chk(c, m, r)
				}
			}
		}
		c.Count("resizes", 1)
		return true
	}
	for _, a := range sizes {
		for _, b := range sizes {
			if a > 300 && b > 300 && !c.Thorough() && (a+b)%3 != 0 && a&(a-1) != 0 && b&(b-1) != 0 {
				continue
			}
			if !run(a, b) {
				return
			}
		}
	}
	for _, a := range huge {
		for _, b := range []int{0, 1, 127, 128, 16383, 16384, 65535, 65536, 1<<21 - 1, 1 << 21} {
			if !run(a, b) || !run(b, a) {
				return
			}
		}
	}
}

func wideWriteJobs(tier string, check checkFn) []fw.Job {
	var jobs []fw.Job
	for i := 0; i < 3; i++ {
		i := i
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("many-fields-%d", i), Run: func(c *fw.Ctx) {
			ex.Explore(c, wideWriteConfigs(c.Thorough(), check)[i])
			c.Count("configs", 1)
		}})
	}
	for _, k := range []ref.Kind{ref.String, ref.Bytes, ref.Msg} {
		for part := 0; part < 8; part++ {
			k, part := k, part
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("resize-%s-%d", k, part), Run: func(c *fw.Ctx) { resizeJob(c, k, part, 8, check) }})
		}
	}
	// Around 64 KiB, with this property's oracle.
	step := 6
	if tier == "thorough" {
		step = 2
	}
	for v := 0; v < 4; v++ {
		for n := 65508; n <= 65544; n += step {
			n, v := n, v
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("boundary-%d-%d", n, v), Run: func(c *fw.Ctx) {
				cf := c08Config(n, v)
				cf.Check = check(cf.Schema)
				cf.Depth = 4
				cf.Ops = cf.Ops[:len(cf.Ops)-2] // writes only
				ex.Explore(c, cf)
				c.Count("configs", 1)
			}})
		}
	}
	return jobs
}

// --- C08 ---

// beyond puts a filler field in front of the family's small documents so that
// their fields lie on both sides of byte 65535, or all behind it.
func beyond(fam wideFamily) wideFamily {
	return wideFamily{fam.name + "-beyond", func(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
		scratch := make([]byte, 0, 200000)
		n := 0
		return fam.each(s, part, parts, func(name string, buf []byte) bool {
			if len(buf) > 400 {
				return true
			}
			n++
			for i, at := range []int{65535 - len(buf), 65535 - len(buf)/2, 65533, 65534, 65535, 65536, 131072} {
				if i != n%7 && i != (n+3)%7 {
					continue
				}
				// Filler (tag 3 bytes, length 3 bytes) ends at byte at.
				fill := at - 6
				scratch = ref.AppendField(scratch[:0], 7777, ref.Bytes, ref.V{S: big(fill)})
				scratch = append(scratch, buf...)
				if !f(fmt.Sprintf("%d bytes of unknown field, then %s", at, name), scratch) {
					return false
				}
			}
			return true
		})
	}}
}

func wideBoundary(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) {
	m := zt.New(s)
	op := ""
	c.Cur = func() []string { return []string{op} }
	var after []ref.Occ
	n := 0
	return func(buf []byte, occs []ref.Occ) {
		op = "read every field"
		if err := m.Decode(s, buf); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		expectDecoded(c, s, m, occs)
		n++
		// Rewrite one present field and one other.
		for k := 0; k < 2; k++ {
			f := s.Fields[(n+k*7)%len(s.Fields)]
			if k == 0 && len(occs) > 1 {
				if x, ok := s.ByNum(int(occs[1+n%(len(occs)-1)].Num)); ok {
					f = x
				}
			}
			e := edit{f, wideVal(f, n%3)}
			op = e.String()
			in := append(make([]byte, 0, len(buf)+n%2*64), buf...)
			if err := m.Decode(s, in); err != nil {
				c.Fail("Decode of a well-formed message fails: %v", err)
			}
			before, own := wireItems(occs, f.Num), only(occs, f.Num)
			e.apply(m)
			c.Transitions++
			after = checkEdit(c, e, before, own, m.Buf, after)
			expectDecoded(c, s, m, after)
		}
	}
}
