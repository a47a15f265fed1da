package props

import (
	"fmt"

	"verifmc/ex"
	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// The ladders move along one dimension at a time. Here every two dimensions
// are combined: all pairs of values of all pairs of dimensions, the others
// resting. One field (of every kind) is in focus; a document is
//
//	prefix of some size | occurrences of other fields | the field, some number
//	of times, with something between | a suffix of some size | another field
//
// and the dimensions are the field's number, its position, the number of
// occurrences before it, its size (or magnitude), the padding of its tag and of
// its length (or value), its repetitions, their distance, and what follows.

const (
	dNum = iota
	dPos
	dCount
	dSize
	dTagPad
	dValPad
	dDup
	dGap
	dSuffix
	nDims
)

var dimNames = [nDims]string{"number", "position", "fields before", "size", "tag padding", "value padding", "repetitions", "gap", "bytes behind"}

var pairNums = []int{1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384}
var pairSizes = []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 16382, 16383, 16384, 16385, 32767, 32768}
var pairLarge = []int{65529, 65533, 65534, 65535, 65536, 65537}
var pairCounts = []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025}

// dimVals lists a dimension's values for a kind; index 0 is not special, the
// resting values are in pairRest.
func dimVals(d int, k ref.Kind) []int {
	seq := func(n int) []int {
		var l []int
		for i := 0; i <= n; i++ {
			l = append(l, i)
		}
		return l
	}
	switch d {
	case dNum:
		return pairNums
	case dPos:
		return append(append([]int{}, pairSizes...), pairLarge...)
	case dCount:
		return pairCounts
	case dSize:
		switch k.WireType() {
		case ref.WBytes:
			return append(append([]int{}, pairSizes...), pairLarge...)
		case ref.WVarint:
			return seq(64) // bits
		}
		return seq(3)
	case dTagPad:
		return seq(9)
	case dValPad:
		if k.WireType() == ref.WBytes || k.WireType() == ref.WVarint {
			return seq(9)
		}
		return seq(0)
	case dDup:
		return []int{1, 2, 3, 4, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1024}
	case dGap:
		return []int{0, 1, 2, 3, 7, 8, 16, 32, 64, 100, 127, 128, 256, 1024, 4096, 16384, 65536}
	case dSuffix:
		return append(append([]int{}, pairSizes...), pairLarge...)
	}
	panic("dimension")
}

// pairRest are the two sets of resting values (dNum: the field's own number).
var pairRest = [2][nDims]int{{0, 0, 0, 3, 0, 0, 1, 0, 0}, {0, 140, 2, 130, 1, 1, 2, 3, 5}}

// pairSchema is wideSchema with field fi renumbered.
func pairSchema(fi, num int) *zt.Schema {
	fs := append([]zt.Field{}, wideSchema().Fields...)
	old := fs[fi].Num
	for i := range fs {
		if fs[i].Num == num {
			fs[i].Num = old
		}
	}
	fs[fi].Num = num
	return zt.NewSchema(fs...)
}

// pairDoc composes a document (false: no such document).
func pairDoc(s *zt.Schema, fi int, d [nDims]int, buf []byte) ([]byte, bool) {
	f := s.Fields[fi]
	other, other2 := s.Fields[(fi+3)%len(s.Fields)], s.Fields[(fi+8)%len(s.Fields)]
	tagLen := ref.VarintLen(uint64(f.Num) * 8)
	if tagLen+d[dTagPad] > 10 {
		return nil, false
	}
	// Bytes of an unknown field, exactly n of them in all (or a known one).
	filler := func(n int) bool {
		if n == 0 {
			return true
		}
		num := 9000 // three bytes of tag
		if n < 5 {
			num = 9
		}
		body := n - ref.VarintLen(uint64(num)*8)
		for l := 1; l <= 3; l++ {
			if body-l >= 0 && ref.VarintLen(uint64(body-l)) == l {
				buf = ref.AppendField(buf, num, ref.Bytes, sv(big(body-l)))
				return true
			}
		}
		// One byte too many for a length of l bytes: pad it.
		if body < 2 {
			return false
		}
		buf = ref.AppendTag(buf, uint64(num), ref.WBytes)
		l := ref.VarintLen(uint64(body)) - 1
		buf = ref.AppendVarintPad(buf, uint64(body-l-1), 1)
		buf = append(buf, big(body-l-1)...)
		return true
	}
	if !filler(d[dPos]) {
		return nil, false
	}
	for i := 0; i < d[dCount]; i++ {
		k := other
		if i%2 == 1 {
			k = other2
		}
		buf = ref.AppendField(buf, k.Num, k.Kind, wideVal(k, i))
	}
	for i := 0; i < d[dDup]; i++ {
		if i > 0 && !filler(d[dGap]) {
			return nil, false
		}
		buf = ref.AppendVarintPad(buf, uint64(f.Num)*8+uint64(f.Kind.WireType()), d[dTagPad])
		switch f.Kind.WireType() {
		case ref.WVarint:
			bits := (d[dSize] + 64 - i%64) % 65
			x := uint64(1)<<(uint(bits)&63) - uint64(i&1)
			if bits == 64 {
				x = 1<<64 - 1
			}
			if ref.VarintLen(x)+d[dValPad] > 10 {
				return nil, false
			}
			buf = ref.AppendVarintPad(buf, x, d[dValPad])
		case ref.WBytes:
			n := d[dSize]
			if i%2 == 1 {
				n = i % 5
			}
			x := big(n)
			if n != 1 {
				x = bigMsg(n)
			}
			if ref.VarintLen(uint64(n))+d[dValPad] > 10 {
				return nil, false
			}
			buf = append(ref.AppendVarintPad(buf, uint64(n), d[dValPad]), x...)
		default:
			l := vals(f.Kind, 3)
			buf = ref.AppendValue(buf, f.Kind, l[(d[dSize]+i)%len(l)])
		}
	}
	if !filler(d[dSuffix]) {
		return nil, false
	}
	return ref.AppendField(buf, other2.Num, other2.Kind, wideVal(other2, 1)), true
}

// pairPoints calls f with every point of the pairwise space of a field whose
// number is num (own: the number that field has at rest).
func pairPoints(k ref.Kind, num, own int, f func(d [nDims]int, what string) bool) bool {
	for ri, rest := range pairRest {
		if k.WireType() != ref.WBytes {
			rest[dSize] %= 3
		}
		rest[dNum] = num
		if num != own {
			// Number with one other dimension.
			for x := dPos; x < nDims; x++ {
				for _, xv := range dimVals(x, k) {
					d := rest
					d[x] = xv
					if x == dGap && d[dDup] < 2 {
						d[dDup] = 2
					}
					if !f(d, fmt.Sprintf("rest %d, %s %d", ri, dimNames[x], xv)) {
						return false
					}
				}
			}
			continue
		}
		for x := dPos; x < nDims; x++ {
			for y := x + 1; y < nDims; y++ {
				for _, xv := range dimVals(x, k) {
					for _, yv := range dimVals(y, k) {
						d := rest
						d[x], d[y] = xv, yv
						if (x == dGap || y == dGap) && d[dDup] < 2 {
							d[dDup] = 2
						}
						if !f(d, fmt.Sprintf("rest %d, %s %d, %s %d", ri, dimNames[x], xv, dimNames[y], yv)) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

type pairOpt struct {
	max   int // largest document
	every int // of the pairs that do not involve the number, one in every
}

// anyField drops the field in focus from a check's arguments.
func anyField(mk func(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ)) func(c *fw.Ctx, s *zt.Schema, fi int) func([]byte, []ref.Occ) {
	return func(c *fw.Ctx, s *zt.Schema, fi int) func([]byte, []ref.Occ) { return mk(c, s) }
}

func pairJobs(o pairOpt, mk func(c *fw.Ctx, s *zt.Schema, fi int) func([]byte, []ref.Occ)) []fw.Job {
	var jobs []fw.Job
	for fi := range wideSchema().Fields {
		const parts = 4
		for part := 0; part < parts; part++ {
			fi, part := fi, part
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("pairs-%d-%d", fi, part), Run: func(c *fw.Ctx) {
				own := wideSchema().Fields[fi].Num
				for ni, num := range append([]int{own}, pairNums...) {
					if ni > 0 && (num == own || ni%parts != part) {
						continue
					}
					s := pairSchema(fi, num)
					f := s.Fields[fi]
					c.Cur = nil
					try := mk(c, s, fi)
					cur := ""
					var buf []byte
					base := c.Cur
					c.Cur = func() []string {
						t := []string{fmt.Sprintf("schema with field %d of kind %s; decode: %s", f.Num, f.Kind, cur), fmt.Sprintf("bytes %x", clipB(buf))}
						if base != nil {
							t = append(t, base()...)
						}
						return t
					}
					var occs []ref.Occ
					n := 0
					more := pairPoints(f.Kind, num, own, func(d [nDims]int, what string) bool {
						n++
						if ni == 0 && n%parts != part {
							return true
						}
						if ni == 0 && o.every > 1 && n/parts%o.every != 0 {
							return true
						}
						b, ok := pairDoc(s, fi, d, buf[:0])
						if !ok || len(b) > o.max {
							return true
						}
						buf, cur = b, what
						if !c.Step() {
							return false
						}
						occs, ok = ref.Parse(buf, occs[:0])
						if !ok {
							c.Broken("document not well-formed: %s: %x", what, clipB(buf))
						}
						c.Count("pair_documents", 1)
						c.Nontrivial++
						c.Evaluations++
						try(buf, occs)
						return true
					})
					if !more {
						return
					}
				}
			}})
		}
	}
	return jobs
}

// --- the same for histories of writes ---

// pairWrite runs one history: what lies before the field (a large field,
// appended elements), the field, what lies behind it, the field rewritten with
// another size, an append.
func pairWrite(c *fw.Ctx, s *zt.Schema, fi int, chk func(c *fw.Ctx, m *zt.Msg, r *ex.Ref), d [6]int, names *[]string) {
	f := s.Fields[fi]
	pos, count, size, size2, behind, spare := d[0], d[1], d[2], d[3], d[4], d[5]
	m, r := zt.New(s), ex.NewRef(s)
	if spare > 0 {
		m.Buf = make([]byte, 0, spare)
	}
	*names = (*names)[:0]
	do := func(o ex.Op, check bool) {
		*names = append(*names, o.Name)
		o.Do(c, m, r)
		c.Transitions++
		if check {
			chk(c, m, r)
		}
	}
	// Field 1 (bytes) is before, 8 (string) behind, 2 and 10 are repeated.
	before, after, rep := 1, 8, 2
	if fi == before {
		before = 11
	}
	if fi == after {
		after = 15
	}
	if fi == rep {
		rep = 10
	}
	val := func(n int) ref.V {
		switch f.Kind.WireType() {
		case ref.WVarint:
			if f.Kind == ref.Bool {
				return u(uint64(n & 1))
			}
			return u(uint64(1)<<(uint(n)%31) - uint64(n&1))
		case ref.WBytes:
			if n == 1 {
				return sv("\x80")
			}
			return sv(bigMsg(n))
		}
		return vals(f.Kind, 3)[n%3]
	}
	if pos >= 0 {
		do(ex.SetOp(s, before, sv(big(pos))), false)
	}
	for i := 0; i < count; i++ {
		do(ex.AppendOp(s, rep, []string{"\x08\x01", "", "\x08\xac\x02"}[i%3], 1<<20), false)
	}
	write := func(n int, check bool) {
		if f.Kind == ref.RepMsg {
			do(ex.AppendOp(s, fi, val(n).S, 1<<20), check)
			return
		}
		do(ex.SetOp(s, fi, val(n)), check)
	}
	write(size, true)
	do(ex.SetOp(s, 0+b2i(fi == 0)*3, vals(s.Fields[0+b2i(fi == 0)*3].Kind, 1)[0]), false)
	if behind >= 0 {
		do(ex.SetOp(s, after, sv(big(behind))), false)
	}
	write(size2, true)
	do(ex.AppendOp(s, rep, "\x08\x07", 1<<20), false)
	if behind >= 0 {
		do(ex.SetOp(s, after, sv("xy")), true)
	}
	write(size, true)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func pairWriteJobs(check checkFn) []fw.Job {
	var jobs []fw.Job
	sizes := append(append([]int{}, pairSizes...), pairLarge...)
	lens := []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300, 511, 512, 1023, 1024, 1025, 4096, 8192, 16383, 16384, 32768, 65535, 65536}
	rests := [][6]int{{-1, 0, 3, 5, -1, 0}, {140, 3, 130, 2, 5, 0}, {3, 20, 1, 300, 200, 1000}}
	dims := func(k ref.Kind) [6][]int {
		vs := sizes
		if k.WireType() != ref.WBytes {
			vs = nil
			for i := 0; i <= 31; i++ {
				vs = append(vs, i)
			}
			if k.WireType() != ref.WVarint {
				vs = vs[:3]
			}
		}
		return [6][]int{sizes, pairCounts, vs, vs, sizes, lens}
	}
	dn := [6]string{"bytes before", "elements before", "size", "new size", "bytes behind", "capacity"}
	for fi := range wideSchema().Fields {
		const parts = 4
		for part := 0; part < parts; part++ {
			fi, part := fi, part
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("pair-writes-%d-%d", fi, part), Run: func(c *fw.Ctx) {
				own := wideSchema().Fields[fi].Num
				for ni, num := range append([]int{own}, pairNums...) {
					if ni > 0 && (num == own || ni%parts != part) {
						continue
					}
					s := pairSchema(fi, num)
					chk := check(s)
					cur := ""
					var names []string
					c.Cur = func() []string {
						l := names
						if len(l) > 40 {
							l = append(append([]string{}, l[:10]...), l[len(l)-20:]...)
						}
						return append([]string{fmt.Sprintf("schema with field %d of kind %s: %s", s.Fields[fi].Num, s.Fields[fi].Kind, cur)}, l...)
					}
					n := 0
					run := func(d [6]int, what func() string) bool {
						n++
						if ni == 0 && n%parts != part {
							return true
						}
						if !c.Step() {
							return false
						}
						cur = what()
						c.Count("pair_histories", 1)
						c.Nontrivial++
						pairWrite(c, s, fi, chk, d, &names)
						return true
					}
					dv := dims(s.Fields[fi].Kind)
					for ri, rest := range rests {
						for x := 0; x < 6; x++ {
							if ni > 0 {
								for _, xv := range dv[x] {
									d := rest
									d[x] = xv
									if !run(d, func() string { return fmt.Sprintf("rest %d, %s %d", ri, dn[x], xv) }) {
										return
									}
								}
								continue
							}
							for y := x + 1; y < 6; y++ {
								for _, xv := range dv[x] {
									for _, yv := range dv[y] {
										if !c.Thorough() && xv > 4096 && yv > 4096 && ri > 0 {
											continue
										}
										d := rest
										d[x], d[y] = xv, yv
										if !run(d, func() string { return fmt.Sprintf("rest %d, %s %d, %s %d", ri, dn[x], xv, dn[y], yv) }) {
											return
										}
									}
								}
							}
						}
					}
				}
			}})
		}
	}
	return jobs
}

func pairLimits(tier, id string) pairOpt {
	o := pairOpt{1 << 20, 1}
	if tier != "thorough" {
		o.max = 140000
	}
	return o
}
