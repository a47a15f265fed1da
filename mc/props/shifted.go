package props

import (
	"fmt"
	"strings"

	"verifmc/ex"
	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// The families of documents on schemas with the kinds of wideSchema but other
// field numbers: on both sides of every length of a tag, of bytes and of
// 16-bit words, adjacent or apart.

func shifted(base, stride int) func() *zt.Schema {
	return func() *zt.Schema {
		fs := append([]zt.Field{}, wideSchema().Fields...)
		for i := range fs {
			fs[i].Num = base + i*stride
		}
		return zt.NewSchema(fs...)
	}
}

// descending has the largest number first.
func descending(base int) func() *zt.Schema {
	return func() *zt.Schema {
		fs := append([]zt.Field{}, wideSchema().Fields...)
		for i := range fs {
			fs[i].Num = base - i
		}
		return zt.NewSchema(fs...)
	}
}

func shiftedSchemas(tier string) []func() *zt.Schema {
	l := []func() *zt.Schema{shifted(10, 1), shifted(16, 7), descending(135), shifted(250, 1), shifted(1000, 97), shifted(2040, 1), descending(4100), shifted(16380, 1)}
	if tier == "thorough" {
		l = append(l, shifted(500, 1), shifted(8187, 1), shifted(32760, 1), shifted(65530, 1), shifted(20, 16), shifted(100, 256))
	}
	return l
}

func shiftedJobs(tier string, mk func(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ)) []fw.Job {
	fams := []wideFamily{{"all", wideAll}, {"padding", widePadding}, {"sizes", wideSizes(1100)}, {"counts", wideCounts(35)}}
	if tier == "thorough" {
		fams = []wideFamily{{"all", wideAll}, {"padding", widePadding}, {"sizes", wideSizes(70000)}, {"counts", wideCounts(1100)}, {"numbers", wideNumbers}}
	}
	jobs := wideJobs(fams, shiftedSchemas(tier), mk)
	// Few and small: one job per family and schema part.
	for i := range jobs {
		jobs[i].Name = "shifted-" + jobs[i].Name
	}
	return jobs
}

// appendSizes appends elements of every size to repeated fields, and sets
// length-delimited fields to values of every size, next to other fields, for
// field numbers with tags of every length.
func appendSizes(c *fw.Ctx, num, part, parts, max int, check checkFn) {
	s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: num, Kind: ref.RepMsg}, zt.Field{Num: num + 1, Kind: ref.String}, zt.Field{Num: num + 2, Kind: ref.Msg}, zt.Field{Num: num + 3, Kind: ref.Bytes})
	chk := check(s)
	var names []string
	c.Cur = func() []string { return []string{fmt.Sprintf("field number %d", num), strings.Join(names, "; ")} }
	run := func(size, spare int, ops ...ex.Op) bool {
		if !c.Step() {
			return false
		}
		m, r := zt.New(s), ex.NewRef(s)
		if spare > 0 {
			m.Buf = make([]byte, 0, size+spare)
		}
		names = names[:0]
		for _, o := range ops {
			names = append(names, o.Name)
			o.Do(c, m, r)
			c.Transitions++
		}
		chk(c, m, r)
		c.Count("sizes_written", 1)
		return true
	}
	one := func(size int, twice bool) bool {
		x, y := big(size), big(size)
		if size != 1 {
			y = bigMsg(size)
		}
		v, st, el := ex.SetOp(s, 0, u(300)), ex.SetOp(s, 2, sv("abc")), ex.AppendOp(s, 1, "\x08\x01", 9)
		large := ex.AppendOp(s, 1, y, 9)
		spare := []int{0, 3, 20, 4000}[size%4]
		msg := sv(y)
		msg.Has = true
		ok := run(size, spare, large, v) && run(size, spare, v, el, large, el, st) && run(size, spare, ex.SetOp(s, 4, sv(x)), large, v)
		if twice {
			ok = ok && run(2*size, spare, large, st, large, el) && run(size, spare, v, ex.SetOp(s, 2, sv(x)), el, v) && run(2*size, spare, ex.SetOp(s, 3, msg), v, ex.SetOp(s, 2, sv(x)), st)
		}
		return ok
	}
	for _, size := range sizeLadder(max) {
		if size%parts == part && !one(size, true) {
			return
		}
	}
	every := 2500
	if c.Thorough() {
		every = 70000
	}
	for size := part; size <= every; size += parts {
		if !one(size, false) {
			return
		}
	}
}

func appendSizeJobs(check checkFn) []fw.Job {
	var jobs []fw.Job
	for _, num := range []int{2, 14, 15, 16, 130, 2047, 2048} {
		for part := 0; part < 4; part++ {
			num, part := num, part
			max := 70000
			if num == 2 || num == 16 {
				max = 1<<21 + 2
			}
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("append-sizes-%d-%d", num, part), Run: func(c *fw.Ctx) { appendSizes(c, num, part, 4, max, check) }})
		}
	}
	return jobs
}
