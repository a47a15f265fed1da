package props

import (
	"fmt"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/fuel"
	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

func c07Schema() (*zt.Schema, []Token) {
	s := zt.NewSchema(zt.Field{Num: 2, Kind: ref.RepMsg}, zt.Field{Num: 17, Kind: ref.RepMsg}, zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 3, Kind: ref.Bytes})
	s.Max = 20
	long := make([]byte, 130)
	for i := range long {
		long[i] = []byte{0x12, 0x01, 0x8a}[i%3]
	}
	t := []Token{
		fieldTok(2, ref.RepMsg, sv("")),
		fieldTok(2, ref.RepMsg, sv("\x12\x01\x08")),
		fieldTok(17, ref.RepMsg, sv("\x12\x00")),
		fieldTok(1, ref.Uint64, u(0x12)),
		rawTok("2:element (length padded)", 2, 2, 0, []byte{0x81, 0x00, 0x12}),
		rawTok("2:element (tag padded)", 2, 2, 1, []byte{1, 7}),
		rawTok("unknown 300 fixed64 like tags", 300, 1, 0, []byte{0x12, 0x00, 0x12, 0x00, 0x8a, 0x01, 0x00, 0x12}),
		rawTok("unknown 5 fixed32 like tags", 5, 5, 0, []byte{0x12, 0x00, 0x12, 0x01}),
		fieldTok(3, ref.Bytes, sv("\x12\x00\x12\x01\x07")),
		tok("2:130 bytes", ref.AppendField(nil, 2, ref.RepMsg, ref.V{S: string(long)})),
		rawTok("unknown 9 varint", 9, 0, 0, []byte{0x92, 0x80, 0x01}),
		fieldTok(17, ref.RepMsg, sv("\x8a\x01\x00")),
	}
	return s, t
}

// iterator is one cursor under test with the sequence it must produce.
type iterator struct {
	f    zt.Field
	it   []byte
	want []string
	pos  int
}

// advance calls Next once; past the end it must keep reporting the end.
func (x *iterator) advance(c *fw.Ctx, m *zt.Msg) {
	e, ok := m.Next(&x.it, x.f)
	if x.pos >= len(x.want) {
		if ok {
			c.Fail("iterator of field %d yields %q after its %d elements", x.f.Num, e, len(x.want))
		}
	} else if !ok || string(e) != x.want[x.pos] {
		c.Fail("element %d of field %d is %q (present %v), expected %q", x.pos, x.f.Num, e, ok, x.want[x.pos])
	}
	x.pos++
}

const pastEnd = 2 // calls past the end that are explored

// product explores the joint state graph of two iterators: every reachable
// pair of positions, each by a path of its own, checking that arriving at the
// same pair by different paths gives the same iterators.
func product(c *fw.Ctx, m *zt.Msg, a, b iterator) {
	type cell struct {
		a, b []byte
		set  bool
	}
	w := len(b.want) + pastEnd + 1
	grid := make([]cell, (len(a.want)+pastEnd+1)*w)
	grid[0] = cell{a.it, b.it, true}
	at := func(x []byte) [2]uintptr { return [2]uintptr{addr(x), uintptr(len(x))} }
	put := func(i, j int, x cell) {
		g := &grid[i*w+j]
		if g.set && (at(g.a) != at(x.a) || at(g.b) != at(x.b)) {
			c.Fail("iterators at positions %d,%d depend on the order of calls", i, j)
		}
		*g = x
		g.set = true
	}
	for i := 0; i <= len(a.want)+pastEnd; i++ {
		for j := 0; j <= len(b.want)+pastEnd; j++ {
			g := grid[i*w+j]
			c.States++
			if i < len(a.want)+pastEnd {
				x := iterator{a.f, g.a, a.want, i}
				x.advance(c, m)
				c.Transitions++
				put(i+1, j, cell{x.it, g.b, true})
			}
			if j < len(b.want)+pastEnd {
				x := iterator{b.f, g.b, b.want, j}
				x.advance(c, m)
				c.Transitions++
				put(i, j+1, cell{g.a, x.it, true})
			}
		}
	}
}

// interleave runs every interleaving of complete runs of the iterators from
// scratch (no assumption that an iterator's state is all in its value).
func interleave(c *fw.Ctx, m *zt.Msg, start func() []iterator, order *[]int) {
	its := start()
	n := make([]int, len(its))
	total := 0
	for i := range its {
		n[i] = len(its[i].want) + 1
		total += n[i]
	}
	seq := make([]int, 0, total)
	var rec func()
	rec = func() {
		if len(seq) == total {
			*order = seq
			run := start()
			for _, k := range seq {
				run[k].advance(c, m)
			}
			c.Count("interleavings", 1)
			return
		}
		for k := range n {
			if n[k] > 0 {
				n[k]--
				seq = append(seq, k)
				rec()
				seq = seq[:len(seq)-1]
				n[k]++
			}
		}
	}
	rec()
}

func c07Job(c *fw.Ctx, first, max, full int) {
	s, toks := c07Schema()
	if first >= len(toks) {
		return
	}
	fa, fb := s.Fields[0], s.Fields[1]
	m := zt.New(s)
	var curIdx, order []int
	mode := ""
	c.Cur = func() []string {
		return []string{"decode " + seqNames(toks, curIdx), mode, fmt.Sprint("order of iterator calls ", order)}
	}
	lists := func(buf []byte, occs []ref.Occ) (a, b []string) {
		for i := range occs {
			switch int(occs[i].Num) {
			case fa.Num:
				a = append(a, string(occs[i].B))
			case fb.Num:
				b = append(b, string(occs[i].B))
			}
		}
		return
	}
	var occs []ref.Occ
	check := func(m *zt.Msg, a, b []string, deep bool) {
		ia := iterator{f: fa, it: m.Iter(fa), want: a}
		ib := iterator{f: fb, it: m.Iter(fb), want: b}
		product(c, m, ia, ib)
		product(c, m, ia, iterator{f: fa, it: m.Iter(fa), want: a})
		if deep {
			interleave(c, m, func() []iterator {
				return []iterator{{f: fa, it: m.Iter(fa), want: a}, {f: fb, it: m.Iter(fb), want: b}}
			}, &order)
			interleave(c, m, func() []iterator {
				return []iterator{{f: fa, it: m.Iter(fa), want: a}, {f: fa, it: m.Iter(fa), want: a}}
			}, &order)
		}
		order = nil
	}
	seqs(toks, max, first, func(buf []byte, idx []int) bool {
		curIdx = idx
		if !c.Step() {
			return false
		}
		mode = "then iterate"
		occs, _ = ref.Parse(buf, occs[:0])
		if err := m.Decode(s, buf); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		a, b := lists(buf, occs)
		check(m, a, b, len(idx) <= full)
		if len(idx) > full {
			return true
		}
		// Continue by appending and rewriting, then iterate again.
		for _, w := range []struct {
			name string
			do   func(m *zt.Msg)
			a, b []string
		}{
			{"append to 2, then iterate", func(m *zt.Msg) { m.Append(fa, []byte("\x12\x00")) }, []string{"\x12\x00"}, nil},
			{"append to 17 and 2, then iterate", func(m *zt.Msg) { m.Append(fb, nil); m.Append(fa, nil) }, []string{""}, []string{""}},
			{"rewrite 1, then iterate", func(m *zt.Msg) { m.Set(s.Fields[2], u(1<<40)) }, nil, nil},
			{"rewrite 3, append to 2, then iterate", func(m *zt.Msg) { m.Set(s.Fields[3], sv("")); m.Append(fa, []byte("z")) }, []string{"z"}, nil},
		} {
			mode = w.name
			n := m.Clone(0)
			w.do(n)
			check(n, append(a[:len(a):len(a)], w.a...), append(b[:len(b):len(b)], w.b...), len(idx) < full)
		}
		if len(a) > 1 && len(b) > 0 && c.WantSample() {
			c.Sample(seqNames(toks, idx))
		}
		return true
	})
}

// c07Append appends elements while iterators are under way: an iterator goes
// on to yield what was there when it was made, in order, and anything it
// yields beyond that is what was appended.
func c07Append(c *fw.Ctx, start, slack, max int) {
	s, toks := c07Schema()
	starts := [][]int{{}, {0}, {1, 2}, {2, 1, 7}, {9, 3, 0, 11}, {6, 4, 8, 5}}
	if start >= len(starts) {
		return
	}
	type run struct {
		it   []byte
		f    zt.Field
		pos  int
		must int
		end  bool
	}
	var buf []byte
	for _, i := range starts[start] {
		buf = append(buf, toks[i].B...)
	}
	base, _ := ref.Parse(buf, nil)
	fs := []zt.Field{s.Fields[0], s.Fields[1]}
	elems := []string{"", "\x12\x01\x12", string(make([]byte, 40))}
	names := []string{"append to 2: empty", "append to 2: 3 bytes", "append to 2: 40 bytes", "append to 17: empty", "append to 17: 3 bytes", "append to 17: 40 bytes",
		"iterate 2", "iterate 17", "next of 1st", "next of 2nd", "next of 3rd"}
	var seq []int
	c.Cur = func() []string {
		l := []string{"decode " + seqNames(toks, starts[start]), fmt.Sprintf("spare capacity %d", slack)}
		for _, o := range seq {
			l = append(l, names[o])
		}
		return l
	}
	exec := func() {
		m := zt.New(s)
		b := make([]byte, len(buf), len(buf)+slack)
		copy(b, buf)
		if err := m.Decode(s, b); err != nil {
			c.Fail("Decode of a well-formed message fails: %v", err)
		}
		var list [2][]string
		for _, o := range base {
			for k := range fs {
				if int(o.Num) == fs[k].Num {
					list[k] = append(list[k], string(o.B))
				}
			}
		}
		var l []run
		for _, o := range seq {
			switch {
			case o < 6:
				m.Append(fs[o/3], []byte(elems[o%3]))
				list[o/3] = append(list[o/3], elems[o%3])
			case o < 8:
				l = append(l, run{it: m.Iter(fs[o-6]), f: fs[o-6], must: len(list[o-6])})
			default:
				if o-8 >= len(l) {
					return
				}
				r := &l[o-8]
				k := 0
				if r.f.Num == 17 {
					k = 1
				}
				e, ok := m.Next(&r.it, r.f)
				switch {
				case !ok && r.pos < r.must:
					c.Fail("iterator of field %d ends after %d of its %d elements", r.f.Num, r.pos, r.must)
				case !ok:
					r.end = true
				case r.end:
					c.Fail("iterator of field %d yields %q after its end", r.f.Num, e)
				case r.pos >= len(list[k]) || string(e) != list[k][r.pos]:
					c.Fail("element %d of field %d is %q, list is %q", r.pos, r.f.Num, e, list[k])
				default:
					r.pos++
				}
			}
			c.Transitions++
		}
	}
	var rec func(its int)
	rec = func(its int) {
		if !c.Step() {
			return
		}
		if len(seq) > 0 && seq[len(seq)-1] >= 8 {
			exec()
			c.Count("append_while_iterating", 1)
		}
		if len(seq) == max {
			return
		}
		for o := range names {
			i := its
			switch {
			case o < 6:
			case o < 8:
				if i++; i > 3 {
					continue
				}
			case o-8 >= its:
				continue
			}
			seq = append(seq, o)
			rec(i)
			seq = seq[:len(seq)-1]
			if c.Incomplete {
				return
			}
		}
	}
	rec(0)
}

// c07Golden interleaves the generated iterators.
func c07Golden(c *fw.Ctx, max int) {
	var cur string
	c.Cur = func() []string { return []string{cur} }
	elems := []string{"", "\x10\x05", "\x10\x07\x18\x03"}
	interl := func(n1, n2 int, start func() (func() (bool, string), func() (bool, string)), want []string) {
		var order []int
		var rec func(i, j int)
		rec = func(i, j int) {
			if i == n1 && j == n2 {
				a, b := start()
				p := [2]int{}
				for _, k := range order {
					next := a
					if k == 1 {
						next = b
					}
					ok, got := next()
					exp := ""
					if p[k] < len(want) {
						exp = want[p[k]]
					}
					if ok != (p[k] < len(want)) || ok && got != exp {
						c.Fail("generated iterator %d, call %d: present %v, %q; expected %q (order of calls %v)", k, p[k], ok, got, want, order)
					}
					p[k]++
				}
				c.Replayed++
				return
			}
			if i < n1 {
				order = append(order, 0)
				rec(i+1, j)
				order = order[:len(order)-1]
			}
			if j < n2 {
				order = append(order, 1)
				rec(i, j+1)
				order = order[:len(order)-1]
			}
		}
		rec(0, 0)
	}
	for _, typ := range []string{"raft", "test"} {
		num := 7
		if typ == "test" {
			num = 34
		}
		var toks []Token
		for _, e := range elems {
			toks = append(toks, fieldTok(num, ref.RepMsg, sv(e)))
		}
		toks = append(toks, fieldTok(4, ref.Uint32, u(0x3a)), fieldTok(num+1, ref.Bytes, sv("\x3a\x00")))
		if typ == "raft" {
			toks[len(toks)-1] = fieldTok(12, ref.Bytes, sv("\x3a\x00"))
		}
		seqs(toks, max, -1, func(buf []byte, idx []int) bool {
			cur = typ + " " + seqNames(toks, idx)
			if !c.Step() {
				return false
			}
			fuel.Set(1 << 40)
			var want []string
			for _, i := range idx {
				if i < len(elems) {
					want = append(want, elems[i])
				}
			}
			buf = append([]byte(nil), buf...)
			if typ == "raft" {
				var m raftzeropb.Message
				if err := m.Decode(buf); err != nil {
					c.Fail("decode: %v", err)
				}
				start := func() (func() (bool, string), func() (bool, string)) {
					i1, i2 := m.Entries(), m.Entries()
					var shared raftzeropb.Entry
					f := func(next func(*raftzeropb.Entry) (bool, error)) func() (bool, string) {
						return func() (bool, string) {
							ok, err := next(&shared)
							if err != nil {
								c.Fail("Next: %v", err)
							}
							return ok, string(shared.Encode())
						}
					}
					return f(i1.Next), f(i2.Next)
				}
				interl(len(want)+1, len(want)+1, start, want)
				return true
			}
			var m testzeropb.TestMessage
			if err := m.Decode(buf); err != nil {
				c.Fail("decode: %v", err)
			}
			start := func() (func() (bool, string), func() (bool, string)) {
				i1, i2 := m.Messages(), m.Messages()
				var shared testzeropb.TestMessage
				f := func(next func(*testzeropb.TestMessage) (bool, error)) func() (bool, string) {
					return func() (bool, string) {
						ok, err := next(&shared)
						if err != nil {
							c.Fail("Next: %v", err)
						}
						return ok, string(shared.Encode())
					}
				}
				return f(i1.Next), f(i2.Next)
			}
			interl(len(want)+1, len(want)+1, start, want)
			return true
		})
	}
}

func init() {
	register(&fw.Prop{ID: "C07", Level: "model_checking",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			max, full, gmax := 6, 4, 4
			if tier == "thorough" {
				max, full, gmax = 7, 5, 6
			}
			_, toks := c07Schema()
			for first := range toks {
				first := first
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("iterate-%d", first), Run: func(c *fw.Ctx) { c07Job(c, first, max, full) }})
			}
			amax := 6
			if tier == "thorough" {
				amax = 8
			}
			for start := 0; start < 6; start++ {
				for _, slack := range []int{0, 4, 200} {
					start, slack := start, slack
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("append-%d-%d", start, slack), Run: func(c *fw.Ctx) { c07Append(c, start, slack, amax) }})
				}
			}
			jobs = append(jobs, fw.Job{Name: "golden", Run: func(c *fw.Ctx) { c07Golden(c, gmax) }})
			jobs = append(jobs, shiftedJobs(tier, wideIterate)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c07"), anyField(wideIterate))...)
			return append(jobs, wideJobs(wideFamilies(wideOpt{1 << 22, 70000, 40000}), bothSchemas, wideIterate)...)
		}})
}
