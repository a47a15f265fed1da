package props

import (
	"fmt"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/fuel"
	"verifmc/fw"
	"verifmc/ref"
)

// c19Elems are contents of nested messages: well-formed, empty, malformed in
// every way, and nesting those.
func c19Elems(deep bool) []Token {
	bad := []Token{
		tok("tag only", []byte{0x10}),
		tok("truncated varint", []byte{0x10, 0x80}),
		tok("truncated bytes", []byte{0x7a, 0x05, 'a'}),
		tok("truncated fixed64", []byte{0x10, 0x05, 0x49, 1, 2, 3}),
		tok("group", []byte{0x13, 0x14}),
		tok("field number 0", []byte{0x00, 0x01}),
		tok("overflowing length", []byte{0x7a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}),
		tok("overflowing varint", []byte{0x10, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}),
	}
	good := []Token{
		tok("empty", nil),
		tok("int32=5", []byte{0x10, 0x05}),
		tok("string", []byte{0x72, 0x02, 'h', 'i', 0x10, 0x07}),
	}
	all := append(append([]Token{}, good...), bad...)
	if deep {
		var more []Token
		for _, e := range []Token{good[0], good[1], bad[0], bad[2], bad[4]} {
			more = append(more, tok("message{"+e.Name+"}", ref.AppendField(nil, 17, ref.Msg, ref.V{S: string(e.B)})),
				tok("messages{"+e.Name+",int32=5}", ref.AppendField(ref.AppendField(nil, 34, ref.RepMsg, ref.V{S: string(e.B)}), 34, ref.RepMsg, ref.V{S: "\x10\x05"})))
		}
		all = append(all, more...)
	}
	return all
}

// prefilled returns a receiver with recognisable contents.
func prefilled() *testzeropb.TestMessage {
	var t testzeropb.TestMessage
	t.SetInt64(77)
	t.SetString("before")
	return &t
}

func sameAsPrefilled(t *testzeropb.TestMessage) bool {
	return t.Int64() == 77 && t.String() == "before" && string(t.Encode()) == string(prefilled().Encode())
}

// c19Tree compares every accessor of a generated message with the reference,
// descending through well-formed nested messages. r is reused as the receiver
// for all nested messages.
func c19Tree(c *fw.Ctx, m *testzeropb.TestMessage, buf []byte, path string) {
	occs, ok := ref.Parse(buf, nil)
	if !ok {
		c.Broken("c19Tree on malformed bytes")
	}
	var i32 ref.V
	var str ref.V
	var nested *ref.Occ
	var list []ref.Occ
	for i := range occs {
		switch occs[i].Num {
		case 2:
			i32, _ = ref.Read(ref.Int32, &occs[i])
		case 14:
			str, _ = ref.Read(ref.String, &occs[i])
		case 17:
			nested = &occs[i]
		case 34:
			list = append(list, occs[i])
		}
	}
	scalars := func(when string) {
		if got := m.Int32(); uint64(int64(got)) != i32.U {
			c.Fail("%s: int32 reads %d %s, expected %d", path, got, when, int64(i32.U))
		}
		if got := m.String(); got != str.S {
			c.Fail("%s: string reads %q %s, expected %q", path, got, when, str.S)
		}
	}
	scalars("first")
	// Singular.
	x := prefilled()
	has, err := m.Message(x)
	if has != (nested != nil) {
		c.Fail("%s: message reported present=%v, expected %v", path, has, nested != nil)
	}
	if nested == nil {
		if err != nil {
			c.Fail("%s: absent message reports %v", path, err)
		}
		if !sameAsPrefilled(x) {
			c.Fail("%s: reading an absent message touched the receiver", path)
		}
	} else {
		_, wellFormed := ref.Parse(nested.B, nil)
		if (err == nil) != wellFormed {
			c.Fail("%s: message %x reports error %v, well-formed %v", path, nested.B, err, wellFormed)
		}
		if wellFormed {
			if string(x.Encode()) != string(nested.B) {
				c.Fail("%s: message is %x, expected %x", path, x.Encode(), nested.B)
			}
			if x.Int64() != c19Int64(nested.B) {
				c.Fail("%s: the receiver kept an old field", path)
			}
			c19Tree(c, x, nested.B, path+".message")
		} else {
			c.Count("nested_errors", 1)
		}
	}
	scalars("after reading message")
	// Repeated, twice.
	for pass := 0; pass < 2; pass++ {
		it := m.Messages()
		for i := range list {
			e := prefilled()
			has, err := it.Next(e)
			if !has {
				c.Fail("%s: iteration ends before element %d of %d", path, i, len(list))
			}
			_, wellFormed := ref.Parse(list[i].B, nil)
			if (err == nil) != wellFormed {
				c.Fail("%s: element %d %x reports error %v, well-formed %v", path, i, list[i].B, err, wellFormed)
			}
			if wellFormed {
				if string(e.Encode()) != string(list[i].B) || e.Int64() != c19Int64(list[i].B) {
					c.Fail("%s: element %d is %x, expected %x", path, i, e.Encode(), list[i].B)
				}
				if pass == 0 {
					c19Tree(c, e, list[i].B, fmt.Sprintf("%s.messages[%d]", path, i))
				}
			} else {
				c.Count("nested_errors", 1)
			}
		}
		e := prefilled()
		if has, err := it.Next(e); has || err != nil || !sameAsPrefilled(e) {
			c.Fail("%s: after the last element Next reports %v, %v (receiver untouched: %v)", path, has, err, sameAsPrefilled(e))
		}
	}
	scalars("after iterating")
}

// c19Padded has nested messages whose tags and lengths are longer than they
// need be.
func c19Padded() []Token {
	var toks []Token
	for _, e := range []Token{tok("empty", nil), tok("int32=5", []byte{0x10, 0x05}), tok("tag only", []byte{0x10})} {
		for _, tp := range []int{0, 1, 7} {
			for _, lp := range []int{0, 1, 2, 8} {
				p := append(ref.AppendVarintPad(nil, uint64(len(e.B)), lp), e.B...)
				toks = append(toks, rawTok(fmt.Sprintf("message=%s (tag +%d, length +%d)", e.Name, tp, lp), 17, 2, tp, p))
				toks = append(toks, rawTok(fmt.Sprintf("messages+=%s (tag +%d, length +%d)", e.Name, tp, lp), 34, 2, tp, p))
			}
		}
	}
	return append(toks, fieldTok(2, ref.Int32, u(9)), rawTok("unknown 99", 99, 2, 0, []byte{2, 0x8a, 0x01}))
}

func c19Job(c *fw.Ctx, first, max int, deep bool) {
	var toks []Token
	for _, e := range c19Elems(deep) {
		toks = append(toks, tok("message="+e.Name, ref.AppendField(nil, 17, ref.Msg, ref.V{S: string(e.B)})))
		toks = append(toks, tok("messages+="+e.Name, ref.AppendField(nil, 34, ref.RepMsg, ref.V{S: string(e.B)})))
	}
	toks = append(toks, fieldTok(2, ref.Int32, u(9)), fieldTok(14, ref.String, sv("\x8a\x01")), rawTok("unknown 99", 99, 2, 0, []byte{2, 0x8a, 0x01}))
	c19Run(c, toks, first, max)
}

func c19Run(c *fw.Ctx, toks []Token, first, max int) {
	if first >= len(toks) {
		return
	}
	var curIdx []int
	cur := ""
	c.Cur = func() []string { return []string{"decode TestMessage " + seqNames(toks, curIdx), cur} }
	var reused testzeropb.TestMessage
	seqs(toks, max, first, func(buf []byte, idx []int) bool {
		curIdx = idx
		if !c.Step() {
			return false
		}
		c.Evaluations++
		if len(idx) > 1 {
			c.Nontrivial++
			if c.WantSample() {
				c.Sample(seqNames(toks, idx))
			}
		}
		fuel.Set(1 << 30)
		in := append([]byte(nil), buf...)
		cur = "read everything"
		if err := reused.Decode(in); err != nil {
			c.Fail("a message with malformed nested messages does not decode: %v", err)
		}
		c19Tree(c, &reused, in, "m")
		// Still writable: each write leaves the nested messages as they are.
		if len(idx) > 2 && !(c.Thorough() && len(idx) == 3) {
			return true
		}
		for w := 0; w < 5; w++ {
			var m testzeropb.TestMessage
			if err := m.Decode(append([]byte(nil), buf...)); err != nil {
				c.Fail("decode: %v", err)
			}
			before, _ := ref.Parse(buf, nil)
			num := 0
			switch w {
			case 0:
				cur, num = "set int32 = -1", 2
				m.SetInt32(-1)
			case 1:
				cur, num = "set string = long", 14
				m.SetString("a longer string than before")
			case 2:
				cur, num = "append empty message", 34
				m.AppendToMessages(testzeropb.TestMessage{})
				before = append(before, ref.Occ{Num: 34, WT: 2})
				num = -1
			case 3:
				cur, num = "set message = empty", 17
				m.SetMessage(testzeropb.TestMessage{})
				x := prefilled()
				if has, err := m.Message(x); !has || err != nil || len(x.Encode()) != 0 {
					c.Fail("an empty message that was set reads present=%v error=%v %x", has, err, x.Encode())
				}
			case 4:
				cur, num = "set message = int64", 17
				m.SetMessage(*prefilled())
				var x testzeropb.TestMessage
				if has, err := m.Message(&x); !has || err != nil || !sameAsPrefilled(&x) {
					c.Fail("a message that was set reads present=%v error=%v %x", has, err, x.Encode())
				}
			}
			after, ok := ref.Parse(m.Encode(), nil)
			if !ok {
				c.Fail("the write broke the message: %x", m.Encode())
			}
			if !sameItems(wireItems(before, num), wireItems(after, num)) {
				c.Fail("the write changed other fields: %x to %x", buf, m.Encode())
			}
			c19Tree(c, &m, append([]byte(nil), m.Encode()...), "m")
		}
		return true
	})
}

// c19Presence explores presence of nested messages through set/decode/reset
// histories of the raft types.
func c19Presence(c *fw.Ctx, depth int) {
	var names []string
	c.Cur = func() []string { return names }
	type st struct {
		m   raftzeropb.Message
		has bool
		sub string
		n   []string
	}
	type op struct {
		name string
		do   func(s *st)
	}
	var snap raftzeropb.Snapshot
	snap.SetData([]byte("d"))
	ops := []op{
		{"set snapshot = empty", func(s *st) { s.m.SetSnapshot(raftzeropb.Snapshot{}); s.has, s.sub = true, "" }},
		{"set snapshot = data", func(s *st) { s.m.SetSnapshot(snap); s.has, s.sub = true, string(snap.Encode()) }},
		{"append entry = empty", func(s *st) { s.m.AppendToEntries(raftzeropb.Entry{}); s.n = append(s.n, "") }},
		{"set term", func(s *st) { s.m.SetTerm(300) }},
		{"set context = empty", func(s *st) { s.m.SetContext(nil) }},
		{"redecode", func(s *st) {
			if err := s.m.Decode(append([]byte(nil), s.m.Encode()...)); err != nil {
				c.Fail("decoding own encoding: %v", err)
			}
		}},
		{"reset", func(s *st) { s.m.Reset(nil); s.has, s.sub, s.n = false, "", nil }},
		{"decode message with empty snapshot", func(s *st) {
			if err := s.m.Decode([]byte{0x4a, 0x00}); err != nil {
				c.Fail("decode: %v", err)
			}
			s.has, s.sub, s.n = true, "", nil
		}},
		{"decode message with malformed entry", func(s *st) {
			if err := s.m.Decode([]byte{0x3a, 0x01, 0x10, 0x20, 0x05}); err != nil {
				c.Fail("decode: %v", err)
			}
			s.has, s.sub, s.n = false, "", []string{"bad"}
		}},
	}
	check := func(s *st) {
		c.Evaluations++
		var x raftzeropb.Snapshot
		x.SetData([]byte("before"))
		has, err := s.m.Snapshot(&x)
		if has != s.has || err != nil {
			c.Fail("snapshot present=%v error=%v, expected present=%v", has, err, s.has)
		}
		if has && string(x.Encode()) != s.sub {
			c.Fail("snapshot is %x, expected %x", x.Encode(), s.sub)
		}
		if !has && string(x.Data()) != "before" {
			c.Fail("absent snapshot touched the receiver")
		}
		it := s.m.Entries()
		for i := range s.n {
			var e raftzeropb.Entry
			has, err := it.Next(&e)
			if !has || (err != nil) != (s.n[i] == "bad") {
				c.Fail("entry %d present=%v error=%v", i, has, err)
			}
		}
		var e raftzeropb.Entry
		if has, _ := it.Next(&e); has {
			c.Fail("too many entries")
		}
	}
	idx := make([]int, 0, depth)
	var rec func()
	rec = func() {
		if !c.Step() {
			return
		}
		fuel.Set(1 << 30)
		names = nil
		for _, o := range idx {
			names = append(names, ops[o].name)
		}
		var s st
		for _, o := range idx {
			ops[o].do(&s)
		}
		check(&s)
		if len(idx) > 1 {
			c.Nontrivial++
		}
		if len(idx) == depth {
			return
		}
		for i := range ops {
			idx = append(idx, i)
			rec()
			idx = idx[:len(idx)-1]
		}
	}
	rec()
}

func c19Int64(b []byte) int64 {
	occs, _ := ref.Parse(b, nil)
	var v int64
	for i := range occs {
		if occs[i].Num == 3 {
			v = int64(occs[i].U)
		}
	}
	return v
}

// c19Doc decodes one document and reads everything in it.
func c19Doc(c *fw.Ctx, reused *testzeropb.TestMessage, name string, buf []byte) bool {
	if !c.Step() {
		return false
	}
	cur := "read everything"
	c.Cur = func() []string { return []string{"decode TestMessage " + name, cur} }
	c.Evaluations++
	c.Nontrivial++
	fuel.Set(1 << 40)
	if err := reused.Decode(buf); err != nil {
		c.Fail("a message with malformed nested messages does not decode: %v", err)
	}
	c19Tree(c, reused, buf, "m")
	c.Count("ladder", 1)
	return true
}

// c19Ladder goes up in the number of elements (with malformed ones at each
// place), their size, the depth of nesting, and the position in the message.
func c19Ladder(c *fw.Ctx, part, parts int) {
	elems := c19Elems(false)
	var good, bad []Token
	for i, e := range elems {
		if i < 3 {
			good = append(good, e)
		} else {
			bad = append(bad, e)
		}
	}
	list := func(b []byte, e []byte) []byte { return ref.AppendField(b, 34, ref.RepMsg, ref.V{S: string(e)}) }
	one := func(b []byte, e []byte) []byte { return ref.AppendField(b, 17, ref.Msg, ref.V{S: string(e)}) }
	var reused testzeropb.TestMessage
	n := 0
	mine := func() bool { n++; return n%parts == part }
	counts := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}
	if c.Thorough() {
		counts = append(counts, 511, 512, 513, 1023, 1024, 1025, 4096, 4097)
	}
	for _, cnt := range counts {
		for bi, b := range bad {
			for _, at := range [][]int{{0}, {cnt / 2}, {cnt - 1}, {0, cnt - 1}} {
				for sep := 0; sep < 3; sep++ {
					if !mine() {
						continue
					}
					var buf []byte
					for i := 0; i < cnt; i++ {
						e := good[(i+bi)%len(good)].B
						for _, x := range at {
							if x == i {
								e = b.B
							}
						}
						buf = list(buf, e)
						switch {
						case sep == 1:
							buf = ref.AppendField(buf, 2, ref.Int32, u(uint64(i)))
						case sep == 2 && i == cnt/2:
							buf = one(buf, bad[(bi+1)%len(bad)].B)
						}
					}
					if !c19Doc(c, &reused, fmt.Sprintf("with %d elements, %s at %v, separation %d", cnt, b.Name, at, sep), buf) {
						return
					}
				}
			}
		}
	}
	top := 1 << 17
	if c.Thorough() {
		top = 1 << 22
	}
	for _, size := range sizeLadder(top) {
		body := ref.AppendField(nil, 14, ref.String, sv(string(make([]byte, size))))
		for v, e := range [][]byte{body, body[:len(body)-1], append([]byte{0x10, 0x05}, body[:max(1, len(body)/2)]...), append(body[:len(body):len(body)], 0x10), body[:1]} {
			for shape := 0; shape < 3; shape++ {
				if !mine() {
					continue
				}
				var buf []byte
				switch shape {
				case 0:
					buf = ref.AppendField(one(nil, e), 2, ref.Int32, u(9))
				case 1:
					buf = list(list(list(nil, good[2].B), e), good[1].B)
				case 2:
					buf = list(one(list(nil, e), e), e)
				}
				if !c19Doc(c, &reused, fmt.Sprintf("with nested messages of %d bytes, variant %d, shape %d", size, v, shape), buf) {
					return
				}
			}
		}
	}
	depths := 40
	if c.Thorough() {
		depths = 200
	}
	for d := 1; d <= depths; d++ {
		for shape := 0; shape < 3; shape++ {
			for _, e := range elems {
				if !mine() {
					continue
				}
				b := e.B
				for i := 0; i < d; i++ {
					if shape == 0 || shape == 2 && i%2 == 0 {
						b = append(one(nil, b), 0x10, byte(i))
					} else {
						b = append([]byte{0x10, byte(i)}, list(nil, b)...)
					}
				}
				if !c19Doc(c, &reused, fmt.Sprintf("with %s nested %d deep, shape %d", e.Name, d, shape), b) {
					return
				}
			}
		}
	}
	// Across byte 65535 of the message.
	for k := 0; k < 48; k++ {
		pre := ref.AppendField(nil, 15, ref.Bytes, sv(string(make([]byte, 65535-k))))
		for _, e := range elems {
			if !mine() {
				continue
			}
			buf := one(list(list(pre[:len(pre):len(pre)], good[1].B), e.B), e.B)
			buf = list(ref.AppendField(buf, 2, ref.Int32, u(7)), good[2].B)
			if !c19Doc(c, &reused, fmt.Sprintf("with %s after a field that ends %d bytes before 65536", e.Name, 65536-len(pre)), buf) {
				return
			}
		}
	}
}

func init() {
	register(&fw.Prop{ID: "C19", Level: "exploration",
		Rule: "every sequence up to the bound of nested messages (well-formed, empty, malformed in eight ways, nesting those) in singular and repeated position with scalar and unknown neighbours, each read completely, descended into and written; every set/append/reset/decode history up to the bound for presence; non-trivial: at least two fields or operations",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			max, depth := 4, 6
			if tier == "thorough" {
				depth = 7
			}
			n := 2*len(c19Elems(true)) + 3
			for first := 0; first < n; first++ {
				first := first
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("nested-%d", first), Run: func(c *fw.Ctx) { c19Job(c, first, max, true) }})
			}
			if tier == "thorough" {
				for first := 0; first < 2*len(c19Elems(false))+3; first++ {
					first := first
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("nested5-%d", first), Run: func(c *fw.Ctx) { c19Job(c, first, 5, false) }})
				}
			}
			padded := c19Padded()
			for first := range padded {
				first := first
				max := 3
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("padded-%d", first), Run: func(c *fw.Ctx) { c19Run(c, padded, first, max) }})
			}
			jobs = append(jobs, fw.Job{Name: "presence", Run: func(c *fw.Ctx) { c19Presence(c, depth) }})
			for p := 0; p < 16; p++ {
				p := p
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("ladder-%d", p), Run: func(c *fw.Ctx) { c19Ladder(c, p, 16) }})
			}
			return jobs
		}})
}
