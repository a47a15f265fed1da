//go:build sched

package props

import (
	"fmt"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/sched"
	"verifmc/zt"
)

func errV(err error) ref.V {
	if err != nil {
		return ref.V{S: "error: " + err.Error()}
	}
	return ref.V{}
}

// cop is one thread's operation on its message {1:k1, 2:k2, 3:repeated}.
type cop struct {
	name  string
	kind  ref.Kind // of field 1
	reads bool
	key   bool // combined with every other operation
	do    func(s *zt.Schema, m *zt.Msg) []ref.V
}

var c11Schemas = map[ref.Kind]*zt.Schema{}

func c11Schema(k ref.Kind) *zt.Schema {
	if s, ok := c11Schemas[k]; ok {
		return s
	}
	s := zt.NewSchema(zt.Field{Num: 1, Kind: k}, zt.Field{Num: 2, Kind: ref.Bytes}, zt.Field{Num: 3, Kind: ref.RepMsg})
	c11Schemas[k] = s
	return s
}

var c11Cache = map[string][]byte{}

// c11Bytes is a message of the schema, or one whose fields lie beyond 64 KiB.
func c11Bytes(k ref.Kind, salt byte, large bool) []byte {
	key := fmt.Sprint(k, salt, large)
	if b, ok := c11Cache[key]; ok {
		return b
	}
	var b []byte
	if large {
		b = append(b, rawTok("", 40, 2, 0, append(ref.AppendVarint(nil, 65540), big(65540)...)).B...)
	}
	b = ref.AppendField(b, 1, k, vals(k, 1)[0])
	b = ref.AppendField(b, 3, ref.RepMsg, sv(string([]byte{8, salt})))
	b = ref.AppendField(b, 2, ref.Bytes, sv(string([]byte{'a', salt, 'b'})))
	b = ref.AppendField(b, 3, ref.RepMsg, sv("\x10\x02"))
	c11Cache[key] = b
	return b
}

func c11Ops() []cop {
	var l []cop
	for _, k := range singular {
		k := k
		l = append(l, cop{fmt.Sprintf("read %s", k), k, true, false, func(s *zt.Schema, m *zt.Msg) []ref.V { return []ref.V{m.Get(s.Fields[0])} }})
		for i, v := range vals(k, 2) {
			v := v
			l = append(l, cop{fmt.Sprintf("set %s = %s", k, short(v)), k, false, i == 1 && (k == ref.Uint64 || k == ref.String), func(s *zt.Schema, m *zt.Msg) []ref.V {
				m.Set(s.Fields[0], v)
				return []ref.V{m.Get(s.Fields[0])}
			}})
		}
	}
	gen := func(name string, reads bool, do func(s *zt.Schema, m *zt.Msg) []ref.V) {
		l = append(l, cop{name, ref.Uint64, reads, true, do})
	}
	gen("iterate", true, func(s *zt.Schema, m *zt.Msg) (o []ref.V) {
		f := s.Fields[2]
		it := m.Iter(f)
		for k := 0; k < 10; k++ {
			e, ok := m.Next(&it, f)
			if !ok {
				break
			}
			o = append(o, ref.V{S: string(e)})
		}
		return o
	})
	gen("copy the encoding", true, func(s *zt.Schema, m *zt.Msg) []ref.V { return []ref.V{{S: string(m.Buf)}} })
	gen("append", false, func(s *zt.Schema, m *zt.Msg) []ref.V { m.Append(s.Fields[2], []byte("\x08\x09")); return nil })
	gen("decode", false, func(s *zt.Schema, m *zt.Msg) []ref.V {
		return []ref.V{errV(m.Decode(s, []byte("\x12\x01x\x1a\x00\x08\x07")))}
	})
	gen("decode malformed", false, func(s *zt.Schema, m *zt.Msg) []ref.V { return []ref.V{errV(m.Decode(s, []byte{8, 1, 0x1f, 0}))} })
	gen("decode truncated", false, func(s *zt.Schema, m *zt.Msg) []ref.V { return []ref.V{errV(m.Decode(s, []byte{8, 1, 0x12, 9, 0}))} })
	gen("reset and set", false, func(s *zt.Schema, m *zt.Msg) []ref.V {
		m.Reset(nil)
		m.Set(s.Fields[0], u(4))
		return []ref.V{m.Get(s.Fields[0])}
	})
	gen("write back a value read", false, func(s *zt.Schema, m *zt.Msg) []ref.V {
		x := m.GetRaw(s.Fields[1])
		if len(x) > 1 {
			x = x[1:]
		}
		m.SetRaw(s.Fields[1], x)
		return []ref.V{m.Get(s.Fields[1])}
	})
	return l
}

func all(s *zt.Schema, m *zt.Msg) []ref.V {
	o := []ref.V{m.Get(s.Fields[0]), m.Get(s.Fields[1])}
	l, err := m.List(s.Fields[2])
	for _, x := range l {
		o = append(o, ref.V{S: x})
	}
	return append(o, errV(err), ref.V{S: string(m.Buf)})
}

func failed(r []ref.V) bool { return len(r) > 0 && len(r[0].S) > 5 && r[0].S[:5] == "error" }

// distinct: each thread works on its own message.
func distinct(a, b cop, large bool) *sched.Scenario {
	return &sched.Scenario{Name: fmt.Sprintf("distinct messages (large=%v)", large), Make: func() []sched.Thread {
		var ts []sched.Thread
		for i, o := range []cop{a, b} {
			o := o
			s := c11Schema(o.kind)
			m := zt.New(s)
			if err := m.Decode(s, append([]byte(nil), c11Bytes(o.kind, byte(i+1), large)...)); err != nil {
				panic(err)
			}
			bad := false
			ts = append(ts, sched.Thread{Name: o.name, Run: func() []ref.V {
				r := o.do(s, m)
				bad = failed(r)
				return r
			}, After: func() []ref.V {
				if bad {
					return nil
				}
				return all(s, m)
			}})
		}
		return ts
	}}
}

// sharedReaders: both threads read one message.
func sharedReaders(a, b cop, large bool) *sched.Scenario {
	return &sched.Scenario{Name: fmt.Sprintf("two readers of one message (large=%v)", large), Make: func() []sched.Thread {
		s := zt.NewSchema(zt.Field{Num: 1, Kind: a.kind}, zt.Field{Num: 2, Kind: ref.Bytes}, zt.Field{Num: 3, Kind: ref.RepMsg}, zt.Field{Num: 4, Kind: b.kind})
		sb := zt.NewSchema(zt.Field{Num: 4, Kind: b.kind}, zt.Field{Num: 2, Kind: ref.Bytes}, zt.Field{Num: 3, Kind: ref.RepMsg})
		m := zt.New(s)
		bytes := ref.AppendField(append([]byte(nil), c11Bytes(a.kind, 1, large)...), 4, b.kind, vals(b.kind, 2)[1])
		if err := m.Decode(s, bytes); err != nil {
			panic(err)
		}
		after := func() []ref.V { return append(all(s, m), m.Get(s.Fields[3])) }
		return []sched.Thread{
			{Name: a.name, Run: func() []ref.V { return a.do(s, m) }, After: after},
			{Name: b.name, Run: func() []ref.V { return b.do(sb, m) }, After: after},
		}
	}}
}

// c11Preps are ways in which a message of the schema {1:k, 2:bytes, 3:repeated}
// comes to be before the threads start.
var c11Preps = []struct {
	name string
	do   func(s *zt.Schema, m *zt.Msg, salt byte)
}{
	{"built", func(s *zt.Schema, m *zt.Msg, salt byte) { c11Build(s, m, salt) }},
	{"built beyond 64 KiB, then shrunk", func(s *zt.Schema, m *zt.Msg, salt byte) {
		m.SetRaw(s.Fields[1], []byte(big(65540)))
		c11Build(s, m, salt)
		m.SetRaw(s.Fields[1], []byte{'x', salt})
	}},
	{"decoded beyond 64 KiB, then shrunk", func(s *zt.Schema, m *zt.Msg, salt byte) {
		b := ref.AppendField(nil, 2, ref.Bytes, sv(string(big(65540))))
		if err := m.Decode(s, append(b, c11Small(s, salt)...)); err != nil {
			panic(err)
		}
		m.SetRaw(s.Fields[1], []byte{'x', salt})
	}},
	{"decoded beyond 64 KiB, then decoded small", func(s *zt.Schema, m *zt.Msg, salt byte) {
		b := ref.AppendField(nil, 2, ref.Bytes, sv(string(big(65540))))
		if m.Decode(s, append(b, c11Small(s, salt)...)) != nil || m.Decode(s, c11Small(s, salt)) != nil {
			panic("decode")
		}
	}},
	{"decoded beyond 64 KiB, then reset and built", func(s *zt.Schema, m *zt.Msg, salt byte) {
		b := ref.AppendField(nil, 2, ref.Bytes, sv(string(big(65540))))
		if m.Decode(s, append(b, c11Small(s, salt)...)) != nil {
			panic("decode")
		}
		m.Reset(nil)
		c11Build(s, m, salt)
	}},
	{"decoded malformed, then small", func(s *zt.Schema, m *zt.Msg, salt byte) {
		if m.Decode(s, []byte{8, 1, 0x12, 9, 0}) == nil || m.Decode(s, c11Small(s, salt)) != nil {
			panic("decode")
		}
	}},
	{"decoded with duplicates and padded tags and edited", func(s *zt.Schema, m *zt.Msg, salt byte) {
		b := append([]byte{0x92, 0x80, 0x00, 0x81, 0x00, 'p'}, c11Small(s, salt)...)
		if m.Decode(s, append(b, 0x92, 0x00, 0x82, 0x00, 'q', salt)) != nil {
			panic("decode")
		}
		m.Set(s.Fields[0], vals(s.Fields[0].Kind, 3)[2])
	}},
	{"grown field by field", func(s *zt.Schema, m *zt.Msg, salt byte) {
		for n := 1; n < 70000; n = n*4 + 1 {
			m.SetRaw(s.Fields[1], []byte(big(n)))
			m.Set(s.Fields[0], vals(s.Fields[0].Kind, 2)[n/4%2])
		}
		m.Append(s.Fields[2], []byte{8, salt})
	}},
}

func c11Small(s *zt.Schema, salt byte) []byte {
	b := ref.AppendField(nil, 1, s.Fields[0].Kind, vals(s.Fields[0].Kind, 2)[1])
	b = ref.AppendField(b, 3, ref.RepMsg, sv(string([]byte{8, salt})))
	b = ref.AppendField(b, 2, ref.Bytes, sv(string([]byte{'a', salt, 'b'})))
	return ref.AppendField(b, 3, ref.RepMsg, sv("\x10\x02"))
}

func c11Build(s *zt.Schema, m *zt.Msg, salt byte) {
	m.Set(s.Fields[0], vals(s.Fields[0].Kind, 2)[1])
	m.Append(s.Fields[2], []byte{8, salt})
	m.SetRaw(s.Fields[1], append(append([]byte{}, m.GetRaw(s.Fields[1])...), 'b', salt))
	m.Append(s.Fields[2], []byte{0x10, 2})
}

// prepared: the threads share one message (and only read), or have their own,
// with a given past.
func prepared(prep int, a, b cop, shared bool) *sched.Scenario {
	p := c11Preps[prep]
	return &sched.Scenario{Name: fmt.Sprintf("shared=%v, messages %s", shared, p.name), Make: func() []sched.Thread {
		var ts []sched.Thread
		s := c11Schema(ref.Uint64)
		m := zt.New(s)
		p.do(s, m, 1)
		for i, o := range []cop{a, b} {
			o, m := o, m
			if i > 0 && !shared {
				m = zt.New(s)
				p.do(s, m, 2)
			}
			bad := false
			ts = append(ts, sched.Thread{Name: o.name, Run: func() []ref.V {
				r := o.do(s, m)
				bad = failed(r)
				return r
			}, After: func() []ref.V {
				if bad {
					return nil
				}
				return all(s, m)
			}})
		}
		return ts
	}}
}

// c11Fresh are what a thread may do with a message as the first thing that its
// process does with the library.
func c11Fresh() []cop {
	var l []cop
	for _, k := range singular {
		k := k
		// The harness's own caches are no business of the threads.
		b, vs := c11Bytes(k, 1, false), vals(k, 2)
		l = append(l, cop{fmt.Sprintf("decode, set and read %s", k), k, false, false, func(s *zt.Schema, m *zt.Msg) []ref.V {
			err := m.Decode(s, append([]byte(nil), b...))
			r := []ref.V{errV(err), m.Get(s.Fields[0])}
			m.Set(s.Fields[0], vs[0])
			return append(r, m.Get(s.Fields[0]))
		}}, cop{fmt.Sprintf("set and read %s", k), k, false, false, func(s *zt.Schema, m *zt.Msg) []ref.V {
			m.Set(s.Fields[0], vs[1])
			return []ref.V{m.Get(s.Fields[0])}
		}})
	}
	for _, o := range c11Ops() {
		o := o
		if !o.key || o.kind != ref.Uint64 {
			continue
		}
		l = append(l, cop{"build, " + o.name, ref.Uint64, false, true, func(s *zt.Schema, m *zt.Msg) []ref.V {
			m.Append(s.Fields[2], []byte{8, 1})
			m.SetRaw(s.Fields[1], []byte("xyz"))
			return o.do(s, m)
		}})
		if o.reads {
			l = append(l, cop{o.name + " of an empty message", ref.Uint64, false, true, o.do})
		}
	}
	large := c11Bytes(ref.Uint64, 1, true)
	return append(l, cop{"decode beyond 64 KiB", ref.Uint64, false, true, func(s *zt.Schema, m *zt.Msg) []ref.V {
		err := m.Decode(s, append([]byte(nil), large...))
		m.SetRaw(s.Fields[1], []byte("xyz"))
		return []ref.V{errV(err), m.Get(s.Fields[0]), m.Get(s.Fields[1])}
	}}, cop{"decode malformed", ref.Uint64, false, true, func(s *zt.Schema, m *zt.Msg) []ref.V {
		return []ref.V{errV(m.Decode(s, []byte{8, 1, 0x1f, 0}))}
	}}, cop{"decode truncated", ref.Uint64, false, true, func(s *zt.Schema, m *zt.Msg) []ref.V {
		return []ref.V{errV(m.Decode(s, []byte{8, 1, 0x12, 9, 0}))}
	}})
}

// fresh: each thread starts with an empty message of its own.
func fresh(a, b cop) *sched.Scenario {
	return &sched.Scenario{Name: "empty messages in a new process", Make: func() []sched.Thread {
		var ts []sched.Thread
		for _, o := range []cop{a, b} {
			o := o
			s := c11Schema(o.kind)
			m := zt.New(s)
			bad := false
			ts = append(ts, sched.Thread{Name: o.name, Run: func() []ref.V {
				r := o.do(s, m)
				bad = failed(r)
				return r
			}, After: func() []ref.V {
				if bad {
					return nil
				}
				return all(s, m)
			}})
		}
		return ts
	}}
}

// goldFresh: the same with generated messages.
func goldFresh(a, b gtop) *sched.Scenario {
	return &sched.Scenario{Name: "generated messages in a new process", Make: func() []sched.Thread {
		var ts []sched.Thread
		for _, o := range []gtop{a, b} {
			o := o
			m := &testzeropb.TestMessage{}
			ts = append(ts, sched.Thread{Name: o.name, Run: func() []ref.V { return o.do(m) }, After: func() []ref.V { return []ref.V{{S: string(m.Encode())}} }})
		}
		return ts
	}}
}

// sharedBytes: messages decoded from one byte slice.
func sharedBytes(n int) *sched.Scenario {
	return &sched.Scenario{Name: "messages decoding the same bytes", Make: func() []sched.Thread {
		s := c11Schema(ref.Uint64)
		b := append([]byte(nil), c11Bytes(ref.Uint64, 3, false)...)
		var ts []sched.Thread
		for i := 0; i < n; i++ {
			m := zt.New(s)
			ts = append(ts, sched.Thread{Name: "decode and read", Run: func() []ref.V {
				return []ref.V{errV(m.Decode(s, b)), m.Get(s.Fields[0]), m.Get(s.Fields[1])}
			}, After: func() []ref.V { return all(s, m) }})
		}
		return ts
	}}
}

// Generated types.

type gtop struct {
	name string
	do   func(m *testzeropb.TestMessage) []ref.V
}

func goldReads() []gtop {
	nested := func(m *testzeropb.TestMessage) []ref.V {
		var sub, sub2 testzeropb.TestMessage
		ok, err := m.Message(&sub)
		r := []ref.V{errV(err), {U: b2u(ok), S: string(sub.Encode())}, {U: uint64(sub.Int32())}}
		ok, err = sub.Message(&sub2)
		return append(r, errV(err), ref.V{U: b2u(ok), S: string(sub2.Encode())})
	}
	edit := func(m *testzeropb.TestMessage) []ref.V {
		var sub testzeropb.TestMessage
		ok, err := m.Message(&sub)
		if ok {
			// A private copy of the nested message.
			var own testzeropb.TestMessage
			own.SetMessage(sub)
			own.SetInt32(5)
			return []ref.V{errV(err), {S: string(own.Encode())}}
		}
		return []ref.V{errV(err)}
	}
	iterate := func(m *testzeropb.TestMessage) (r []ref.V) {
		it := m.Messages()
		var sub testzeropb.TestMessage
		for k := 0; k < 10; k++ {
			ok, err := it.Next(&sub)
			if !ok {
				break
			}
			r = append(r, errV(err), ref.V{U: uint64(sub.Int32())})
		}
		return r
	}
	scalars := func(m *testzeropb.TestMessage) []ref.V {
		return []ref.V{{U: b2u(m.Bool())}, {U: uint64(m.Int32())}, {S: string([]byte(m.String()))}, {S: string(m.ByteArray())}, {U: uint64(m.Enum())}}
	}
	return []gtop{{"nested message into own struct", nested}, {"nested message copied into own message", edit}, {"iterate into own struct", iterate}, {"scalars", scalars},
		{"encode", func(m *testzeropb.TestMessage) []ref.V { return []ref.V{{S: string(m.Encode())}} }}}
}

func goldWrites() []gtop {
	return []gtop{
		{"set scalars", func(m *testzeropb.TestMessage) []ref.V { m.SetInt32(300); m.SetString("longer string"); return nil }},
		{"set nested", func(m *testzeropb.TestMessage) []ref.V {
			var sub testzeropb.TestMessage
			sub.SetInt32(1)
			m.SetMessage(sub)
			return nil
		}},
		{"append nested", func(m *testzeropb.TestMessage) []ref.V {
			var sub testzeropb.TestMessage
			sub.SetBool(true)
			m.AppendToMessages(sub)
			return nil
		}},
		{"reset", func(m *testzeropb.TestMessage) []ref.V { m.Reset(nil); m.SetEnum(3); return nil }},
		{"decode", func(m *testzeropb.TestMessage) []ref.V { return []ref.V{errV(m.Decode([]byte("\x10\x05\x72\x01x")))} }},
	}
}

func goldMsg(salt int32) *testzeropb.TestMessage {
	var in, mid testzeropb.TestMessage
	in.SetInt32(salt)
	mid.SetInt32(salt + 1)
	mid.SetMessage(in)
	m := &testzeropb.TestMessage{}
	m.SetString("s")
	m.SetMessage(mid)
	m.AppendToMessages(in)
	m.SetInt32(7)
	m.AppendToMessages(mid)
	return m
}

func goldScenario(a, b gtop, shared bool) *sched.Scenario {
	return &sched.Scenario{Name: fmt.Sprintf("testzeropb.TestMessage shared=%v", shared), Make: func() []sched.Thread {
		var ts []sched.Thread
		m := goldMsg(1)
		for i, o := range []gtop{a, b} {
			o, m := o, m
			if !shared {
				m = goldMsg(int32(i + 1))
			}
			ts = append(ts, sched.Thread{Name: o.name, Run: func() []ref.V { return o.do(m) }, After: func() []ref.V {
				var r []ref.V
				for _, g := range goldReads() {
					r = append(r, g.do(m)...)
				}
				return r
			}})
		}
		return ts
	}}
}

func raftScenario() *sched.Scenario {
	return &sched.Scenario{Name: "three readers of one raftzeropb.Message", Make: func() []sched.Thread {
		var e raftzeropb.Entry
		e.SetTerm(1)
		e.SetData([]byte("d"))
		var md raftzeropb.SnapshotMetadata
		md.SetIndex(300)
		var s raftzeropb.Snapshot
		s.SetMetadata(md)
		m := &raftzeropb.Message{}
		m.AppendToEntries(e)
		m.SetSnapshot(s)
		m.AppendToEntries(e)
		enc := func() []ref.V { return []ref.V{{S: string(m.Encode())}} }
		iter := sched.Thread{Name: "iterate Entries", Run: func() []ref.V {
			var r []ref.V
			var e raftzeropb.Entry
			it := m.Entries()
			for k := 0; k < 5; k++ {
				ok, err := it.Next(&e)
				if !ok {
					break
				}
				r = append(r, errV(err), ref.V{U: e.Term(), S: string(e.Data())})
			}
			return r
		}, After: enc}
		snap := sched.Thread{Name: "Snapshot().Metadata().Index()", Run: func() []ref.V {
			var s raftzeropb.Snapshot
			var md raftzeropb.SnapshotMetadata
			ok, err := m.Snapshot(&s)
			ok2, err2 := s.Metadata(&md)
			return []ref.V{{U: b2u(ok) + b2u(ok2)}, errV(err), errV(err2), {U: md.Index()}}
		}, After: enc}
		return []sched.Thread{iter, snap, iter}
	}}
}

func init() {
	register(&fw.Prop{ID: "C11", Level: "exploration", FreshProcess: true,
		Rule: "every schedule of two (some: three) threads at the library's statements with at most the stated number of preemptions; each schedule must leave every thread's results equal to running alone and produce no race-detector report; non-trivial: at least one preemption inside the library",
		Notes: []string{
			"scheduling points are the statement starts of zeropb, testzeropb and raftzeropb, inserted by a build overlay; code of dependencies runs atomically",
			"memory is sequentially consistent within a schedule; unsynchronised conflicting accesses are caught by the race detector, from which the scheduler's hand-overs are hidden",
		},
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			add := func(name string, l ...*sched.Scenario) {
				jobs = append(jobs, fw.Job{Name: name, Run: func(c *fw.Ctx) {
					for _, s := range l {
						n := c.Evaluations
						steps := sched.Explore(c, s, 1)
						if two := len(s.Make()) == 2; steps <= 150 && two || tier == "thorough" && (two || steps <= 300) {
							sched.Explore(c, s, 2)
							c.Count("scenarios_with_2_preemptions", 1)
							if tier == "thorough" && steps <= 90 && two {
								sched.Explore(c, s, 3)
								c.Count("scenarios_with_3_preemptions", 1)
							}
						}
						c.Count("scenarios", 1)
						c.SetMax("schedules_per_scenario", c.Evaluations-n)
						if c.Incomplete {
							return
						}
					}
					if c.WantSample() {
						c.Sample(fmt.Sprint(c.Cur()))
					}
				}})
			}
			ops := c11Ops()
			for i, a := range ops {
				var rs, ds, dl []*sched.Scenario
				for _, b := range ops[i:] {
					if a.reads && b.reads {
						rs = append(rs, sharedReaders(a, b, false))
						if a.kind == b.kind || b.key {
							rs = append(rs, sharedReaders(a, b, true))
						}
					}
					// Quick: equal kinds and key operations; thorough: all pairs.
					if a.kind == b.kind || a.key || b.key || tier == "thorough" {
						ds = append(ds, distinct(a, b, false))
					}
					if a.key && b.key {
						dl = append(dl, distinct(a, b, true))
					}
				}
				if len(rs) > 0 {
					add(fmt.Sprintf("readers-%d", i), rs...)
				}
				add(fmt.Sprintf("distinct-%d", i), ds...)
				if len(dl) > 0 {
					add(fmt.Sprintf("large-%d", i), dl...)
				}
			}
			read2 := cop{"read bytes", ref.Uint64, true, true, func(s *zt.Schema, m *zt.Msg) []ref.V { return []ref.V{m.Get(s.Fields[1])} }}
			shrink := cop{"set bytes = short", ref.Uint64, false, true, func(s *zt.Schema, m *zt.Msg) []ref.V {
				m.SetRaw(s.Fields[1], []byte("s"))
				return []ref.V{m.Get(s.Fields[1]), m.Get(s.Fields[0])}
			}}
			long := big(65540)
			grow := cop{"set bytes = long", ref.Uint64, false, true, func(s *zt.Schema, m *zt.Msg) []ref.V {
				m.SetRaw(s.Fields[1], []byte(long))
				return []ref.V{{U: uint64(len(m.GetRaw(s.Fields[1])))}, m.Get(s.Fields[0])}
			}}
			for p := range c11Preps {
				var own []cop
				for _, o := range append(append([]cop{}, ops...), read2, shrink, grow) {
					if o.key || o.name == "read uint64" {
						own = append(own, o)
					}
				}
				for i, a := range own {
					var rs, ds []*sched.Scenario
					for j, b := range own[i:] {
						if a.reads && b.reads {
							rs = append(rs, prepared(p, a, b, true))
						}
						// The schedules of distinct messages: a third of the pairs in quick.
						if a.kind == ref.Uint64 && b.kind == ref.Uint64 && (tier == "thorough" || (i+j+p)%4 == 0) {
							ds = append(ds, prepared(p, a, b, false))
						}
					}
					if len(rs) > 0 {
						add(fmt.Sprintf("prepared-readers-%d-%d", p, i), rs...)
					}
					if len(ds) > 0 {
						add(fmt.Sprintf("prepared-%d-%d", p, i), ds...)
					}
				}
			}
			add("shared-bytes", sharedBytes(2), sharedBytes(3))
			gr, gw := goldReads(), goldWrites()
			for i, a := range gr {
				for _, b := range gr[i:] {
					add("golden-readers-"+a.name+"-"+b.name, goldScenario(a, b, true))
				}
			}
			all := append(append([]gtop{}, gw...), gr...)
			for i, a := range all {
				for _, b := range all[i:] {
					add("golden-distinct-"+a.name+"-"+b.name, goldScenario(a, b, false))
				}
			}
			add("golden-raft", raftScenario())
			jobs = append(jobs, c11WideJobs(tier)...)
			// The first thing that a process does: the other thread comes in
			// before each of the statements.
			cold := func(name string, sc *sched.Scenario, points, step int) {
				for k := 0; k <= points; k++ {
					k := k * step
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("new-process-%s-%d", name, k), Run: func(c *fw.Ctx) {
						sched.Cold(c, sc, k)
						c.Count("schedules_that_begin_a_process", 1)
					}})
				}
			}
			fr := c11Fresh()
			for i, a := range fr {
				for j, b := range fr {
					points, step := 0, 1
					switch {
					case tier == "thorough" && (i == j || a.key && b.key):
						points = 300
					case tier == "thorough":
						points, step = 30, 9
					case i == j:
						points, step = 130, 1
					case a.key && b.key:
						points, step = 12, 11
					case a.kind != b.kind:
						continue
					}
					cold(fmt.Sprintf("%d-%d", i, j), fresh(a, b), points, step)
				}
			}
			for i, a := range all {
				for j, b := range all {
					points := 0
					if tier == "thorough" {
						points = 60
					}
					cold(fmt.Sprintf("golden-%d-%d", i, j), goldFresh(a, b), points, 5)
				}
			}
			return jobs
		}})
}
