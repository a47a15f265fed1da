package props

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// Sinks keep results alive without allocating.
var (
	sinkU   uint64
	sinkS   string
	sinkB   []byte
	sinkErr error
)

// aop is an operation that is expected not to allocate. write says whether it
// may grow the message.
type aop struct {
	name string
	do   func()
}

// aspace is a set of operation sequences on one message.
type aspace struct {
	name  string
	reset func(n int) // empty message on a buffer of capacity n
	size  func() int  // of the message
	ops   []aop
	depth int
}

const acap = 1 << 17

func mallocs() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.Mallocs
}

// arun runs all sequences starting with prefix (indices) and returns how many.
func (a *aspace) arun(prefix []int, idx []int, depth int) int64 {
	n := int64(0)
	copy(idx, prefix)
	// Iterative odometer over the suffix: no closures, no allocation.
	k := depth - len(prefix)
	for i := len(prefix); i < depth; i++ {
		idx[i] = 0
	}
	for {
		a.exec(idx[:depth], acap)
		n++
		i := depth - 1
		for ; i >= depth-k; i-- {
			idx[i]++
			if idx[i] < len(a.ops) {
				break
			}
			idx[i] = 0
		}
		if i < depth-k {
			return n
		}
	}
}

// exec runs one sequence twice: with ample capacity, and with exactly the
// capacity that the largest intermediate result needs.
func (a *aspace) exec(idx []int, capacity int) {
	a.reset(capacity)
	max := a.size()
	for _, i := range idx {
		a.ops[i].do()
		if n := a.size(); n > max {
			max = n
		}
	}
	if max > 65534 {
		return
	}
	a.reset(max)
	for _, i := range idx {
		a.ops[i].do()
	}
}

func (a *aspace) names(idx []int) []string {
	t := []string{a.name, "reset onto a buffer with capacity for every result"}
	for _, i := range idx {
		t = append(t, a.ops[i].name)
	}
	return t
}

// measure returns the allocations of f.
func measure(f func()) uint64 {
	b := mallocs()
	f()
	return mallocs() - b
}

func (a *aspace) run(c *fw.Ctx) {
	idx := make([]int, a.depth)
	var prefix [8]int
	var n int64
	for first := range a.ops {
		if !c.Step() {
			return
		}
		prefix[0] = first
		d := measure(func() { n = a.arun(prefix[:1], idx, a.depth) })
		c.Evaluations += n
		c.Nontrivial += n
		c.Count("allocations", int64(d))
		if d == 0 {
			continue
		}
		a.find(c, prefix[:1], idx)
	}
	if c.WantSample() {
		for i := range idx {
			idx[i] = (i*5 + 3) % len(a.ops)
		}
		c.Sample(strings.Join(a.names(idx), "; "))
	}
}

// find narrows allocations in a subtree down to one sequence that allocates
// every time it runs; anything else is the runtime's own noise.
func (a *aspace) find(c *fw.Ctx, prefix []int, idx []int) {
	if measure(func() { a.arun(prefix, idx, a.depth) }) == 0 {
		c.Count("noise", 1)
		return
	}
	if len(prefix) == a.depth {
		seq := append([]int(nil), prefix...)
		const reps = 50
		n := measure(func() {
			for i := 0; i < reps; i++ {
				a.exec(seq, acap)
			}
		})
		if n >= reps {
			c.Cur = func() []string { return a.names(seq) }
			// Which operation?
			a.reset(acap)
			for _, i := range seq[:len(seq)-1] {
				a.ops[i].do()
			}
			last := measure(a.ops[seq[len(seq)-1]].do)
			c.Fail("%d heap allocations in %d runs of the sequence (%d in its last operation)", n, reps, last)
		}
		c.Count("noise", 1)
		return
	}
	// Shorter sequences first.
	for d := len(prefix); d < a.depth; d++ {
		b := *a
		b.depth = d
		if d == len(prefix) && measure(func() { b.arun(prefix, idx, d) }) > 0 {
			b.find(c, prefix, idx)
		}
	}
	next := append(append([]int(nil), prefix...), 0)
	for i := range a.ops {
		next[len(next)-1] = i
		if measure(func() { a.arun(next, idx, a.depth) }) > 0 {
			a.find(c, next, idx)
		}
	}
}

// amsg is a message driven directly through the runtime API.
type amsg struct {
	mem []byte
	m   zt.Msg
}

func (a *amsg) off() zeropb.Offsets { return zeropb.WrapOffsets(a.m.A, &a.m.M) }

func (a *amsg) set(f zt.Field, v ref.V) aop {
	n := f.Num
	raw := []byte(v.S)
	var do func()
	b := &a.m.Buf
	switch f.Kind {
	case ref.Bool:
		do = func() { zeropb.SetBool(b, a.off(), n, v.U != 0) }
	case ref.Int32:
		do = func() { zeropb.SetInt32(b, a.off(), n, int32(v.U)) }
	case ref.Int64:
		do = func() { zeropb.SetInt64(b, a.off(), n, int64(v.U)) }
	case ref.Uint32, ref.Enum:
		do = func() { zeropb.SetUint32(b, a.off(), n, uint32(v.U)) }
	case ref.Uint64:
		do = func() { zeropb.SetUint64(b, a.off(), n, v.U) }
	case ref.Sint32:
		do = func() { zeropb.SetZigZagInt32(b, a.off(), n, int32(v.U)) }
	case ref.Sint64:
		do = func() { zeropb.SetZigZagInt64(b, a.off(), n, int64(v.U)) }
	case ref.Fixed32:
		do = func() { zeropb.SetFixedUint32(b, a.off(), n, uint32(v.U)) }
	case ref.Fixed64:
		do = func() { zeropb.SetFixedUint64(b, a.off(), n, v.U) }
	case ref.Sfixed32:
		do = func() { zeropb.SetFixedInt32(b, a.off(), n, int32(v.U)) }
	case ref.Sfixed64:
		do = func() { zeropb.SetFixedInt64(b, a.off(), n, int64(v.U)) }
	case ref.Double:
		do = func() { zeropb.SetFloat64(b, a.off(), n, math.Float64frombits(v.U)) }
	case ref.Float:
		do = func() { zeropb.SetFloat32(b, a.off(), n, math.Float32frombits(uint32(v.U))) }
	case ref.String:
		do = func() { zeropb.SetString(b, a.off(), n, v.S) }
	case ref.Bytes, ref.Msg:
		do = func() { zeropb.SetBytes(b, a.off(), n, raw) }
	case ref.RepMsg:
		do = func() { zeropb.AppendBytes(b, a.off(), n, raw) }
	}
	verb := "set"
	if f.Kind == ref.RepMsg {
		verb = "append"
	}
	return aop{fmt.Sprintf("%s field %d (%s) = %s", verb, n, f.Kind, short(v)), do}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (a *amsg) get(f zt.Field) aop {
	n := f.Num
	m := &a.m
	var do func()
	switch f.Kind {
	case ref.Bool:
		do = func() { sinkU += b2u(zeropb.GetBool(m.Buf, a.off(), n)) }
	case ref.Int32:
		do = func() { sinkU += uint64(zeropb.GetInt32(m.Buf, a.off(), n)) }
	case ref.Int64:
		do = func() { sinkU += uint64(zeropb.GetInt64(m.Buf, a.off(), n)) }
	case ref.Uint32, ref.Enum:
		do = func() { sinkU += uint64(zeropb.GetUint32(m.Buf, a.off(), n)) }
	case ref.Uint64:
		do = func() { sinkU += zeropb.GetUint64(m.Buf, a.off(), n) }
	case ref.Sint32:
		do = func() { sinkU += uint64(zeropb.GetZigZagInt32(m.Buf, a.off(), n)) }
	case ref.Sint64:
		do = func() { sinkU += uint64(zeropb.GetZigZagInt64(m.Buf, a.off(), n)) }
	case ref.Fixed32:
		do = func() { sinkU += uint64(zeropb.GetFixedUint32(m.Buf, a.off(), n)) }
	case ref.Fixed64:
		do = func() { sinkU += zeropb.GetFixedUint64(m.Buf, a.off(), n) }
	case ref.Sfixed32:
		do = func() { sinkU += uint64(zeropb.GetFixedInt32(m.Buf, a.off(), n)) }
	case ref.Sfixed64:
		do = func() { sinkU += uint64(zeropb.GetFixedInt64(m.Buf, a.off(), n)) }
	case ref.Double:
		do = func() { sinkU += math.Float64bits(zeropb.GetFloat64(m.Buf, a.off(), n)) }
	case ref.Float:
		do = func() { sinkU += uint64(math.Float32bits(zeropb.GetFloat32(m.Buf, a.off(), n))) }
	case ref.String:
		do = func() { sinkS = zeropb.GetString(m.Buf, a.off(), n) }
	case ref.Bytes, ref.Msg:
		do = func() { sinkB = zeropb.GetBytes(m.Buf, a.off(), n) }
	case ref.RepMsg:
		do = func() {
			it := zeropb.GetRepeatedNonPacked(m.Buf, a.off(), n)
			for k := 0; it != nil && k < 100; k++ {
				it, sinkB = zeropb.FindNextField(it, n)
			}
		}
		return aop{fmt.Sprintf("iterate field %d", n), do}
	}
	return aop{fmt.Sprintf("read field %d (%s)", n, f.Kind), do}
}

func (a *amsg) decodeOwn(s *zt.Schema) aop {
	return aop{"decode own encoding", func() {
		if err := zeropb.Decode(a.m.Buf, a.off(), s.Rep); err != nil {
			sinkErr = err
		}
	}}
}

func (a *amsg) decode(s *zt.Schema, t Token) aop {
	return aop{"decode " + t.Name, func() {
		a.m.Buf = append(a.m.Buf[:0], t.B...) // into the buffer's capacity
		if err := zeropb.Decode(a.m.Buf, a.off(), s.Rep); err != nil {
			sinkErr = err
		}
	}}
}

func newAmsg(s *zt.Schema) *amsg {
	return &amsg{mem: make([]byte, acap), m: zt.Msg{A: make([]uint16, s.Max+1)}}
}

func (a *amsg) reset(n int) {
	a.m.Buf = a.mem[:0:n]
	a.m.M = nil
	a.off().Clear()
}

func aspaceOf(s *zt.Schema, name string, nv []int, depth int) *aspace {
	a := newAmsg(s)
	sp := &aspace{name: name, reset: a.reset, size: func() int { return len(a.m.Buf) }, depth: depth}
	for i, f := range s.Fields {
		if f.Kind == ref.RepMsg {
			sp.ops = append(sp.ops, a.set(f, sv("\x08\x01")), a.get(f))
			continue
		}
		for _, v := range vals(f.Kind, nv[i]) {
			sp.ops = append(sp.ops, a.set(f, v))
		}
		sp.ops = append(sp.ops, a.get(f))
	}
	sp.ops = append(sp.ops, a.decodeOwn(s))
	return sp
}

func init() {
	register(&fw.Prop{ID: "C10", Level: "exploration",
		Rule: "every operation sequence of the stated depth from an empty message, run with ample and with exactly sufficient buffer capacity; the heap allocation counter must not move; all sequences count as non-trivial because every one performs decode, read, iterate or write operations",
		Notes: []string{
			"allocations are counted for the compiler installed here, with default optimisations; errors returned for malformed input and values that alias the message being written are outside the property",
			"runtime background allocations are told apart by narrowing every non-zero count down to a sequence that allocates on each of 50 re-runs"},
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			depth := 5
			if tier == "thorough" {
				depth = 6
			}
			add := func(name string, mk func() []*aspace) {
				jobs = append(jobs, fw.Job{Name: name, Run: func(c *fw.Ctx) {
					debug.SetGCPercent(-1)
					runtime.GOMAXPROCS(1)
					for _, sp := range mk() {
						sp.run(c)
						c.Count("spaces", 1)
						runtime.GC()
					}
				}})
			}
			for _, k := range singular {
				k := k
				add("runtime-"+k.String(), func() []*aspace {
					var l []*aspace
					for _, k2 := range []ref.Kind{ref.Uint64, ref.Bytes, nextKind(k)} {
						for _, num := range numberings[:2] {
							s := zt.NewSchema(zt.Field{Num: num[0], Kind: k}, zt.Field{Num: num[1], Kind: k2}, zt.Field{Num: num[2], Kind: ref.RepMsg})
							l = append(l, aspaceOf(s, fmt.Sprintf("{%d:%s, %d:%s, %d:repeated message}", num[0], k, num[1], k2, num[2]), []int{3, 2, 1}, depth))
						}
					}
					// Decode every token of the decoder's alphabet, then read and edit.
					s, toks := decodeSchema(k)
					toks = append(toks, mismatches(2, k.WireType())...)
					for i := range toks {
						for j := range toks {
							t := tok(toks[i].Name+" | "+toks[j].Name, append(append([]byte(nil), toks[i].B...), toks[j].B...))
							a := newAmsg(s)
							d := a.decode(s, t)
							sp := &aspace{name: "decode " + t.Name, size: func() int { return len(a.m.Buf) }, depth: 2}
							sp.reset = func(n int) { a.reset(n); d.do() }
							for _, f := range s.Fields {
								v := vals(f.Kind, 2)
								if f.Kind == ref.RepMsg {
									v = []ref.V{sv("ab")}
								}
								for _, v := range v {
									sp.ops = append(sp.ops, a.set(f, v))
								}
								sp.ops = append(sp.ops, a.get(f))
							}
							sp.ops = append(sp.ops, d)
							l = append(l, sp)
						}
					}
					return l
				})
			}
			add("large", func() []*aspace {
				var l []*aspace
				for _, n := range []int{127, 128, 16383, 16384, 32767, 32768, 65000} {
					s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Bytes}, zt.Field{Num: 2, Kind: ref.Uint64}, zt.Field{Num: 17, Kind: ref.String}, zt.Field{Num: 4, Kind: ref.RepMsg})
					a := newAmsg(s)
					sp := &aspace{name: fmt.Sprintf("values of %d bytes", n), reset: a.reset, size: func() int { return len(a.m.Buf) }, depth: 3}
					sp.ops = append(sp.ops, a.set(s.Fields[0], sv(big(n))), a.set(s.Fields[0], sv("x")), a.get(s.Fields[0]), a.set(s.Fields[1], u(1)), a.set(s.Fields[1], u(300)), a.get(s.Fields[1]),
						a.set(s.Fields[2], sv("abc")), a.get(s.Fields[2]), a.set(s.Fields[3], sv("\x08\x01")), a.get(s.Fields[3]), a.decodeOwn(s))
					l = append(l, sp)
					// The same on a struct that held a message beyond 64 KiB before.
					before := map[int]uint64{2: 70000, 17: 70010}
					used := *sp
					used.name += ", after holding a large message"
					used.reset = func(n int) {
						a.m.Buf = a.mem[:0:n]
						a.m.M = before
						a.off().Clear()
					}
					l = append(l, &used)
				}
				return l
			})
			// Values of every size, set, rewritten and appended.
			const sizeParts = 8
			for part := 0; part < sizeParts; part++ {
				part := part
				add(fmt.Sprintf("sizes-%d", part), func() []*aspace {
					var sizes []int
					for n := 0; n <= 140; n++ {
						sizes = append(sizes, n)
					}
					for _, n := range sizeLadder(20000) {
						if n > 140 {
							sizes = append(sizes, n)
						}
					}
					var l []*aspace
					for i, n := range sizes {
						if i%sizeParts != part {
							continue
						}
						s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Bytes}, zt.Field{Num: 17, Kind: ref.String}, zt.Field{Num: 2048, Kind: ref.Msg}, zt.Field{Num: 4, Kind: ref.RepMsg}, zt.Field{Num: 33, Kind: ref.Uint64})
						a := newAmsg(s)
						sp := &aspace{name: fmt.Sprintf("values of %d bytes", n), reset: a.reset, size: func() int { return len(a.m.Buf) }, depth: 3}
						for _, f := range s.Fields[:4] {
							sp.ops = append(sp.ops, a.set(f, sv(big(n))), a.get(f))
						}
						sp.ops = append(sp.ops, a.set(s.Fields[0], sv("x")), a.set(s.Fields[4], u(1)), a.set(s.Fields[4], u(1<<63)), a.decodeOwn(s))
						l = append(l, sp)
					}
					return l
				})
			}
			gd := 4
			add("golden-test", func() []*aspace { return []*aspace{allocTest(gd)} })
			add("golden-raft", func() []*aspace { return allocRaft(gd) })
			jobs = append(jobs, shiftedJobs(tier, wideAllocs)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c10"), anyField(wideAllocs))...)
			return append(jobs, wideJobs(wideFamilies(wideOpt{65000, 1100, 40000}), bothSchemas, wideAllocs)...)
		}})
}

// The operations below use the generated types the way callers do: with
// nested messages and iterators in local variables.

type testHolder struct {
	mem []byte
	m   testzeropb.TestMessage
	src testzeropb.TestMessage
}

func (h *testHolder) nested() {
	var sub testzeropb.TestMessage
	found, err := h.m.Message(&sub)
	sinkU += b2u(found) + b2u(err != nil)
	var sub2 testzeropb.TestMessage
	found, err = sub.Message(&sub2)
	sinkU += b2u(found) + b2u(err != nil) + uint64(sub2.Int32()) + uint64(sub.Int32())
}

func (h *testHolder) iterate() {
	it := h.m.Messages()
	var sub testzeropb.TestMessage
	for k := 0; k < 100; k++ {
		ok, err := it.Next(&sub)
		if !ok {
			return
		}
		sinkU += b2u(err != nil) + uint64(sub.Int32())
	}
}

func allocTest(depth int) *aspace {
	h := &testHolder{mem: make([]byte, acap)}
	h.src.SetInt32(77)
	bs := []byte("bytes")
	sp := &aspace{name: "testzeropb.TestMessage", depth: depth, size: func() int { return len(h.m.Encode()) }, reset: func(n int) { h.m.Reset(h.mem[:0:n]) }}
	add := func(name string, f func()) { sp.ops = append(sp.ops, aop{name, f}) }
	m := &h.m
	add("SetBool", func() { m.SetBool(true) })
	add("SetInt32(-1)", func() { m.SetInt32(-1) })
	add("SetInt32(1)", func() { m.SetInt32(1) })
	add("SetInt64", func() { m.SetInt64(1 << 40) })
	add("SetUint32", func() { m.SetUint32(300) })
	add("SetUint64", func() { m.SetUint64(1 << 63) })
	add("SetSint32", func() { m.SetSint32(-5) })
	add("SetSint64", func() { m.SetSint64(-1 << 60) })
	add("SetFixed32", func() { m.SetFixed32(1) })
	add("SetFixed64", func() { m.SetFixed64(1) })
	add("SetSfixed32", func() { m.SetSfixed32(-1) })
	add("SetSfixed64", func() { m.SetSfixed64(-1) })
	add("SetDouble", func() { m.SetDouble(1.5) })
	add("SetFloat", func() { m.SetFloat(1.5) })
	add("SetString(hello)", func() { m.SetString("hello") })
	add("SetString()", func() { m.SetString("") })
	add("SetByteArray", func() { m.SetByteArray(bs) })
	add("SetEnum", func() { m.SetEnum(2) })
	add("SetMessage", func() { m.SetMessage(h.src) })
	add("AppendToMessages", func() { m.AppendToMessages(h.src) })
	add("read all scalars", func() {
		sinkU += b2u(m.Bool()) + uint64(m.Int32()) + uint64(m.Int64()) + uint64(m.Uint32()) + m.Uint64() + uint64(m.Sint32()) + uint64(m.Sint64()) +
			uint64(m.Fixed32()) + m.Fixed64() + uint64(m.Sfixed32()) + uint64(m.Sfixed64()) + uint64(m.Double()) + uint64(m.Float()) + uint64(m.Enum())
		sinkS, sinkB = m.String(), m.ByteArray()
	})
	add("descend into Message with local structs", h.nested)
	add("iterate Messages with local structs", h.iterate)
	add("decode own encoding", func() { sinkErr = m.Decode(m.Encode()) })
	add("encode", func() { sinkB = m.Encode() })
	return sp
}

type raftHolder struct {
	mem   []byte
	m     raftzeropb.Message
	entry raftzeropb.Entry
	snap  raftzeropb.Snapshot
	meta  raftzeropb.SnapshotMetadata
	conf  raftzeropb.ConfState
}

func (h *raftHolder) nested() {
	var s raftzeropb.Snapshot
	found, err := h.m.Snapshot(&s)
	sinkU += b2u(found) + b2u(err != nil)
	sinkB = s.Data()
	var md raftzeropb.SnapshotMetadata
	found, err = s.Metadata(&md)
	sinkU += b2u(found) + b2u(err != nil) + md.Index() + md.Term()
	var cs raftzeropb.ConfState
	found, err = md.ConfState(&cs)
	sinkU += b2u(found) + b2u(err != nil)
	sinkB = cs.Encode()
}

func (h *raftHolder) iterate() {
	var e raftzeropb.Entry
	for it, k := h.m.Entries(), 0; k < 100; k++ {
		ok, err := it.Next(&e)
		if !ok {
			return
		}
		sinkU += b2u(err != nil) + e.Term() + e.Index() + uint64(e.Type())
		sinkB = e.Data()
	}
}

func allocRaft(depth int) []*aspace {
	h := &raftHolder{mem: make([]byte, acap)}
	h.entry.SetTerm(1)
	h.entry.SetData([]byte("data"))
	h.conf.Reset(nil)
	h.meta.SetConfState(h.conf)
	h.meta.SetIndex(300)
	h.snap.SetData([]byte("snapshot"))
	h.snap.SetMetadata(h.meta)
	ctx := []byte("ctx")
	m := &h.m
	sp := &aspace{name: "raftzeropb.Message", depth: depth, size: func() int { return len(h.m.Encode()) }, reset: func(n int) { h.m.Reset(h.mem[:0:n]) }}
	add := func(name string, f func()) { sp.ops = append(sp.ops, aop{name, f}) }
	add("SetType", func() { m.SetType(3) })
	add("SetTo", func() { m.SetTo(1) })
	add("SetTo(300)", func() { m.SetTo(300) })
	add("SetFrom", func() { m.SetFrom(2) })
	add("SetTerm", func() { m.SetTerm(3) })
	add("SetLogTerm", func() { m.SetLogTerm(4) })
	add("SetIndex", func() { m.SetIndex(5) })
	add("AppendToEntries", func() { m.AppendToEntries(h.entry) })
	add("SetCommit", func() { m.SetCommit(1 << 40) })
	add("SetSnapshot", func() { m.SetSnapshot(h.snap) })
	add("SetReject", func() { m.SetReject(true) })
	add("SetRejectHint", func() { m.SetRejectHint(9) })
	add("SetContext", func() { m.SetContext(ctx) })
	add("read all", func() {
		sinkU += uint64(m.Type()) + m.To() + m.From() + m.Term() + m.LogTerm() + m.Index() + m.Commit() + b2u(m.Reject()) + m.RejectHint()
		sinkB = m.Context()
	})
	add("descend into Snapshot, Metadata, ConfState with local structs", h.nested)
	add("iterate Entries with a local struct", h.iterate)
	add("decode own encoding", func() { sinkErr = m.Decode(m.Encode()) })
	// A nested message edited in place of its own capacity and written back.
	tmp := make([]byte, 64)
	add("build Entry in a local struct and append it", func() {
		var e raftzeropb.Entry
		e.Reset(tmp[:0])
		e.SetTerm(7)
		e.SetIndex(8)
		m.AppendToEntries(e)
	})
	return []*aspace{sp}
}
