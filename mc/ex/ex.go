// Package ex is the explicit-state explorer over message histories.
package ex

import (
	"fmt"
	"strings"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// Ref is the reference state of a message: what a user believes is in it.
type Ref struct {
	Val []ref.V
	Set []bool
	Rep [][]string
	// Appends and Aux bound or qualify the exploration (part of the state).
	Appends int
	Aux     int
	// Base is immutable data about the history (not part of the state).
	Base interface{}
}

// NewRef is the reference for an empty message.
func NewRef(s *zt.Schema) *Ref {
	n := len(s.Fields)
	return &Ref{Val: make([]ref.V, n), Set: make([]bool, n), Rep: make([][]string, n)}
}

// Clone copies.
func (r *Ref) Clone() *Ref {
	n := &Ref{Val: append([]ref.V(nil), r.Val...), Set: append([]bool(nil), r.Set...), Rep: make([][]string, len(r.Rep)), Appends: r.Appends, Aux: r.Aux, Base: r.Base}
	for i, l := range r.Rep {
		n.Rep[i] = l[:len(l):len(l)]
	}
	return n
}

// Op is one operation of the alphabet.
type Op struct {
	Name string
	// Do applies the operation to message and reference; it returns false if
	// the operation is not enabled in this state (and then changes nothing).
	Do func(c *fw.Ctx, m *zt.Msg, r *Ref) bool
}

// SetOp writes field i of the schema.
func SetOp(s *zt.Schema, i int, v ref.V) Op {
	f := s.Fields[i]
	if f.Kind == ref.Msg {
		v.Has = true
	}
	return Op{fmt.Sprintf("set field %d (%s) = %v", f.Num, f.Kind, v), func(c *fw.Ctx, m *zt.Msg, r *Ref) bool {
		m.Set(f, v)
		r.Val[i], r.Set[i] = v, true
		return true
	}}
}

// AppendOp appends to repeated field i.
func AppendOp(s *zt.Schema, i int, x string, max int) Op {
	f := s.Fields[i]
	return Op{fmt.Sprintf("append to field %d: %q", f.Num, clip(x)), func(c *fw.Ctx, m *zt.Msg, r *Ref) bool {
		if r.Appends >= max {
			return false
		}
		m.Append(f, []byte(x))
		r.Rep[i] = append(r.Rep[i], x)
		r.Appends++
		return true
	}}
}

func clip(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%s..(%d bytes)", s[:12], len(s))
	}
	return s
}

// Config is one state space.
type Config struct {
	Name   string
	Schema *zt.Schema
	Ops    []Op
	Depth  int // 0: until closure
	Slack  int
	Init   func() (*zt.Msg, *Ref)
	// InitTrace describes Init.
	InitTrace []string
	// Check is evaluated after every transition (and on the initial state).
	Check func(c *fw.Ctx, m *zt.Msg, r *Ref)
	// OnState is called once per distinct state with its history.
	OnState func(c *fw.Ctx, hist func() []int, m *zt.Msg, r *Ref)
	// Extra is appended to the state key.
	Extra     func(r *Ref) []byte
	MaxStates int
}

type node struct {
	m      *zt.Msg
	r      *Ref
	parent int32
	op     int16
	depth  int16
}

// Explore runs breadth-first search over the real implementation.
func Explore(c *fw.Ctx, cf *Config) {
	var nodes []node
	hist := func(i int) []int {
		var h []int
		for i > 0 {
			h = append(h, int(nodes[i].op))
			i = int(nodes[i].parent)
		}
		for a, b := 0, len(h)-1; a < b; a, b = a+1, b-1 {
			h[a], h[b] = h[b], h[a]
		}
		return h
	}
	cur, curOp := 0, -1
	var replay []int
	c.Cur = func() []string {
		var t []string
		t = append(t, "config "+cf.Name)
		t = append(t, cf.InitTrace...)
		if replay != nil {
			t = append(t, "(uninterrupted)")
			for _, o := range replay {
				t = append(t, cf.Ops[o].Name)
			}
			return t
		}
		if len(nodes) > 0 {
			for _, o := range hist(cur) {
				t = append(t, cf.Ops[o].Name)
			}
		}
		if curOp >= 0 {
			t = append(t, cf.Ops[curOp].Name)
		}
		return t
	}
	key := func(m *zt.Msg, r *Ref) zt.Key {
		var x []byte
		if cf.Extra != nil {
			x = cf.Extra(r)
		}
		x = append(x, byte(r.Appends), byte(r.Aux))
		return m.Key(x)
	}
	start := func() (*zt.Msg, *Ref) {
		if cf.Init != nil {
			return cf.Init()
		}
		return zt.New(cf.Schema), NewRef(cf.Schema)
	}
	m0, r0 := start()
	cf.Check(c, m0, r0)
	seen := map[zt.Key]struct{}{key(m0, r0): {}}
	nodes = append(nodes, node{m: m0, r: r0})
	c.States++
	if cf.OnState != nil {
		cf.OnState(c, func() []int { return nil }, m0, r0)
	}
	for i := 0; i < len(nodes); i++ {
		n := nodes[i]
		if cf.Depth > 0 && int(n.depth) >= cf.Depth {
			break
		}
		cur = i
		for o := range cf.Ops {
			curOp = o
			if !c.Step() {
				return
			}
			m, r := n.m.Clone(cf.Slack), n.r.Clone()
			if !cf.Ops[o].Do(c, m, r) {
				continue
			}
			c.Transitions++
			cf.Check(c, m, r)
			k := key(m, r)
			if _, ok := seen[k]; ok {
				continue
			}
			seen[k] = struct{}{}
			nn := node{parent: int32(i), op: int16(o), depth: n.depth + 1}
			if cf.Depth == 0 || int(nn.depth) < cf.Depth {
				nn.m, nn.r = m, r // to be expanded
			}
			nodes = append(nodes, nn)
			c.States++
			c.SetMax("depth", int64(n.depth+1))
			if cf.MaxStates > 0 && len(nodes) > cf.MaxStates {
				c.Count("state_caps_hit", 1)
				c.Incomplete = true
				return
			}
			id := len(nodes) - 1
			// Validate the state graph: the same history on one message, run
			// without the copying that the search does.
			replay = hist(id)
			m2, r2 := start()
			for _, h := range replay {
				cf.Ops[h].Do(c, m2, r2)
			}
			cf.Check(c, m2, r2)
			replay = nil
			c.Replayed++
			if cf.OnState != nil {
				cf.OnState(c, func() []int { return hist(id) }, m, r)
			}
		}
		curOp = -1
		nodes[i].m, nodes[i].r = nil, nil // expanded
	}
	if len(nodes) > 3 && c.WantSample() {
		cur = len(nodes) - 1
		curOp = -1
		c.Sample(strings.Join(c.Cur(), "; "))
	}
}

// CheckRead compares every accessor with the reference.
func CheckRead(c *fw.Ctx, s *zt.Schema, m *zt.Msg, r *Ref) {
	for i, f := range s.Fields {
		if f.Kind == ref.RepMsg {
			l, err := m.List(f)
			if err != nil {
				c.Fail("field %d: %v", f.Num, err)
			}
			if !same(l, r.Rep[i]) {
				c.Fail("repeated field %d iterates as %q, expected %q (encoded %x)", f.Num, clipList(l), clipList(r.Rep[i]), clipBytes(m.Buf))
			}
			continue
		}
		if got := m.Get(f); got != r.Val[i] {
			c.Fail("field %d (%s) reads %v, expected %v (encoded %x)", f.Num, f.Kind, got, r.Val[i], clipBytes(m.Buf))
		}
	}
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clipList(l []string) []string {
	var o []string
	for _, s := range l {
		o = append(o, clip(s))
	}
	return o
}

func clipBytes(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// CheckWire: the encoded bytes, parsed independently, say what the reference
// says; and a fresh decode agrees.
func CheckWire(c *fw.Ctx, s *zt.Schema, m *zt.Msg, r *Ref, scratch *[]ref.Occ) {
	occs, ok := ref.Parse(m.Buf, (*scratch)[:0])
	*scratch = occs
	if !ok {
		c.Fail("encoded bytes are not a well-formed message: %x", clipBytes(m.Buf))
	}
	for i, f := range s.Fields {
		last := -1
		var list []string
		for j := range occs {
			if int(occs[j].Num) == f.Num {
				if occs[j].WT != f.Kind.WireType() {
					c.Fail("field %d (%s) encoded with wire type %d", f.Num, f.Kind, occs[j].WT)
				}
				last = j
				if f.Kind == ref.RepMsg {
					list = append(list, string(occs[j].B))
				}
			}
		}
		if f.Kind == ref.RepMsg {
			if !same(list, r.Rep[i]) {
				c.Fail("repeated field %d encodes %q, expected %q", f.Num, clipList(list), clipList(r.Rep[i]))
			}
			continue
		}
		if last < 0 {
			if r.Set[i] {
				c.Fail("field %d (%s) was set to %v but is absent from the encoded bytes %x", f.Num, f.Kind, r.Val[i], clipBytes(m.Buf))
			}
			continue
		}
		if !r.Set[i] {
			c.Fail("field %d (%s) was never set but is encoded: %x", f.Num, f.Kind, clipBytes(m.Buf))
		}
		v, definite := ref.Read(f.Kind, &occs[last])
		if !definite || v != r.Val[i] {
			c.Fail("field %d (%s) encodes %v, expected %v (encoded %x)", f.Num, f.Kind, v, r.Val[i], clipBytes(m.Buf))
		}
	}
	for j := range occs {
		if _, ok := s.ByNum(int(occs[j].Num)); !ok {
			c.Fail("encoded bytes contain undeclared field %d: %x", occs[j].Num, clipBytes(m.Buf))
		}
	}
	fresh := zt.New(s)
	if err := fresh.Decode(s, append([]byte(nil), m.Buf...)); err != nil {
		c.Fail("decoding the encoded bytes fails: %v (%x)", err, clipBytes(m.Buf))
	}
	CheckRead(c, s, fresh, r)
	if string(fresh.Buf) != string(m.Buf) {
		c.Fail("re-encoding after decode differs")
	}
}

// CheckMinimal: exactly one minimal occurrence per set singular field, one per
// appended element, nothing else.
func CheckMinimal(c *fw.Ctx, s *zt.Schema, m *zt.Msg, r *Ref) {
	want := 0
	var scratch [48]byte
	pos := make([]int, len(s.Fields)) // next expected element of repeated fields
	seen := make([]bool, len(s.Fields))
	for i, f := range s.Fields {
		if f.Kind == ref.RepMsg {
			want += len(r.Rep[i])
		} else if r.Set[i] {
			want++
		}
	}
	n := 0
	for off := 0; off < len(m.Buf); {
		n++
		matched := false
		for i, f := range s.Fields {
			var v ref.V
			if f.Kind == ref.RepMsg {
				if pos[i] >= len(r.Rep[i]) {
					continue
				}
				v = ref.V{S: r.Rep[i][pos[i]]}
			} else {
				if !r.Set[i] || seen[i] {
					continue
				}
				v = r.Val[i]
			}
			enc := ref.AppendTag(scratch[:0], uint64(f.Num), f.Kind.WireType())
			if len(m.Buf)-off < len(enc) || string(m.Buf[off:off+len(enc)]) != string(enc) {
				continue
			}
			enc = ref.AppendValue(enc, f.Kind, v)
			if len(m.Buf)-off >= len(enc) && string(m.Buf[off:off+len(enc)]) == string(enc) {
				// Distinct field numbers: at most one field can match.
				off += len(enc)
				matched, seen[i] = true, true
				pos[i]++
				break
			}
		}
		if !matched {
			c.Fail("encoded bytes at %d are not the single minimal encoding of any current field: %x (whole %x)", off, clipBytes(m.Buf[off:]), clipBytes(m.Buf))
		}
	}
	if n != want {
		c.Fail("encoded bytes hold %d field occurrences, expected %d: %x", n, want, clipBytes(m.Buf))
	}
}
