package props

import (
	"fmt"
	"strings"

	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/fuel"
	"verifmc/fw"
	"verifmc/ref"
)

// mval is the value of one message.
type mval struct {
	u    uint64
	b, s string
	n    string // the nested message, encoded
	hasN bool
	e    []string
}

// world is three messages and the caller's memory, with the values they must
// have. It is never cloned: a history is always run from the start, so that
// memory shared between messages stays shared.
type world struct {
	m [3]testzeropb.TestMessage
	v [3]mval
	x []byte // a slice of the caller's, with spare capacity
	y []byte // a message the caller decoded and keeps
}

type worldOp struct {
	name string
	used int // bit set of the messages named
	do   func(c *fw.Ctx, w *world)
}

const c23Spare = "\xa5\x5a\xa5\x5a\xa5\x5a\xa5\x5a"

func newWorld() *world {
	w := &world{x: make([]byte, 5, 64), y: nil}
	copy(w.x, "\x7a\x01xyz")
	copy(w.x[5:13], c23Spare)
	return w
}

func (v *mval) decode(c *fw.Ctx, enc string) {
	*v = mval{}
	occs, ok := ref.Parse([]byte(enc), nil)
	if !ok {
		c.Fail("Encode gives bytes that are not a message: %x", enc)
	}
	for _, o := range occs {
		switch o.Num {
		case 5:
			v.u = o.U
		case 14:
			v.s = string(o.B)
		case 15:
			v.b = string(o.B)
		case 17:
			v.n, v.hasN = string(o.B), true
		case 34:
			v.e = append(v.e, string(o.B))
		}
	}
}

func c23Ops(large bool) []worldOp {
	var ops []worldOp
	add := func(used int, do func(c *fw.Ctx, w *world), f string, a ...interface{}) {
		ops = append(ops, worldOp{fmt.Sprintf(f, a...), used, do})
	}
	long := strings.Repeat("\x72\x01q", 30)
	if large { // offsets move to the map
		long = strings.Repeat("\x72\x01q", 22000)
	}
	for i := 0; i < 3; i++ {
		i := i
		one := 1 << i
		add(one, func(c *fw.Ctx, w *world) { w.m[i].SetUint64(1); w.v[i].u = 1 }, "M%d.SetUint64(1)", i)
		add(one, func(c *fw.Ctx, w *world) { w.m[i].SetUint64(1 << 40); w.v[i].u = 1 << 40 }, "M%d.SetUint64(1<<40)", i)
		add(one, func(c *fw.Ctx, w *world) { w.m[i].SetByteArray(w.x); w.v[i].b = string(w.x) }, "M%d.SetByteArray(x)", i)
		add(one, func(c *fw.Ctx, w *world) { w.m[i].SetString(long); w.v[i].s = long }, "M%d.SetString(long)", i)
		add(one, func(c *fw.Ctx, w *world) { w.m[i].Reset(nil); w.v[i] = mval{} }, "M%d.Reset(nil)", i)
		add(one, func(c *fw.Ctx, w *world) { w.m[i].Reset(make([]byte, 0, 256)); w.v[i] = mval{} }, "M%d.Reset(make(0,256))", i)
		for j := 0; j < 3; j++ {
			if i == j {
				continue
			}
			j := j
			two := one | 1<<j
			add(two, func(c *fw.Ctx, w *world) {
				w.v[i].n, w.v[i].hasN = string(w.m[j].Encode()), true
				w.m[i].SetMessage(w.m[j])
			}, "M%d.SetMessage(M%d)", i, j)
			add(two, func(c *fw.Ctx, w *world) {
				w.v[i].e = append(w.v[i].e[:len(w.v[i].e):len(w.v[i].e)], string(w.m[j].Encode()))
				w.m[i].AppendToMessages(w.m[j])
			}, "M%d.AppendToMessages(M%d)", i, j)
			add(two, func(c *fw.Ctx, w *world) { w.m[i].SetByteArray(w.m[j].ByteArray()); w.v[i].b = w.v[j].b }, "M%d.SetByteArray(M%d.ByteArray())", i, j)
			add(two, func(c *fw.Ctx, w *world) { w.m[i].SetString(w.m[j].String()); w.v[i].s = w.v[j].s }, "M%d.SetString(M%d.String())", i, j)
			add(two, func(c *fw.Ctx, w *world) { w.m[i].SetByteArray(w.m[j].Encode()); w.v[i].b = string(w.m[j].Encode()) }, "M%d.SetByteArray(M%d.Encode())", i, j)
			add(two, func(c *fw.Ctx, w *world) {
				enc := append([]byte(nil), w.m[j].Encode()...)
				if err := w.m[i].Decode(enc); err != nil {
					c.Fail("decode of a copy of M%d fails: %v", j, err)
				}
				w.v[i].decode(c, string(enc))
			}, "M%d.Decode(copy of M%d)", i, j)
			add(two, func(c *fw.Ctx, w *world) {
				// One element handed from message to message.
				var in testzeropb.TestMessage
				ok, err := w.m[j].Message(&in)
				if ok != w.v[j].hasN || err != nil && ok && c23WellFormed(w.v[j].n) {
					c.Fail("M%d.Message gives %v, %v", j, ok, err)
				}
				if !ok || err != nil {
					return
				}
				w.m[i].AppendToMessages(in)
				w.v[i].e = append(w.v[i].e[:len(w.v[i].e):len(w.v[i].e)], w.v[j].n)
			}, "M%d.AppendToMessages(M%d.Message)", i, j)
		}
	}
	add(0, func(c *fw.Ctx, w *world) {
		for k := range w.x {
			w.x[k] ^= 0x15
		}
	}, "change x")
	return ops
}

func c23WellFormed(s string) bool {
	_, ok := ref.Parse([]byte(s), nil)
	return ok
}

// check compares everything with its value.
func (w *world) check(c *fw.Ctx, x string) {
	if string(w.x) != x || string(w.x[5:13]) != c23Spare {
		c.Fail("the caller's slice has changed to %x (spare %x)", w.x, w.x[5:13])
	}
	for i := range w.m {
		m, v := &w.m[i], &w.v[i]
		if got := m.Uint64(); got != v.u {
			c.Fail("M%d.Uint64() = %d, expected %d", i, got, v.u)
		}
		if got := m.ByteArray(); string(got) != v.b {
			c.Fail("M%d.ByteArray() = %x, expected %x", i, got, v.b)
		}
		if got := m.String(); got != v.s {
			c.Fail("M%d.String() = %x, expected %x", i, got, v.s)
		}
		var in testzeropb.TestMessage
		ok, err := m.Message(&in)
		if ok != v.hasN || err != nil {
			c.Fail("M%d.Message() gives %v, %v; expected %v", i, ok, err, v.hasN)
		}
		if got := in.Encode(); ok && string(got) != v.n {
			c.Fail("M%d.Message() = %x, expected %x", i, got, v.n)
		}
		it := m.Messages()
		for k := 0; ; k++ {
			ok, err := it.Next(&in)
			if ok != (k < len(v.e)) || err != nil {
				c.Fail("element %d of M%d: %v, %v; expected %d elements", k, i, ok, err, len(v.e))
			}
			if !ok {
				break
			}
			if got := in.Encode(); string(got) != v.e[k] {
				c.Fail("element %d of M%d = %x, expected %x", k, i, got, v.e[k])
			}
		}
	}
}

// c23Job runs every history of up to max operations starting with first.
// Messages are interchangeable, so a history names them in order.
func c23Job(c *fw.Ctx, ops []worldOp, first, max int) {
	var idx []int
	c.Cur = func() []string {
		var n []string
		for _, i := range idx {
			n = append(n, ops[i].name)
		}
		return n
	}
	run := func() {
		fuel.Set(1 << 40)
		w := newWorld()
		x := string(w.x)
		for _, i := range idx {
			op := &ops[i]
			op.do(c, w)
			if op.used == 0 {
				x = string(w.x)
			}
			c.Transitions++
		}
		// Every prefix is a history of its own.
		w.check(c, x)
		c.Evaluations++
		c.States++
		c.Replayed++
		if len(idx) > 1 {
			c.Nontrivial++
		}
	}
	var rec func(seen int)
	rec = func(seen int) {
		if !c.Step() {
			return
		}
		run()
		if len(idx) == max {
			if c.WantSample() {
				c.Sample(strings.Join(c.Cur(), "; "))
			}
			return
		}
		for i := range ops {
			u := ops[i].used | seen
			if u == 2 || u == 4 || u == 5 || u == 6 || len(idx) == 0 && i != first {
				continue
			}
			idx = append(idx, i)
			rec(u)
			idx = idx[:len(idx)-1]
			if c.Incomplete {
				return
			}
		}
	}
	rec(0)
}

func init() {
	register(&fw.Prop{ID: "C23", Level: "model_checking",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			max := 4
			if tier == "thorough" {
				max = 5
			}
			for _, large := range []bool{false, true} {
				ops := c23Ops(large)
				max := max
				if large {
					max--
				}
				for first, o := range ops {
					if o.used == 2 || o.used == 4 || o.used == 5 || o.used == 6 {
						continue
					}
					first := first
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("from %s, large %v", o.name, large), Run: func(c *fw.Ctx) { c23Job(c, ops, first, max) }})
				}
			}
			return append(jobs, viewsJobs(tier)...)
		}})
}
