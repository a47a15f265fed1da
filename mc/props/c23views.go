package props

import (
	"bytes"
	"fmt"
	"unsafe"

	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/fuel"
	"verifmc/fw"
)

// An operation on a message writes to that message's own memory (as it was
// before, or fresh memory) and nowhere else: everything ever read in place
// from a message keeps its contents while other messages are written, and for
// good once the message has moved elsewhere. Histories are run from the start
// so that memory passed on behind the scenes shows.

type heldView struct {
	name string
	b    []byte
	want []byte
}

type viewWorld struct {
	m     [2]testzeropb.TestMessage
	views []heldView
	pool  [][]byte // memory for the copies
}

func (w *viewWorld) hold(name string, b []byte) {
	if len(b) == 0 {
		return
	}
	n := len(w.views)
	if n == len(w.pool) {
		w.pool = append(w.pool, nil)
	}
	w.pool[n] = append(w.pool[n][:0], b...)
	w.views = append(w.views, heldView{name, b, w.pool[n]})
}

func stringBytes(s string) []byte {
	if s == "" {
		return nil
	}
	return unsafe.Slice(unsafe.StringData(s), len(s))
}

type viewOp struct {
	name string
	msg  int
	do   func(w *viewWorld)
}

func viewOps(sizes [3]int) []viewOp {
	var ops []viewOp
	for i := 0; i < 2; i++ {
		i := i
		add := func(name string, do func(m *testzeropb.TestMessage, w *viewWorld)) {
			ops = append(ops, viewOp{fmt.Sprintf("M%d.%s", i, name), i, func(w *viewWorld) { do(&w.m[i], w) }})
		}
		fill := func(x byte, n int) []byte { return bytes.Repeat([]byte{x + byte(i)}, n) }
		for k, n := range sizes {
			x := fill(byte(0x11*(k+1)), n)
			add(fmt.Sprintf("SetByteArray(%d bytes)", n), func(m *testzeropb.TestMessage, w *viewWorld) { m.SetByteArray(x) })
			if k > 0 {
				s := string(fill(byte(0x51+0x10*k), n))
				add(fmt.Sprintf("SetString(%d bytes)", n), func(m *testzeropb.TestMessage, w *viewWorld) { m.SetString(s) })
			}
		}
		var e testzeropb.TestMessage
		e.SetByteArray(fill(0x61, sizes[1]))
		add(fmt.Sprintf("AppendToMessages(%d bytes)", len(e.Encode())), func(m *testzeropb.TestMessage, w *viewWorld) { m.AppendToMessages(e) })
		add("SetUint64", func(m *testzeropb.TestMessage, w *viewWorld) { m.SetUint64(m.Uint64()*128 + 1) })
		add("Reset(nil)", func(m *testzeropb.TestMessage, w *viewWorld) { m.Reset(nil) })
		add("Decode(copy of the other)", func(m *testzeropb.TestMessage, w *viewWorld) {
			m.Decode(append([]byte(nil), w.m[1-i].Encode()...))
		})
	}
	return ops
}

func viewsJob(c *fw.Ctx, sizes [3]int, first, max int) {
	ops := viewOps(sizes)
	idx := make([]int, 1, max)
	idx[0] = first
	c.Cur = func() []string {
		var n []string
		for _, i := range idx {
			n = append(n, ops[i].name)
		}
		return n
	}
	w := &viewWorld{}
	run := func() {
		fuel.Set(1 << 40)
		w.m = [2]testzeropb.TestMessage{}
		w.views = w.views[:0]
		for _, oi := range idx {
			op := &ops[oi]
			m := &w.m[op.msg]
			own := m.Encode()
			var lo, hi uintptr
			if cap(own) > 0 {
				lo = addr(own[:1])
				hi = lo + uintptr(cap(own))
			}
			op.do(w)
			c.Transitions++
			for k := range w.views {
				v := &w.views[k]
				if bytes.Equal(v.b, v.want) {
					continue
				}
				if a := addr(v.b); a >= lo && a < hi {
					// The message's own memory.
					copy(v.want, v.b)
					continue
				}
				c.Fail("%s changes %s (%d bytes), which is no part of that message: %x", op.name, v.name, len(v.b), clipB(v.b))
			}
			c.States++
			w.hold(fmt.Sprintf("M%d.Encode()", op.msg), m.Encode())
			w.hold(fmt.Sprintf("M%d.ByteArray()", op.msg), m.ByteArray())
			w.hold(fmt.Sprintf("M%d.String()", op.msg), stringBytes(m.String()))
			it := m.Messages()
			var e testzeropb.TestMessage
			if ok, err := it.Next(&e); ok && err == nil {
				w.hold(fmt.Sprintf("the first element of M%d", op.msg), e.Encode())
			}
		}
		c.Evaluations++
		c.Nontrivial++
		c.Count("view_histories", 1)
	}
	var rec func()
	rec = func() {
		if len(idx) == max {
			if c.Step() {
				run()
			}
			return
		}
		for i := range ops {
			idx = append(idx, i)
			rec()
			idx = idx[:len(idx)-1]
			if c.Incomplete {
				return
			}
		}
	}
	rec()
}

func viewsJobs(tier string) []fw.Job {
	var jobs []fw.Job
	for _, g := range []struct {
		sizes [3]int
		max   int
	}{{[3]int{3, 20, 60}, 5}, {[3]int{20, 600, 5000}, 5}, {[3]int{300, 3000, 70000}, 4}} {
		max := g.max
		if tier == "thorough" {
			max++
		}
		ops := viewOps(g.sizes)
		for first := range ops {
			if ops[first].msg == 1 {
				continue // the messages are interchangeable
			}
			g, first, max := g, first, max
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("views-%d-%d", g.sizes[2], first), Run: func(c *fw.Ctx) { viewsJob(c, g.sizes, first, max) }})
		}
	}
	return jobs
}
