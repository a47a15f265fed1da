//go:build gcpoints

package props

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/danhhz/zeropb/golden/testzeropb"
	"github.com/danhhz/zeropb/vsched_verif"

	"verifmc/fw"
	"verifmc/ref"
)

// gcView is something read in place, with the contents it must keep.
type gcView struct {
	what string
	text string
	get  func() string
}

// gcWorld is one message that nothing but this struct refers to, views of it
// and of messages that were dropped.
type gcWorld struct {
	m     *testzeropb.TestMessage
	v     mval
	n     byte // number of values made so far
	own   []*gcView
	old   []*gcView
	iters []gcIter
	fail  string
}

type gcIter struct {
	next func(in *testzeropb.TestMessage) (bool, error)
	e    []string
	pos  int
}

// gcFill is the text of the n-th value.
//
//go:noinline
func gcFill(n byte, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[i] = 'A' + n%26 + byte(i%7)
	}
	return b
}

//go:noinline
func gcText(n byte, size int) string { return string(gcFill(n, size)) }

// gcInner is a nested message.
//
//go:noinline
func gcInner(n byte, size int) testzeropb.TestMessage {
	var in testzeropb.TestMessage
	in.SetByteArray(gcFill(n, size))
	return in
}

//go:noinline
func gcInnerBytes(n byte, size int) string {
	return string(ref.AppendField(nil, 15, ref.Bytes, ref.V{S: gcText(n, size)}))
}

// gcEncoding is what Decode is given.
//
//go:noinline
func gcEncoding(n byte) []byte {
	var b []byte
	b = ref.AppendField(b, 34, ref.RepMsg, ref.V{S: gcInnerBytes(n, 20)})
	b = ref.AppendField(b, 14, ref.String, ref.V{S: gcText(n+1, 40)})
	b = ref.AppendField(b, 17, ref.Msg, ref.V{S: gcInnerBytes(n+2, 30)})
	b = ref.AppendField(b, 34, ref.RepMsg, ref.V{S: gcInnerBytes(n+3, 500)})
	b = ref.AppendField(b, 15, ref.Bytes, ref.V{S: gcText(n+4, 300)})
	return append(make([]byte, 0, len(b)), b...)
}

func (w *gcWorld) bad(f string, a ...interface{}) {
	if w.fail == "" {
		w.fail = fmt.Sprintf(f, a...)
	}
}

// next numbers a value.
func (w *gcWorld) next() byte { w.n++; return w.n }

// wrote says that m's bytes may have changed: what was read in place is void.
func (w *gcWorld) wrote() { w.own, w.iters = nil, nil }

// left says that m has other bytes now: what was read in place is unaffected.
func (w *gcWorld) left() {
	w.old = append(w.old, w.own...)
	w.own = nil
}

func (w *gcWorld) keep(what string, text string, get func() string) {
	w.own = append(w.own, &gcView{what, text, get})
}

// take gives away the only reference to the message.
//
//go:noinline
func (w *gcWorld) take() *testzeropb.TestMessage {
	m := w.m
	w.m, w.v = new(testzeropb.TestMessage), mval{}
	return m
}

// copyOf gives a message with the same contents in memory of its own.
//
//go:noinline
func (w *gcWorld) copyOf() *testzeropb.TestMessage {
	m := new(testzeropb.TestMessage)
	if err := m.Decode(append([]byte(nil), w.m.Encode()...)); err != nil {
		w.bad("Decode of the message's own encoding fails: %v", err)
	}
	return m
}

type gcOp struct {
	name string
	do   func(w *gcWorld)
}

func gcOps() []gcOp {
	return []gcOp{
		{"SetString(24 bytes)", func(w *gcWorld) {
			n := w.next()
			w.wrote()
			w.m.SetString(gcText(n, 24))
			w.v.s = gcText(n, 24)
		}},
		{"SetString(600 bytes)", func(w *gcWorld) {
			n := w.next()
			w.wrote()
			w.m.SetString(gcText(n, 600))
			w.v.s = gcText(n, 600)
		}},
		{"SetByteArray(100 bytes)", func(w *gcWorld) {
			n := w.next()
			w.wrote()
			w.m.SetByteArray(gcFill(n, 100))
			w.v.b = gcText(n, 100)
		}},
		{"SetMessage", func(w *gcWorld) {
			n := w.next()
			w.wrote()
			w.m.SetMessage(gcInner(n, 50))
			w.v.n, w.v.hasN = gcInnerBytes(n, 50), true
		}},
		{"AppendToMessages", func(w *gcWorld) {
			n := w.next()
			w.wrote()
			w.m.AppendToMessages(gcInner(n, 33))
			w.v.e = append(w.v.e, gcInnerBytes(n, 33))
		}},
		{"SetUint64", func(w *gcWorld) {
			w.wrote()
			w.v.u = uint64(1) << (7 * uint(w.next()%9))
			w.m.SetUint64(w.v.u)
		}},
		{"SetString(ByteArray)", func(w *gcWorld) {
			w.wrote()
			w.m.SetString(string(w.m.ByteArray()))
			w.v.s = strings.Clone(w.v.b)
		}},
		{"SetByteArray(Message.ByteArray) in place", func(w *gcWorld) {
			w.wrote()
			var in testzeropb.TestMessage
			ok, err := w.m.Message(&in)
			if err != nil || ok != w.v.hasN {
				w.bad("Message gives %v, %v", ok, err)
				return
			}
			want := ""
			if ok {
				occs, _ := ref.Parse([]byte(w.v.n), nil)
				want = string(occs[0].B)
			}
			w.m.SetByteArray(in.ByteArray())
			w.v.b = want
		}},
		{"keep String", func(w *gcWorld) {
			s := w.m.String()
			w.keep("string", strings.Clone(w.v.s), func() string { return s })
		}},
		{"keep ByteArray", func(w *gcWorld) {
			b := w.m.ByteArray()
			w.keep("bytes", strings.Clone(w.v.b), func() string { return string(b) })
		}},
		{"keep Encode", func(w *gcWorld) {
			b := w.m.Encode()
			w.keep("encoding", string(b), func() string { return string(b) })
		}},
		{"keep Message", func(w *gcWorld) {
			in := new(testzeropb.TestMessage)
			ok, err := w.m.Message(in)
			if err != nil || ok != w.v.hasN {
				w.bad("Message gives %v, %v", ok, err)
			} else if ok {
				occs, _ := ref.Parse([]byte(w.v.n), nil)
				text := string(occs[0].B)
				w.keep("nested message", text, func() string { return string(in.ByteArray()) })
			}
		}},
		{"keep String, ByteArray and drop the message", func(w *gcWorld) {
			w.left()
			text, text2 := strings.Clone(w.v.s), strings.Clone(w.v.b)
			b := w.copyOf().ByteArray()
			s := w.take().String()
			w.old = append(w.old, &gcView{"string", text, func() string { return s }}, &gcView{"bytes", text2, func() string { return string(b) }})
		}},
		{"keep Message, Messages and drop the message", func(w *gcWorld) {
			w.left()
			has, n, e := w.v.hasN, w.v.n, append([]string(nil), w.v.e...)
			it := w.copyOf().Messages()
			in := new(testzeropb.TestMessage)
			ok, err := w.take().Message(in)
			if err != nil || ok != has {
				w.bad("Message gives %v, %v", ok, err)
			} else if ok {
				occs, _ := ref.Parse([]byte(n), nil)
				text := string(occs[0].B)
				w.old = append(w.old, &gcView{"nested message", text, func() string { return string(in.ByteArray()) }})
			}
			w.iters = append(w.iters, gcIter{func(in *testzeropb.TestMessage) (bool, error) { return it.Next(in) }, e, 0})
		}},
		{"keep Messages", func(w *gcWorld) {
			it := w.m.Messages()
			w.iters = append(w.iters, gcIter{func(in *testzeropb.TestMessage) (bool, error) { return it.Next(in) }, append([]string(nil), w.v.e...), 0})
		}},
		{"next of the last iterator", func(w *gcWorld) {
			if len(w.iters) == 0 {
				return
			}
			it := &w.iters[len(w.iters)-1]
			in := new(testzeropb.TestMessage)
			ok, err := it.next(in)
			if err != nil || ok != (it.pos < len(it.e)) {
				w.bad("Next gives %v, %v for element %d of %d", ok, err, it.pos, len(it.e))
			} else if ok {
				text := strings.Clone(it.e[it.pos])
				it.pos++
				w.keep("element", text, func() string { return string(in.Encode()) })
			}
		}},
		{"Decode(new bytes)", func(w *gcWorld) {
			n := w.next()
			w.n += 4
			w.left()
			if err := w.m.Decode(gcEncoding(n)); err != nil {
				w.bad("Decode fails: %v", err)
			}
			w.v = mval{s: gcText(n+1, 40), b: gcText(n+4, 300), n: gcInnerBytes(n+2, 30), hasN: true, e: []string{gcInnerBytes(n, 20), gcInnerBytes(n+3, 500)}}
		}},
		{"Reset(new buffer)", func(w *gcWorld) {
			w.left()
			w.m.Reset(make([]byte, 0, 64))
			w.v = mval{}
		}},
		{"drop the message", func(w *gcWorld) {
			w.left()
			w.m = new(testzeropb.TestMessage)
			w.v = mval{}
		}},
	}
}

func (w *gcWorld) check() {
	v := &w.v
	m := w.m
	if got := m.Uint64(); got != v.u {
		w.bad("Uint64() = %#x, expected %#x", got, v.u)
	}
	if got := m.ByteArray(); string(got) != v.b {
		w.bad("ByteArray() = %x, expected %x", got, v.b)
	}
	if got := m.String(); got != v.s {
		w.bad("String() = %x, expected %x", got, v.s)
	}
	var in testzeropb.TestMessage
	ok, err := m.Message(&in)
	if ok != v.hasN || err != nil {
		w.bad("Message() gives %v, %v; expected %v", ok, err, v.hasN)
	}
	if got := in.Encode(); ok && string(got) != v.n {
		w.bad("Message() = %x, expected %x", got, v.n)
	}
	it := m.Messages()
	for k := 0; ; k++ {
		ok, err := it.Next(&in)
		if ok != (k < len(v.e)) || err != nil {
			w.bad("element %d: %v, %v; expected %d elements", k, ok, err, len(v.e))
		}
		if !ok || k >= len(v.e) {
			break
		}
		if got := in.Encode(); string(got) != v.e[k] {
			w.bad("element %d = %x, expected %x", k, got, v.e[k])
		}
	}
	for _, l := range [][]*gcView{w.own, w.old} {
		for _, x := range l {
			if got := x.get(); got != x.text {
				w.bad("a %s read earlier is now %x, expected %x", x.what, got, x.text)
			}
		}
	}
	for i := range w.iters {
		x := &w.iters[i]
		for k := x.pos; k <= len(x.e); k++ {
			ok, err := x.next(&in)
			if err != nil || ok != (k < len(x.e)) {
				w.bad("an iterator made earlier gives %v, %v for element %d of %d", ok, err, k, len(x.e))
				break
			}
			if ok && !bytes.Equal(in.Encode(), []byte(x.e[k])) {
				w.bad("element %d of an iterator made earlier = %x, expected %x", k, in.Encode(), x.e[k])
			}
		}
	}
}

//go:noinline
func gcDeep(n int) byte {
	var frame [1024]byte
	for i := range frame {
		frame[i] = byte(n) ^ 0xa5
	}
	if n > 0 {
		frame[0] ^= gcDeep(n - 1)
	}
	return frame[0] ^ frame[n]
}

// gcCollect moves the stack and frees everything that is unreachable. The
// runtime overwrites what it frees (GODEBUG=clobberfree=1); the stack's old
// place is overwritten by other goroutines'.
func gcCollect() {
	gcDeep(12)
	runtime.GC()
	done := make(chan byte)
	for i := 0; i < 2; i++ {
		go func() { done <- gcDeep(3) }()
	}
	<-done
	<-done
}

func c26Job(c *fw.Ctx, ops []gcOp, first, max int) {
	if !strings.Contains(os.Getenv("GODEBUG"), "clobberfree=1") {
		c.Broken("needs GODEBUG=clobberfree=1")
	}
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	vsched_verif.Hook = gcCollect
	var idx []int
	var at int64
	c.Cur = func() []string {
		var n []string
		for _, i := range idx {
			n = append(n, ops[i].name)
		}
		return append(n, fmt.Sprintf("garbage collection at the %dth call of the library", at))
	}
	// run returns the number of points.
	run := func(target int64) (total int64) {
		at = target
		done := make(chan *gcWorld)
		go func() {
			w := &gcWorld{m: new(testzeropb.TestMessage)}
			defer func() {
				if r := recover(); r != nil {
					w.bad("%s", fw.PanicText(r, debug.Stack()))
				}
				vsched_verif.At = 0
				done <- w
			}()
			vsched_verif.Now, vsched_verif.At = 0, target
			for _, i := range idx {
				ops[i].do(w)
			}
			total = vsched_verif.Now
			if target == 0 {
				gcCollect()
			}
			w.check()
		}()
		w := <-done
		c.Evaluations++
		if w.fail != "" {
			c.Fail("%s", w.fail)
		}
		return
	}
	var rec func()
	rec = func() {
		if !c.Step() {
			return
		}
		total := run(0)
		for t := int64(1); t <= total; t++ {
			run(t)
			c.Nontrivial++
			c.Count("collections", 1)
		}
		c.Count("histories", 1)
		c.SetMax("points_per_history", total)
		if len(idx) == max {
			if c.WantSample() {
				c.Sample(strings.Join(c.Cur(), "; "))
			}
			return
		}
		for i := range ops {
			idx = append(idx, i)
			rec()
			idx = idx[:len(idx)-1]
			if c.Incomplete {
				return
			}
		}
	}
	idx = append(idx, first)
	rec()
}

func init() {
	register(&fw.Prop{ID: "C26", Level: "exploration",
		Rule: "an evaluation is one history of operations on one message and one point (before a call, or at a function's entry) at which the garbage collector runs and the stack moves; non-trivial: the point is inside the library",
		Notes: []string{"the runtime overwrites freed memory (GODEBUG=clobberfree=1)",
			"points are function entries and statements with calls, where the compiler's liveness is exact; between calls the collector scans an interrupted frame conservatively"},
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			max := 3
			if tier == "thorough" {
				max = 4
			}
			ops := gcOps()
			for first := range ops {
				first := first
				jobs = append(jobs, fw.Job{Name: "from " + ops[first].name, Run: func(c *fw.Ctx) { c26Job(c, ops, first, max) }})
			}
			return append(jobs, viewsJobs(tier)...)
		}})
}
