package props

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/danhhz/zeropb/generate"

	"verifmc/fw"
)

// faultyWriter fails at its failAt-th call, after accepting some of the bytes.
type faultyWriter struct {
	got    []byte
	calls  int
	failAt int // -1: never
	accept int // bytes of the failing call to accept: 0, 1, all but one, all
	after  int // calls after the failure
	failed bool
	err    error
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if w.calls++; w.calls-1 != w.failAt {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	n := []int{0, min(1, len(p)), max(0, len(p)-1), len(p)}[w.accept]
	w.got = append(w.got, p[:n]...)
	w.failed = true
	return n, w.err
}

type stringer string

func (s stringer) String() string { return "<" + string(s) + ">" }

type pstringer struct{ n int }

func (p *pstringer) String() string { return strings.Repeat("p", p.n) }

// c22Args is what Write can be given, and what it has to write.
func c22Args(indent string) (args []interface{}, text []string, name []string) {
	add := func(a interface{}, t, n string) { args, text, name = append(args, a), append(text, t), append(name, n) }
	add("", "", `""`)
	add("a\n", "a\n", `"a\n"`)
	add([]byte("b\x00%d"), "b\x00%d", `[]byte`)
	add([]byte(nil), "", `[]byte(nil)`)
	add(int32(0), "0", "int32 0")
	add(int32(-1<<31), strconv.Itoa(-1<<31), "int32 min")
	add(int32(1<<31-1), strconv.Itoa(1<<31-1), "int32 max")
	var in generate.StringTreeIndent
	add(in, "", "indent 0")
	add(in.Next(), indent, "indent 1")
	add(in.Next().Next().Next(), strings.Repeat(indent, 3), "indent 3")
	add(stringer("s"), "<s>", "Stringer")
	add(&pstringer{3}, "ppp", "*Stringer")
	return
}

func c22Job(c *fw.Ctx, indent string, first, maxArgs int) {
	args, text, name := c22Args(indent)
	if first >= len(args) {
		return
	}
	var idx []int
	var cuts int
	fail, accept := -1, 0
	c.Cur = func() []string {
		var n []string
		for i, k := range idx {
			if i > 0 && cuts>>(i-1)&1 == 1 {
				n = append(n, "); Write(")
			}
			n = append(n, name[k])
		}
		return []string{fmt.Sprintf("indent %q: Write(%s)", indent, strings.Join(n, ", ")), fmt.Sprintf("the writer fails at its call %d (variant %d)", fail, accept)}
	}
	boom := errors.New("boom")
	try := func() (calls int) {
		c.Evaluations++
		w := &faultyWriter{failAt: fail, accept: accept, err: boom}
		st := generate.NewStringTree(w, indent)
		var want []byte
		var call []interface{}
		check := func() {
			st.Write(call...)
			call = call[:0]
			if w.failed {
				if st.Error() != boom {
					c.Fail("Error() is %v after the writer failed with %v", st.Error(), boom)
				}
			} else {
				if st.Error() != nil {
					c.Fail("Error() is %v although no write failed", st.Error())
				}
				if !bytes.Equal(w.got, want) {
					c.Fail("wrote %q, expected %q", w.got, want)
				}
			}
		}
		for i, k := range idx {
			if i > 0 && cuts>>(i-1)&1 == 1 {
				check()
			}
			call = append(call, args[k])
			want = append(want, text[k]...)
		}
		check()
		if w.failed {
			c.Nontrivial++
			c.Count("write_faults", 1)
			if w.after > 0 {
				c.Fail("writes %d more times after a failed write", w.after)
			}
			if !bytes.HasPrefix(want, w.got) {
				c.Fail("wrote %q, which is not a beginning of %q", w.got, want)
			}
			st.Write("more")
			st.Write()
			if w.after > 0 || st.Error() != boom {
				c.Fail("a later Write is passed on, or the error is now %v", st.Error())
			}
		}
		return w.calls
	}
	var rec func()
	rec = func() {
		if len(idx) > 0 {
			if !c.Step() {
				return
			}
			for cuts = 0; cuts < 1<<(len(idx)-1); cuts++ {
				fail, accept = -1, 0
				calls := try()
				for fail = 0; fail < calls; fail++ {
					for accept = 0; accept < 4; accept++ {
						try()
					}
				}
			}
			fail = -1
		}
		if len(idx) == maxArgs {
			return
		}
		for i := range args {
			if len(idx) == 0 && i != first {
				continue
			}
			idx = append(idx, i)
			rec()
			idx = idx[:len(idx)-1]
		}
	}
	rec()
	if c.WantSample() {
		c.Sample("writes of the argument sequences that start with " + name[first] + ", every fault position")
	}
}

// c22Values writes every int32 of a ladder, every indent, and long texts.
func c22Values(c *fw.Ctx) {
	cur := ""
	c.Cur = func() []string { return []string{cur} }
	one := func(a interface{}, want string) {
		c.Evaluations++
		c.Nontrivial++
		var b strings.Builder
		st := generate.NewStringTree(&b, "\t ")
		st.Write(a)
		if b.String() != want || st.Error() != nil {
			c.Fail("%s writes %d bytes %q, expected %q (error %v)", cur, b.Len(), clipS(b.String(), 100), clipS(want, 100), st.Error())
		}
	}
	num := func(n int64) {
		cur = fmt.Sprintf("int32 %d", n)
		if n >= -1<<31 && n < 1<<31 {
			one(int32(n), strconv.FormatInt(n, 10))
		}
	}
	for n := int64(-70000); n <= 70000; n++ {
		num(n)
	}
	for k := 0; k < 32; k++ {
		for d := int64(-3); d <= 3; d++ {
			num(1<<k + d)
			num(-1<<k + d)
		}
	}
	for p, k := int64(1), 0; k < 10; p, k = p*10, k+1 {
		for d := int64(1); d < 10; d++ {
			num(p * d)
			num(p*d - 1)
			num(-p * d)
		}
	}
	var in generate.StringTreeIndent
	for n := 0; n < 600; n++ {
		cur = fmt.Sprintf("indent %d", n)
		one(in, strings.Repeat("\t ", n))
		in = in.Next()
	}
	for _, n := range sizeLadder(1 << 21) {
		cur = fmt.Sprintf("text of %d bytes", n)
		s := strings.Repeat("0123456789abcdef!", n/17+1)[:n]
		one(s, s)
		one([]byte(s), s)
		one(stringer(s), "<"+s+">")
	}
}

func init() {
	register(&fw.Prop{ID: "C22", Level: "fault_enumeration",
		Rule:  "an evaluation is one sequence of Write calls on one StringTree, over a writer that fails at a given call or never; non-trivial: the writer fails",
		Notes: []string{"how the text is divided into writes is up to the implementation", "writers keep io.Writer's contract: a short write comes with an error"},
		Jobs: func(tier string) []fw.Job {
			jobs := []fw.Job{{Name: "values", Run: c22Values}}
			max := 4
			if tier == "thorough" {
				max = 5
			}
			for _, indent := range []string{"  ", "", "\t"} {
				for first := 0; first < 12; first++ {
					indent, first := indent, first
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("sequences %q %d", indent, first), Run: func(c *fw.Ctx) { c22Job(c, indent, first, max) }})
				}
			}
			return jobs
		}})
}
