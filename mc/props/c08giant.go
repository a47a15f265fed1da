package props

import (
	"fmt"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// Messages whose fields lie beyond byte 2^31, 2^32 and so on. They are as large
// as they seem, but the contents of the one enormous field are address space
// without memory behind it: to touch it is a fault, and nothing needs to.

const giantWindow = 1 << 16

// giantMem returns n bytes of address space of which the first and the last
// few can be used.
func giantMem(c *fw.Ctx, n int) []byte {
	mem, err := syscall.Mmap(-1, 0, n, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		c.Broken("mmap of %d bytes: %v", n, err)
	}
	for _, w := range [][]byte{mem[:giantWindow], mem[n-2*giantWindow:]} {
		if err := syscall.Mprotect(w, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
			c.Broken("mprotect: %v", err)
		}
	}
	return mem
}

// giantDoc is [head | a giant field | tail] such that the tail begins at byte
// at; the lengths of head and tail are free.
type giantDoc struct {
	head, tail []byte
	num        int
	mem        []byte
	at         int
	headEnd    int
}

func (d *giantDoc) write(c *fw.Ctx) []byte {
	copy(d.mem, d.head)
	b := ref.AppendTag(d.mem[:len(d.head)], uint64(d.num), ref.WBytes)
	for n := 1; ; n++ {
		l := d.at - len(b) - n
		if len(ref.AppendVarint(nil, uint64(l))) == n {
			b = ref.AppendVarint(b, uint64(l))
			break
		}
		if n > 9 {
			c.Broken("giantDoc at %d", d.at)
		}
	}
	if d.at < len(d.mem)-2*giantWindow || d.at+len(d.tail)+100 > len(d.mem) {
		c.Broken("giantDoc at %d of %d", d.at, len(d.mem))
	}
	d.headEnd = len(b)
	copy(d.mem[d.at:], d.tail)
	return d.mem[:d.at+len(d.tail)]
}

type giantRef struct {
	val   map[int]ref.V // singular fields
	rep   []string      // the repeated field; giantElem stands for the giant
	giant bool          // the giant field is there
}

const giantElem = "the giant"

func giantCheck(c *fw.Ctx, s *zt.Schema, m *zt.Msg, d *giantDoc, r *giantRef) {
	view := func(what string, b []byte) bool {
		if len(b) < giantWindow {
			return false
		}
		if len(b) != d.at-d.headEnd || &b[0] != &d.mem[d.headEnd] {
			c.Fail("%s is %d bytes, expected the %d bytes of the giant field", what, len(b), d.at-d.headEnd)
		}
		return true
	}
	for _, f := range s.Fields {
		switch {
		case f.Kind == ref.RepMsg:
			it := m.Iter(f)
			var got []string
			for len(got) < 9 {
				e, ok := m.Next(&it, f)
				if !ok {
					break
				}
				if view("the element", e) {
					got = append(got, giantElem)
				} else {
					got = append(got, string(e))
				}
			}
			if strings.Join(got, "|") != strings.Join(r.rep, "|") || len(got) != len(r.rep) {
				c.Fail("repeated field %d iterates as %q, expected %q", f.Num, got, r.rep)
			}
		case f.Num == d.num && r.giant:
			if f.Kind == ref.String {
				x := m.GetRawString(f)
				view("the string", unsafe.Slice(unsafe.StringData(x), len(x)))
			} else if !view("the field", m.GetRaw(f)) {
				c.Fail("field %d does not read as the giant field", f.Num)
			}
		default:
			if got := m.Get(f); got != r.val[f.Num] {
				c.Fail("field %d (%s) reads %v, expected %v", f.Num, f.Kind, got, r.val[f.Num])
			}
		}
	}
}

// c08Giant: at every place around a size, with every kind of field behind it.
func c08Giant(bits uint, mode string) func(c *fw.Ctx) {
	return func(c *fw.Ctx) {
		debug.SetPanicOnFault(true)
		size := 1 << bits
		d := &giantDoc{mem: giantMem(c, size+giantWindow)}
		defer syscall.Munmap(d.mem)
		var hist []string
		c.Cur = func() []string {
			return append([]string{fmt.Sprintf("decode [%x | giant field %d up to byte %d | %x]", d.head, d.num, d.at, d.tail)}, hist...)
		}
		lo, hi := -7, 7
		if c.Thorough() {
			lo, hi = -20, 20
		}
		for _, k := range singular {
			gk := ref.Bytes
			switch mode {
			case "string":
				gk = ref.String
			}
			s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 2, Kind: k}, zt.Field{Num: 17, Kind: gk}, zt.Field{Num: 4, Kind: ref.RepMsg}, zt.Field{Num: 3, Kind: ref.String})
			v := vals(k, 2)
			if k == ref.Msg {
				v[0].Has, v[1].Has = true, true
			}
			e := func(num int, k ref.Kind, v ref.V) []byte { return ref.AppendField(nil, num, k, v) }
			type giantOp struct {
				name string
				do   func(m *zt.Msg, r *giantRef)
			}
			set := func(i int, v ref.V) giantOp {
				f := s.Fields[i]
				return giantOp{fmt.Sprintf("set field %d = %v", f.Num, v), func(m *zt.Msg, r *giantRef) {
					m.Set(f, v)
					r.val[f.Num] = v
					if f.Num == d.num {
						r.giant = false
					}
				}}
			}
			ops := []giantOp{
				set(0, u(6)), // same length, whichever it is
				set(1, v[1]), set(1, v[0]),
				set(4, sv("a")), set(4, sv("longer than that")),
				{"append to field 4", func(m *zt.Msg, r *giantRef) {
					m.Append(s.Fields[3], []byte("\x08\x03"))
					r.rep = append(r.rep[:len(r.rep):len(r.rep)], "\x08\x03")
				}},
				{"decode own encoding", func(m *zt.Msg, r *giantRef) {
					if err := m.Decode(s, m.Buf); err != nil {
						c.Fail("decode returns %v", err)
					}
				}},
			}
			head := append(e(1, ref.Uint64, u(5)), e(4, ref.RepMsg, sv("\x08\x01"))...)
			switch mode {
			case "unknown":
				d.num = 5000
			case "element":
				d.num = 4
			case "first element":
				d.num, head = 4, e(1, ref.Uint64, u(5))
			default:
				d.num = 17
				ops = append(ops, set(2, sv("small")), set(2, sv("")))
			}
			d.head = head
			for delta := lo; delta <= hi; delta++ {
				d.at = size + delta
				for _, tail := range [][]byte{
					append(append(append(append(e(2, k, v[0]), e(4, ref.RepMsg, sv(""))...), e(3, ref.String, sv("xyz"))...), e(1, ref.Uint64, u(7))...), rawTok("", 5001, 2, 0, []byte{2, 8, 9}).B...),
					append(e(3, ref.String, sv("")), e(2, k, v[1])...),
				} {
					d.tail = tail
					run := func(path ...giantOp) {
						if !c.Step() {
							return
						}
						buf := d.write(c)
						m := zt.New(s)
						r := &giantRef{val: map[int]ref.V{}, giant: d.num == 17}
						hist = nil
						if err := m.Decode(s, buf); err != nil {
							c.Fail("Decode of a well-formed message fails: %v", err)
						}
						for _, part := range [][]byte{d.head, nil, d.tail} {
							if part == nil {
								if d.num == 4 {
									r.rep = append(r.rep, giantElem)
								}
								continue
							}
							occs, _ := ref.Parse(part, nil)
							for i := range occs {
								if f, ok := s.ByNum(int(occs[i].Num)); ok && f.Kind == ref.RepMsg {
									r.rep = append(r.rep, string(occs[i].B))
								} else if ok {
									r.val[f.Num], _ = ref.Read(f.Kind, &occs[i])
								}
							}
						}
						giantCheck(c, s, m, d, r)
						for _, o := range path {
							hist = append(hist, o.name)
							o.do(m, r)
							c.Transitions++
							giantCheck(c, s, m, d, r)
						}
						// What was written says the same to everybody else.
						occs, ok := ref.Parse(m.Buf, nil)
						if !ok {
							c.Fail("the encoding is malformed")
						}
						last := map[int]ref.V{}
						for i := range occs {
							if f, ok := s.ByNum(int(occs[i].Num)); ok && f.Kind != ref.RepMsg && len(occs[i].B) < giantWindow {
								last[f.Num], _ = ref.Read(f.Kind, &occs[i])
							}
						}
						for n, v := range r.val {
							if last[n] != v {
								c.Fail("field %d encodes %v, expected %v", n, last[n], v)
							}
						}
						n := zt.New(s)
						if err := n.Decode(s, m.Buf); err != nil {
							c.Fail("decoding the message's own encoding fails: %v", err)
						}
						giantCheck(c, s, n, d, r)
						c.States++
						c.Count("giant_messages", 1)
					}
					run()
					for _, a := range ops {
						run(a)
						for _, b := range ops {
							run(a, b)
							if c.Thorough() {
								for _, x := range ops {
									run(a, b, x)
								}
							}
						}
					}
				}
			}
		}
	}
}

// c08GiantGolden does some of it with a generated type.
func c08GiantGolden(bits uint) func(c *fw.Ctx) {
	return func(c *fw.Ctx) {
		debug.SetPanicOnFault(true)
		size := 1 << bits
		d := &giantDoc{mem: giantMem(c, size+giantWindow), num: 5000}
		defer syscall.Munmap(d.mem)
		var el testzeropb.TestMessage
		el.SetInt32(9)
		d.head = ref.AppendField(ref.AppendField(nil, 3, ref.Int64, u(5)), 34, ref.RepMsg, sv(string(el.Encode())))
		d.tail = ref.AppendField(ref.AppendField(ref.AppendField(ref.AppendField(nil, 14, ref.String, sv("abc")), 34, ref.RepMsg, sv("")), 17, ref.Msg, sv("\x10\x05")), 8, ref.Fixed32, u(8))
		for delta := -20; delta <= 20; delta++ {
			d.at = size + delta
			c.Cur = func() []string {
				return []string{fmt.Sprintf("TestMessage: decode [%x | giant field %d up to byte %d | %x]; read; SetString, SetFixed32, AppendToMessages; read", d.head, d.num, d.at, d.tail)}
			}
			for edit := 0; edit < 2; edit++ {
				refuelGolden()
				var m, x testzeropb.TestMessage
				if err := m.Decode(d.write(c)); err != nil {
					c.Fail("Decode of a well-formed message fails: %v", err)
				}
				str, fixed, count := "abc", uint32(8), 2
				if edit == 1 {
					m.SetString("something else")
					m.SetFixed32(11)
					m.AppendToMessages(el)
					str, fixed, count = "something else", 11, 3
				}
				for again := 0; again < 2; again++ {
					if m.Int64() != 5 || m.String() != str || m.Fixed32() != fixed || m.Int32() != 0 {
						c.Fail("reads %d %q %d %d", m.Int64(), m.String(), m.Fixed32(), m.Int32())
					}
					if ok, err := m.Message(&x); !ok || err != nil || x.Int32() != 5 {
						c.Fail("message reads %v %v %d", ok, err, x.Int32())
					}
					n := 0
					it := m.Messages()
					for ; n < 9; n++ {
						ok, err := it.Next(&x)
						if err != nil {
							c.Fail("Next: %v", err)
						}
						if !ok {
							break
						}
						if want := []int32{9, 0, 9}[n]; x.Int32() != want {
							c.Fail("element %d reads %d", n, x.Int32())
						}
					}
					if n != count {
						c.Fail("%d elements, expected %d", n, count)
					}
					if err := m.Decode(m.Encode()); err != nil {
						c.Fail("decoding the own encoding: %v", err)
					}
				}
				c.States++
				c.Count("giant_messages", 1)
			}
		}
	}
}

func c08GiantJobs() []fw.Job {
	if unsafe.Sizeof(uintptr(0)) < 8 {
		return nil
	}
	var jobs []fw.Job
	for _, bits := range []uint{31, 32, 40} {
		for _, mode := range []string{"unknown", "element", "first element", "bytes", "string"} {
			jobs = append(jobs, fw.Job{Name: fmt.Sprintf("giant-2^%d-%s", bits, mode), Run: c08Giant(bits, mode)})
		}
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("giant-2^%d-generated", bits), Run: c08GiantGolden(bits)})
	}
	return jobs
}
