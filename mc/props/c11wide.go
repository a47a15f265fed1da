//go:build sched

package props

import (
	"fmt"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/sched"
	"verifmc/zt"
)

// What a thread may meet in a document (and hence any state that the library
// might share between threads) goes beyond the few documents of the scenarios
// above: here, both threads work on the same document, each in its own
// message or as readers of one.

// c11Work decodes a document, reads everything, writes some fields and reads
// again.
func c11Work(s *zt.Schema, m *zt.Msg, buf []byte, write []int) (o []ref.V) {
	if err := m.Decode(s, buf); err != nil {
		return []ref.V{errV(err)}
	}
	o = append(o, c11Read(s, m)...)
	for i, fi := range write {
		f := s.Fields[fi]
		if f.Kind == ref.RepMsg {
			m.Append(f, []byte{8, byte(i)})
			continue
		}
		m.Set(f, wideVal(f, i))
		o = append(o, m.Get(f))
	}
	return o
}

func c11Read(s *zt.Schema, m *zt.Msg) (o []ref.V) {
	for _, f := range s.Fields {
		if f.Kind != ref.RepMsg {
			o = append(o, m.Get(f))
			continue
		}
		it := m.Iter(f)
		for k := 0; k < 12; k++ {
			e, ok := m.Next(&it, f)
			if !ok {
				break
			}
			o = append(o, ref.V{S: string(e)})
		}
	}
	return o
}

func c11Own(s *zt.Schema, name string, buf []byte, write []int) *sched.Scenario {
	return &sched.Scenario{Name: "each its own message, decode, read, write fields: " + name, Make: func() []sched.Thread {
		var ts []sched.Thread
		for i := 0; i < 2; i++ {
			m := zt.New(s)
			b := append([]byte(nil), buf...)
			ts = append(ts, sched.Thread{Name: "decode, read, write", Run: func() []ref.V { return c11Work(s, m, b, write) },
				After: func() []ref.V { return []ref.V{{S: string(m.Buf)}} }})
		}
		return ts
	}}
}

func c11Shared(s *zt.Schema, name string, buf []byte) *sched.Scenario {
	return &sched.Scenario{Name: "two readers of one message: " + name, Make: func() []sched.Thread {
		m := zt.New(s)
		// (What is left by a Decode that failed may be read as well.)
		m.Decode(s, append([]byte(nil), buf...))
		t := sched.Thread{Name: "read", Run: func() []ref.V { return c11Read(s, m) }, After: func() []ref.V { return []ref.V{{S: string(m.Buf)}} }}
		return []sched.Thread{t, t}
	}}
}

// c11Documents are explored with preemptions.
func c11Documents(f func(s *zt.Schema, name string, buf []byte)) {
	base := func(k ref.Kind, num int) *zt.Schema {
		return zt.NewSchema(zt.Field{Num: num, Kind: k}, zt.Field{Num: 2, Kind: ref.Bytes}, zt.Field{Num: 3, Kind: ref.RepMsg})
	}
	two, three := rawTok("2:bytes", 2, 2, 0, []byte("\x03xyz")), rawTok("3:rep", 3, 2, 0, []byte("\x02\x08\x05"))
	for _, k := range append(append([]ref.Kind{}, singular...), ref.RepMsg) {
		v := []ref.V{sv("\x08\x07"), sv("\x08\x09")}
		if k != ref.RepMsg {
			v = vals(k, 3)
		}
		for _, num := range []int{1, 16, 130} {
			a, b := fieldTok(num, k, v[0]), fieldTok(num, k, v[1])
			name, buf := join(a, two, three, b)
			f(base(k, num), name, buf)
			if p, ok := paddedVal(num, k, v[1], 2); ok {
				name, buf := join(three, p, two, a, p)
				f(base(k, num), name, buf)
			}
		}
	}
	s := base(ref.Uint64, 1)
	one := fieldTok(1, ref.Uint64, u(300))
	for _, n := range []uint64{5, 40, 3000, 1 << 28} {
		for _, wt := range wireTypes {
			x := rawTok(fmt.Sprintf("unknown %d", n), n, wt, 0, payloads[wt])
			name, buf := join(one, x, three, x, two, three)
			f(s, name, buf)
		}
	}
	for _, n := range []int{0, 1, 127, 128, 300, 1024, 2047, 4096, 16384, 65536} {
		for _, num := range []int{2, 3} {
			name, buf := join(one, fieldTok(num, ref.Bytes, sv(bigMsg(n+2))), three, two)
			f(s, name, buf)
		}
	}
	for num := 1; num <= 4; num++ {
		for _, wt := range wireTypes {
			x := rawTok(fmt.Sprintf("field %d as %d", num, wt), uint64(num), wt, 0, payloads[wt])
			name, buf := join(two, three, x, one, x)
			f(s, name, buf)
		}
	}
	for _, x := range []string{"\x00", "\x00\x01", "\x07", "\xf8\xff\xff\xff\x7f\x01", "\x80", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x01", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x00",
		"\x08", "\x08\x80", "\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\x0b", "\x0b\x00", "\x0c\x00", "\x0e\x00", "\x0f\x00", "\x09\x00", "\x0d\x00", "\x12", "\x12\x05a", "\x12\x80", "\x12\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
		"\x12\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\x28\x80", "\x2a\x09", "\x2a\x80", "\x2b\x00", "\x2d\x00", "\x29\x00", "\x2f\x00", "\x28\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\xfa\xff\xff\xff\x0f\x05"} {
		for _, pre := range []string{"", string(one.B) + string(three.B)} {
			f(s, fmt.Sprintf("malformed %x", pre+x), []byte(pre+x))
		}
	}
}

// c11Short leaves out the documents in which a schedule would be too long.
func c11Short(occs []ref.Occ, buf []byte) bool { return len(occs) <= 150 && len(buf) <= 140000 }

// c11Wide: every document of the ladders, in both orders, without preemption:
// the threads are not synchronised, so a conflicting access is found in
// whatever order they run.
func c11Wide(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) {
	n := 0
	return func(buf []byte, occs []ref.Occ) {
		if !c11Short(occs, buf) {
			return
		}
		n++
		names := c.Cur
		defer func() { c.Cur = names }()
		name := fmt.Sprintf("schema with largest number %d, %x", s.Max, clipB(buf))
		w := []int{n % len(s.Fields), (n/len(s.Fields) + 3*n + 1) % len(s.Fields)}
		sched.Explore(c, c11Own(s, name, buf, w), 0)
		switch n%4 + 4*b2i(len(buf) == 0) {
		case 0:
			sched.Explore(c, c11Shared(s, name, buf), 0)
		case 1:
			// Cut off.
			sched.Explore(c, c11Own(s, "(cut) "+name, buf[:len(buf)-1-n/4%len(buf)], w), 0)
		}
	}
}

func c11WideJobs(tier string) []fw.Job {
	n := 0
	var l []*sched.Scenario
	var jobs []fw.Job
	add := func(name string, l ...*sched.Scenario) {
		jobs = append(jobs, fw.Job{Name: name, Run: func(c *fw.Ctx) {
			for _, s := range l {
				if n := sched.Explore(c, s, 1); n <= 500 && tier == "thorough" {
					sched.Explore(c, s, 2)
				}
				c.Count("scenarios_of_documents", 1)
			}
		}})
	}
	c11Documents(func(s *zt.Schema, name string, buf []byte) {
		l = append(l, c11Own(s, name, buf, []int{0, 2, 1, 0}), c11Shared(s, name, buf))
		if len(l) >= 6 {
			add(fmt.Sprintf("documents-%d", n), l...)
			n, l = n+1, nil
		}
	})
	add(fmt.Sprintf("documents-%d", n), l...)
	// (Clearing the offsets is one statement per number, so the schemas have
	// small ones; the documents do not.)
	schemas := []func() *zt.Schema{narrowSchema, shifted(10, 1), shifted(120, 1)}
	if tier == "thorough" {
		jobs = append(jobs, wideJobs(wideFamilies(wideOpt{size: 70000, count: 150, every: 3000}), append(schemas, shifted(250, 1)), c11Wide)...)
		return append(jobs, wideJobs([]wideFamily{{"all", wideAll}, {"padding", widePadding}}, []func() *zt.Schema{wideSchema}, c11Wide)...)
	}
	jobs = append(jobs, wideJobs(wideLadders(wideOpt{size: 70000, count: 150}), schemas[:1], c11Wide)...)
	return append(jobs, wideJobs([]wideFamily{{"all", wideAll}, {"padding", widePadding}, {"sizes", wideSizes(1100)}}, schemas[1:], c11Wide)...)
}
