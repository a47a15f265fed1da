package props

import (
	"fmt"
	"syscall"
	"unsafe"

	"github.com/danhhz/zeropb"

	"verifmc/fuel"
	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// Sweeps over all field numbers there are, 1 to 2^29-1.

// sweepNumbers calls f for the numbers of one part; in the quick tier only
// for all below 2^24 and a structured set beyond.
func sweepNumbers(c *fw.Ctx, part, parts int, f func(n int)) {
	const block = 1 << 16
	for b := part; b < (ref.MaxNum+1)/block; b += parts {
		if !c.Step() {
			return
		}
		step := 1
		if b >= 1<<8 && !c.Thorough() {
			step = 521 // prime: all residues modulo powers of two over the blocks
		}
		for n := b*block + b%step; n < (b+1)*block; n += step {
			if n > 0 {
				f(n)
			}
		}
		if step > 1 {
			f(b * block)
			f(b*block + block - 1)
		}
	}
}

// allUnknown has the number as a field that the schema does not know.
func allUnknown(c *fw.Ctx, part, parts int) {
	s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 3, Kind: ref.RepMsg}, zt.Field{Num: 6, Kind: ref.Bytes})
	m := zt.New(s)
	first, last := fieldTok(3, ref.RepMsg, sv("\x08\x01")).B, fieldTok(3, ref.RepMsg, sv("")).B
	one, other := fieldTok(1, ref.Uint64, u(300)).B, fieldTok(1, ref.Uint64, u(5)).B
	mem, want, tok := make([]byte, 0, 128), make([]byte, 0, 128), make([]byte, 0, 64)
	var cur int
	var wt int
	c.Cur = func() []string {
		return []string{fmt.Sprintf("decode [3 | %d:wire type %d | 1=300 | 3 | %d:wire type %d] = %x", cur, wt, cur, wt, mem)}
	}
	sweepNumbers(c, part, parts, func(n int) {
		if n == 1 || n == 3 || n == 6 {
			return
		}
		for i := range wireTypes {
			if !c.Thorough() && i != (n+n>>2+n>>9)%4 {
				continue
			}
			cur, wt = n, wireTypes[i]
			tok = append(ref.AppendTag(tok[:0], uint64(n), wt), payloads[wt]...)
			mem = append(append(append(append(append(mem[:0], first...), tok...), one...), last...), tok...)
			c.Evaluations++
			c.Nontrivial++
			if err := m.Decode(s, mem); err != nil {
				c.Fail("Decode of a well-formed message fails: %v", err)
			}
			if x := zeropb.GetUint64(m.Buf, zeropb.WrapOffsets(m.A, &m.M), 1); x != 300 {
				c.Fail("field 1 reads %d", x)
			}
			if m.GetRaw(s.Fields[2]) != nil {
				c.Fail("field 6 is there")
			}
			it := m.Iter(s.Fields[1])
			e1, ok1 := m.Next(&it, s.Fields[1])
			e2, ok2 := m.Next(&it, s.Fields[1])
			_, ok3 := m.Next(&it, s.Fields[1])
			if !ok1 || !ok2 || ok3 || len(e1) != 2 || len(e2) != 0 {
				c.Fail("field 3 iterates as %x %v, %x %v, %v", e1, ok1, e2, ok2, ok3)
			}
			m.Set(s.Fields[0], u(5))
			want = append(append(append(append(append(want[:0], first...), tok...), last...), tok...), other...)
			if string(m.Buf) != string(want) {
				c.Fail("after setting field 1 the message is %x, expected %x", m.Buf, want)
			}
		}
	})
}

// allKnown has the number as a field of the schema: a first write, a read, a
// rewrite in place, and two elements and their iteration. Only the slot of
// the number itself is ever looked at, so that the table of up to 2^29 slots
// stays virtual.
func allKnown(c *fw.Ctx, part, parts int) {
	table, err := syscall.Mmap(-1, 0, 2*(ref.MaxNum+1), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		c.Broken("mmap: %v", err)
	}
	defer syscall.Munmap(table)
	slots := unsafe.Slice((*uint16)(unsafe.Pointer(&table[0])), ref.MaxNum+1)
	mem, want := make([]byte, 0, 128), make([]byte, 0, 128)
	var cur int
	how := ""
	var buf []byte
	c.Cur = func() []string {
		return []string{fmt.Sprintf("field number %d", cur), how, fmt.Sprintf("bytes %x", buf)}
	}
	back := 0
	sweepNumbers(c, part, parts, func(n int) {
		cur = n
		if n-back > 1<<22 || n < back {
			// Give the pages of the slots behind us back.
			lo := back * 2 &^ 4095
			if hi := n * 2 &^ 4095; hi > lo {
				_ = syscall.Madvise(table[lo:hi], syscall.MADV_DONTNEED)
			}
			back = n
		}
		c.Evaluations++
		c.Nontrivial++
		var over map[int]uint64
		off := zeropb.WrapOffsets(slots[:n+1], &over)
		if fuel.On {
			fuel.Set(20000)
		}
		buf, slots[n] = mem[:0], 0
		check := func(ok bool) {
			if !ok || string(buf) != string(want) {
				c.Fail("%s: encoded as %x, expected %x, or reads wrongly", how, buf, want)
			}
		}
		switch n % 4 {
		case 0:
			how = "set uint64 300, then 301"
			for x := uint64(300); x < 302; x++ {
				zeropb.SetUint64(&buf, off, n, x)
				want = ref.AppendVarint(ref.AppendTag(want[:0], uint64(n), 0), x)
				check(zeropb.GetUint64(buf, off, n) == x)
			}
		case 1:
			how = "set string abc, then xyz"
			for _, x := range [2]string{"abc", "xyz"} {
				zeropb.SetString(&buf, off, n, x)
				want = append(append(ref.AppendTag(want[:0], uint64(n), 2), 3), x...)
				check(zeropb.GetString(buf, off, n) == x)
			}
		case 2:
			how = "set fixed32 5, then 1<<31"
			for _, x := range [2]uint32{5, 1 << 31} {
				zeropb.SetFixedUint32(&buf, off, n, x)
				want = append(ref.AppendTag(want[:0], uint64(n), 5), byte(x), 0, 0, byte(x>>24))
				check(zeropb.GetFixedUint32(buf, off, n) == x)
			}
		default:
			how = "set fixed64 5, then 1<<63"
			for _, x := range [2]uint64{5, 1 << 63} {
				zeropb.SetFixedUint64(&buf, off, n, x)
				want = append(ref.AppendTag(want[:0], uint64(n), 1), byte(x), 0, 0, 0, 0, 0, 0, byte(x>>56))
				check(zeropb.GetFixedUint64(buf, off, n) == x)
			}
		}
		buf, slots[n] = mem[:0], 0
		how = "append two elements and iterate"
		zeropb.AppendBytes(&buf, off, n, []byte{8, 1})
		zeropb.AppendBytes(&buf, off, n, nil)
		want = append(ref.AppendTag(want[:0], uint64(n), 2), 2, 8, 1)
		want = append(ref.AppendTag(want, uint64(n), 2), 0)
		it := zeropb.GetRepeatedNonPacked(buf, off, n)
		it, e1 := zeropb.FindNextField(it, n)
		it, e2 := zeropb.FindNextField(it, n)
		_, e3 := zeropb.FindNextField(it, n)
		check(len(e1) == 2 && e2 != nil && len(e2) == 0 && e3 == nil)
		slots[n] = 0
	})
}

func allNumberJobs() []fw.Job {
	var jobs []fw.Job
	const parts = 64
	for part := 0; part < parts; part++ {
		part := part
		jobs = append(jobs, fw.Job{Name: fmt.Sprintf("all-unknown-%d", part), Run: func(c *fw.Ctx) { allUnknown(c, part, parts) }},
			fw.Job{Name: fmt.Sprintf("all-known-%d", part), Run: func(c *fw.Ctx) { allKnown(c, part, parts) }})
	}
	return jobs
}
