package props

import (
	"fmt"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	"verifmc/fuel"
	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// guarded is a piece of memory in which the contents of length-delimited
// fields can be made inaccessible.
type guarded struct {
	mem   []byte
	page  int
	buf   []byte // the message
	holes [][2]int
}

func newGuarded(c *fw.Ctx, pages int) *guarded {
	page := syscall.Getpagesize()
	mem, err := syscall.Mmap(-1, 0, pages*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		c.Broken("mmap: %v", err)
	}
	return &guarded{mem: mem, page: page}
}

func (g *guarded) start() { g.buf, g.holes = g.mem[:0], nil }

// align appends an unknown field such that the next extra bytes end at a page
// boundary.
func (g *guarded) align(num uint64, extra int) {
	n := len(g.buf)
	tag := len(ref.AppendTag(nil, num, ref.WBytes))
	end := (n + tag + 2 + extra + g.page - 1) / g.page * g.page
	g.buf = ref.AppendTag(g.buf, num, ref.WBytes)
	l := end - extra - (n + tag + 2)
	g.buf = ref.AppendVarintPad(g.buf, uint64(l), 2-len(ref.AppendVarint(nil, uint64(l))))
	g.buf = append(g.buf, make([]byte, l)...)
}

// hole appends pages of contents that nobody may look at.
func (g *guarded) hole(pages int) {
	n := len(g.buf)
	g.buf = g.buf[:n+pages*g.page]
	for i := n; i < len(g.buf); i++ {
		g.buf[i] = 0xff
	}
	g.holes = append(g.holes, [2]int{n, len(g.buf)})
}

func (g *guarded) protect(c *fw.Ctx, prot int) {
	for _, h := range g.holes {
		if err := syscall.Mprotect(g.mem[h[0]:h[1]], prot); err != nil {
			c.Broken("mprotect: %v", err)
		}
	}
}

// gtoken appends one field; guarded ones have their contents in a hole.
type gtoken struct {
	name string
	num  uint64
	put  func(g *guarded)
}

func c21Tokens(s *zt.Schema) []gtoken {
	var l []gtoken
	plain := func(f zt.Field, v ref.V) {
		b := ref.AppendField(nil, f.Num, f.Kind, v)
		l = append(l, gtoken{fmt.Sprintf("%d:%s", f.Num, f.Kind), uint64(f.Num), func(g *guarded) { g.buf = append(g.buf, b...) }})
	}
	hole := func(name string, num uint64, pages int) {
		l = append(l, gtoken{fmt.Sprintf("%d:%s with %d unreadable pages", num, name, pages), num, func(g *guarded) {
			h := ref.AppendVarint(ref.AppendTag(nil, num, ref.WBytes), uint64(pages*g.page))
			g.align(9, len(h))
			g.buf = append(g.buf, h...)
			g.hole(pages)
		}})
	}
	for _, f := range s.Fields {
		switch f.Kind {
		case ref.String, ref.Bytes, ref.Msg, ref.RepMsg:
			hole(f.Kind.String(), uint64(f.Num), 1)
		default:
			plain(f, vals(f.Kind, 2)[1])
		}
	}
	hole("unknown", 7, 1)
	hole("unknown", 3000, 1)
	hole("bytes", 2, 17) // moves what follows beyond 64 KiB
	// A nested message whose own fields are readable but for the last.
	l = append(l, gtoken{"16:message with unreadable contents of its field", 16, func(g *guarded) {
		in := ref.AppendField(nil, 1, ref.Uint64, u(5))
		in = ref.AppendVarint(ref.AppendTag(in, 2, ref.WBytes), uint64(g.page))
		h := ref.AppendVarint(ref.AppendTag(nil, 16, ref.WBytes), uint64(len(in)+g.page))
		g.align(9, len(h)+len(in))
		g.buf = append(append(g.buf, h...), in...)
		g.hole(1)
	}})
	return l
}

// c21Schema: 9, 7 and 3000 are unknown.
func c21Schema() *zt.Schema {
	return zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 2, Kind: ref.Bytes}, zt.Field{Num: 3, Kind: ref.RepMsg},
		zt.Field{Num: 5, Kind: ref.Fixed32}, zt.Field{Num: 6, Kind: ref.Fixed64}, zt.Field{Num: 15, Kind: ref.String}, zt.Field{Num: 16, Kind: ref.Msg})
}

func dataAddr(b []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b))) }

// c21Untouched decodes and reads messages whose length-delimited contents
// cannot be read without a fault.
func c21Untouched(c *fw.Ctx, first, max int) {
	debug.SetPanicOnFault(true)
	s := c21Schema()
	toks := c21Tokens(s)
	if first >= len(toks) {
		return
	}
	g := newGuarded(c, 24+20*max)
	defer syscall.Munmap(g.mem)
	var idx []int
	cur := ""
	c.Cur = func() []string {
		var n []string
		for _, i := range idx {
			n = append(n, toks[i].name)
		}
		return []string{"message [" + strings.Join(n, " | ") + "]", cur}
	}
	m := zt.New(s)
	var occs []ref.Occ
	try := func() {
		g.start()
		for _, i := range idx {
			toks[i].put(g)
		}
		// The reference looks at the contents.
		var ok bool
		if occs, ok = ref.Parse(g.buf, occs[:0]); !ok {
			c.Broken("message not well-formed")
		}
		g.protect(c, syscall.PROT_NONE)
		defer g.protect(c, syscall.PROT_READ|syscall.PROT_WRITE)
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(interface{ Addr() uintptr }); ok {
					c.Fail("%s reads the contents of a field at byte %d", cur, e.Addr()-dataAddr(g.mem))
				}
				panic(r)
			}
		}()
		c.Evaluations++
		if len(g.holes) > 0 {
			c.Nontrivial++
		}
		cur = "Decode"
		if err := m.Decode(s, g.buf); err != nil {
			c.Fail("Decode fails: %v", err)
		}
		for pass := 0; pass < 2; pass++ {
			for _, f := range s.Fields {
				var last *ref.Occ
				var list []*ref.Occ
				for i := range occs {
					if occs[i].Num == uint64(f.Num) {
						last = &occs[i]
						list = append(list, last)
					}
				}
				cur = fmt.Sprintf("reading field %d (%s)", f.Num, f.Kind)
				same := func(addr uintptr, n int, o *ref.Occ) {
					if o == nil && n == 0 {
						return
					}
					if o == nil || n != len(o.B) || addr != dataAddr(o.B) {
						c.Fail("%s gives %d bytes from another place", cur, n)
					}
				}
				switch f.Kind {
				case ref.String:
					x := m.GetRawString(f)
					same(uintptr(unsafe.Pointer(unsafe.StringData(x))), len(x), last)
				case ref.Bytes, ref.Msg:
					x := m.GetRaw(f)
					same(dataAddr(x), len(x), last)
					if f.Kind == ref.Msg && last != nil && len(last.B) > g.page {
						cur = "decoding the nested message"
						in := zt.New(s)
						if err := in.Decode(s, x); err != nil {
							c.Fail("decoding the nested message: %v", err)
						}
						if in.Get(s.Fields[0]).U != 5 || len(in.GetRaw(s.Fields[1])) != g.page {
							c.Fail("the nested message reads %d, %d bytes", in.Get(s.Fields[0]).U, len(in.GetRaw(s.Fields[1])))
						}
					}
				case ref.RepMsg:
					cur = fmt.Sprintf("iterating field %d", f.Num)
					it := m.Iter(f)
					for _, o := range list {
						e, ok := m.Next(&it, f)
						if !ok {
							c.Fail("%s ends early", cur)
						}
						same(dataAddr(e), len(e), o)
					}
					if _, ok := m.Next(&it, f); ok {
						c.Fail("%s does not end", cur)
					}
				default:
					want := ref.V{}
					if last != nil {
						want, _ = ref.Read(f.Kind, last)
					}
					if got := m.Get(f); got.U != want.U {
						c.Fail("%s gives %#x, expected %#x", cur, got.U, want.U)
					}
				}
			}
		}
		if c.WantSample() && len(g.holes) > 1 {
			c.Sample(strings.Join(c.Cur()[:1], "; "))
		}
	}
	var rec func()
	rec = func() {
		if len(idx) > 0 {
			if !c.Step() {
				return
			}
			try()
		}
		if len(idx) == max {
			return
		}
		for i := range toks {
			if len(idx) == 0 && i != first {
				continue
			}
			idx = append(idx, i)
			rec()
			idx = idx[:len(idx)-1]
		}
	}
	rec()
}

// c21Numbers does the same for one field, with every number and kind and
// contents of several sizes, alone, behind and before others.
func c21Numbers(c *fw.Ctx, k ref.Kind, part, parts, every int) {
	debug.SetPanicOnFault(true)
	g := newGuarded(c, 400)
	defer syscall.Munmap(g.mem)
	cur, what := "", ""
	c.Cur = func() []string { return []string{what, cur} }
	var nums []int
	for n := 1; n <= every; n++ {
		nums = append(nums, n)
	}
	for b := uint(4); b <= 17; b++ {
		for d := -1; d <= 1; d++ {
			if n := 1<<b + d; n > every {
				nums = append(nums, n)
			}
		}
	}
	for i, num := range nums {
		if i%parts != part {
			continue
		}
		if !c.Step() {
			return
		}
		if num == 9 {
			continue
		}
		f, o := zt.Field{Num: num, Kind: k}, zt.Field{Num: num + 1, Kind: ref.Uint64}
		if o.Num == 9 {
			o.Num++
		}
		s := zt.NewSchema(f, o)
		m := zt.New(s)
		for _, pages := range []int{1, 2, 5, 16, 17, 130} {
			if pages > 2 && i%16 != pages%16 && num > 300 {
				continue
			}
			g.start()
			other := ref.AppendField(nil, o.Num, ref.Uint64, u(300))
			if i%2 == 0 {
				g.buf = append(g.buf, other...)
			}
			h := ref.AppendVarint(ref.AppendTag(nil, uint64(num), ref.WBytes), uint64(pages*g.page))
			g.align(9, len(h))
			g.buf = append(g.buf, h...)
			at := len(g.buf)
			g.hole(pages)
			if i%2 == 1 {
				g.buf = append(g.buf, other...)
			}
			what = fmt.Sprintf("%s field %d with %d unreadable pages, field %d", k, num, pages, o.Num)
			func() {
				g.protect(c, syscall.PROT_NONE)
				defer g.protect(c, syscall.PROT_READ|syscall.PROT_WRITE)
				defer func() {
					if r := recover(); r != nil {
						if e, ok := r.(interface{ Addr() uintptr }); ok {
							c.Fail("%s reads the contents of the field (byte %d)", cur, e.Addr()-dataAddr(g.mem))
						}
						panic(r)
					}
				}()
				c.Evaluations++
				c.Nontrivial++
				cur = "Decode"
				if err := m.Decode(s, g.buf); err != nil {
					c.Fail("Decode fails: %v", err)
				}
				cur = "reading"
				var p uintptr
				n := 0
				switch k {
				case ref.String:
					x := m.GetRawString(f)
					p, n = uintptr(unsafe.Pointer(unsafe.StringData(x))), len(x)
				case ref.RepMsg:
					cur = "iterating"
					it := m.Iter(f)
					e, _ := m.Next(&it, f)
					p, n = dataAddr(e), len(e)
					if _, ok := m.Next(&it, f); ok {
						c.Fail("iteration does not end")
					}
				default:
					x := m.GetRaw(f)
					p, n = dataAddr(x), len(x)
				}
				if n != pages*g.page || p != dataAddr(g.mem)+uintptr(at) {
					c.Fail("%s gives %d bytes from another place", cur, n)
				}
				cur = "reading the other field"
				if m.Get(s.Fields[1]).U != 300 {
					c.Fail("the other field reads %v", m.Get(s.Fields[1]))
				}
			}()
		}
	}
}

// The budgets are several times what the library needs now, so that they hold
// for any implementation that does the same amount of work per field.
const (
	perField = 150
	perSlot  = 12
	constant = 600
)

// wideCost counts the library statements every operation runs.
func wideCost(c *fw.Ctx, s *zt.Schema) func([]byte, []ref.Occ) {
	m := zt.New(s)
	read := func(when string) {
		for _, f := range s.Fields {
			switch f.Kind {
			case ref.RepMsg:
				var elems, used int64
				it := m.Iter(f)
				used += fuel.Used()
				for {
					_, ok := m.Next(&it, f)
					used += fuel.Used()
					if !ok {
						break
					}
					elems++
				}
				fields := int64(c21Fields)
				if used > perField*(fields+2*elems)+constant {
					c.Fail("iterating field %d %s takes %d statements for a message of %d fields", f.Num, when, used, fields)
				}
				c.SetMax("iteration_statements_per_field_x100", used*100/(fields+elems+1))
			case ref.String:
				_ = m.GetRawString(f)
			case ref.Bytes, ref.Msg:
				_ = m.GetRaw(f)
			default:
				_ = m.Get(f)
			}
			if f.Kind != ref.RepMsg {
				if n := fuel.Used(); n > constant {
					c.Fail("reading field %d (%s) %s takes %d statements", f.Num, f.Kind, when, n)
				} else {
					c.SetMax("read_statements", n)
				}
			}
		}
	}
	// write writes every field: a new one or an element costs the same
	// whatever the message holds, one that is there at most a pass.
	write := func(occs []ref.Occ) {
		for _, f := range s.Fields {
			var v ref.V
			present := false
			for i := range occs {
				present = present || occs[i].Num == uint64(f.Num)
			}
			limit := int64(constant)
			if present && f.Kind != ref.RepMsg {
				limit += perField*int64(len(occs)) + perSlot*int64(len(m.A))
			}
			switch f.Kind {
			case ref.RepMsg:
				for i := 0; i < 2; i++ {
					m.Append(f, []byte{8, 1})
					if n := fuel.Used(); n > limit {
						c.Fail("appending to field %d takes %d statements in a message of %d fields", f.Num, n, len(occs))
					} else {
						c.SetMax("append_statements", n)
					}
				}
				continue
			case ref.String, ref.Bytes, ref.Msg:
				v = ref.V{S: "\x08\x01", Has: f.Kind == ref.Msg}
			default:
				v = u(1)
			}
			m.Set(f, v)
			if n := fuel.Used(); n > limit {
				c.Fail("writing field %d (%s), present: %v, takes %d statements in a message of %d fields", f.Num, f.Kind, present, n, len(occs))
			} else if !present {
				c.SetMax("first_write_statements", n)
			}
		}
	}
	return func(buf []byte, occs []ref.Occ) {
		if !fuel.On {
			return
		}
		c21Fields = len(occs)
		if err := m.Decode(s, buf); err != nil {
			c.Fail("decode: %v", err)
		}
		used := fuel.Used()
		if used > perField*int64(len(occs))+perSlot*int64(len(m.A))+constant {
			c.Fail("Decode takes %d statements for %d fields in %d bytes (largest field number %d)", used, len(occs), len(buf), s.Max)
		}
		c.SetMax("decode_statements", used)
		if len(occs) > 1000 {
			c.SetMax("decode_statements_per_field_x100", used*100/int64(len(occs)))
		}
		read("after decoding")
		// The same after an edit.
		if len(buf) < 1<<16 {
			n := m.Clone(64)
			keep := m
			m = n
			write(occs)
			c21Fields += 2 * len(s.Fields)
			read("after editing")
			m = keep
		}
	}
}

var c21Fields int

// wideFar has every field number up to a bound, from the start of the message
// or beyond byte 65535.
func wideFar(s *zt.Schema, part, parts int, f func(string, []byte) bool) bool {
	n := 0
	for _, far := range []bool{false, true} {
		for _, top := range []int{1, 2, 5, 10, 30, 100, 300, 1000, 3000, 6000} {
			for _, twice := range []bool{false, true} {
				if n++; n%parts != part {
					continue
				}
				var b []byte
				if far {
					b = ref.AppendField(b, 2, ref.Bytes, sv(string(make([]byte, 65535))))
				}
				add := func() {
					for i := 1; i <= top; i++ {
						k := ref.Uint64
						if known, ok := s.ByNum(i); ok {
							k = known.Kind
						}
						v := u(uint64(i))
						if k.WireType() == ref.WBytes {
							v = sv("\x08\x01")
						}
						b = ref.AppendField(b, i, k, v)
					}
				}
				add()
				if twice {
					add()
				}
				if !f(fmt.Sprintf("every field number to %d, beyond 64 KiB: %v, twice: %v", top, far, twice), b) {
					return false
				}
			}
		}
	}
	return true
}

// c21Growth builds messages up to a size by many writes, for every size of
// element, and counts how often the buffer is moved: at most as often as
// growing by a tenth each time would.
func c21Growth(c *fw.Ctx, limit int) {
	s := c21Schema()
	for _, size := range []int{0, 1, 2, 7, 30, 100, 127, 128, 1000, 5000} {
		for _, way := range []string{"appending elements", "lengthening a string", "lengthening bytes", "appending elements and rewriting numbers"} {
			if !c.Step() {
				return
			}
			c.Cur = func() []string { return []string{fmt.Sprintf("%s, %d bytes at a time", way, size)} }
			c.Evaluations++
			c.Nontrivial++
			m := zt.New(s)
			elem := make([]byte, size)
			long := make([]byte, limit+size)
			moves, allowed, last, copied := 0, 8, 64, 0
			for n := 1; len(m.Buf) < limit && n < 200000; n++ {
				was := dataAddr(m.Buf[:cap(m.Buf)])
				switch way {
				case "appending elements":
					m.Append(s.Fields[2], elem)
				case "lengthening a string":
					m.SetRawString(s.Fields[5], unsafe.String(&long[0], min(n*(size+1), limit)))
				case "lengthening bytes":
					m.SetRaw(s.Fields[1], long[:min(n*(size+1), limit)])
				default:
					m.Append(s.Fields[2], elem)
					m.Set(s.Fields[0], u(uint64(n)))
					m.Set(s.Fields[4], u(uint64(n)))
				}
				if n := fuel.Used(); n > constant+perSlot*int64(len(m.A)) {
					c.Fail("writing to a message of %d bytes takes %d statements", len(m.Buf), n)
				}
				if n%256 == 0 && !c.Step() {
					return
				}
				if way[0] == 'l' {
					if copied += len(m.Buf); copied > 1<<28 {
						break
					}
				}
				if dataAddr(m.Buf[:cap(m.Buf)]) != was {
					moves++
				}
				for last < len(m.Buf) {
					last += last/10 + 1
					allowed++
				}
				if moves > allowed {
					c.Fail("the buffer is moved %d times while the message grows to %d bytes by %d writes", moves, len(m.Buf), n)
				}
			}
			c.SetMax("growth_moves", int64(moves))
		}
	}
}

func init() {
	register(&fw.Prop{ID: "C21", Level: "exploration",
		Rule: "an evaluation is one message that is decoded and read completely; non-trivial: it has a field with unreadable contents, or more than one field",
		Notes: []string{
			"contents of length-delimited fields are put on pages that fault on access; a fault is a violation",
			fmt.Sprintf("work is counted in statements of package zeropb (build overlay): at most %d per top-level field, %d per offset slot and %d per operation, several times the present need", perField, perSlot, constant),
		},
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			max := 5
			if tier == "thorough" {
				max = 6
			}
			n := len(c21Tokens(c21Schema()))
			for i := 0; i < n; i++ {
				i := i
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("untouched-%d", i), Run: func(c *fw.Ctx) { c21Untouched(c, i, max) }})
			}
			every := 2200
			if tier == "thorough" {
				every = 17000
			}
			for _, k := range []ref.Kind{ref.String, ref.Bytes, ref.Msg, ref.RepMsg} {
				for part := 0; part < 4; part++ {
					k, part := k, part
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("untouched-numbers-%s-%d", k, part), Run: func(c *fw.Ctx) { c21Numbers(c, k, part, 4, every) }})
				}
			}
			jobs = append(jobs, fw.Job{Name: "growth", Run: func(c *fw.Ctx) { c21Growth(c, 1<<20) }})
			o := wideOpt{1 << 17, 20000, 40000}
			if tier == "thorough" {
				o = wideOpt{1 << 22, 70000, 40000}
			}
			fams := append(wideFamilies(o), wideFamily{"far", wideFar})
			jobs = append(jobs, shiftedJobs(tier, wideCost)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c21"), anyField(wideCost))...)
			return append(jobs, wideJobs(fams, bothSchemas, wideCost)...)
		}})
}
