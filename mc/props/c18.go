package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/danhhz/zeropb/golden/testzeropb"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// scalarProbe round-trips single values.
type scalarProbe struct {
	c    *fw.Ctx
	s    *zt.Schema
	f    zt.Field
	m    *zt.Msg // written: keeps its neighbours across values
	d    *zt.Msg // decoded
	pre  []byte
	want []byte
	cur  ref.V
	what string
}

// newScalar places the field (number num) between two others.
func newScalar(c *fw.Ctx, k ref.Kind, num int) *scalarProbe {
	p := &scalarProbe{c: c, f: zt.Field{Num: num, Kind: k}}
	p.s = zt.NewSchema(p.f, zt.Field{Num: num + 1, Kind: ref.Uint64}, zt.Field{Num: num + 2, Kind: ref.Bytes})
	p.m, p.d = zt.New(p.s), zt.New(p.s)
	// What follows when decoded, so that values are not at the end.
	p.pre = ref.AppendField(p.pre, num+1, ref.Uint64, u(1<<40))
	p.pre = ref.AppendField(p.pre, num+2, ref.Bytes, sv("\xff\x80neighbour"))
	p.c.Cur = func() []string { return []string{fmt.Sprintf("%s field %d = %s", k, num, short(p.cur)), p.what} }
	return p
}

// word makes the value of the kind whose bits are x.
func (p *scalarProbe) word(x uint64) ref.V {
	switch p.f.Kind {
	case ref.Bool:
		return ref.V{U: x & 1}
	case ref.Int32, ref.Sint32, ref.Sfixed32:
		return ref.V{U: uint64(int64(int32(uint32(x))))}
	case ref.Uint32, ref.Enum, ref.Fixed32, ref.Float:
		return ref.V{U: x & 0xffffffff}
	}
	return ref.V{U: x}
}

func (p *scalarProbe) try(v ref.V) bool {
	p.cur = v
	if !p.c.Step() {
		return false
	}
	p.c.Evaluations++
	p.c.Nontrivial++
	// Written alone into an empty buffer: the canonical bytes.
	p.what = "set in an empty message, encode"
	p.m.Reset(p.m.Buf[:0])
	p.m.Set(p.f, v)
	p.want = ref.AppendField(p.want[:0], p.f.Num, p.f.Kind, v)
	if string(p.m.Buf) != string(p.want) {
		p.c.Fail("encoded as %x, canonical is %x", p.m.Buf, p.want)
	}
	p.what = "set, get"
	if got := p.m.Get(p.f); got != v {
		p.c.Fail("reads %v", got)
	}
	p.what = "decode, get"
	p.want = append(p.want, p.pre...)
	if err := p.d.Decode(p.s, p.want); err != nil {
		p.c.Fail("decode: %v", err)
	}
	if got := p.d.Get(p.f); got != v {
		p.c.Fail("reads %v", got)
	}
	return true
}

// rewrite checks v overwriting w with neighbours present.
func (p *scalarProbe) rewrite(w, v ref.V) bool {
	p.cur = v
	p.what = fmt.Sprintf("overwriting %s among neighbours", short(w))
	if !p.c.Step() {
		return false
	}
	p.c.Evaluations++
	p.m.Reset(nil)
	p.m.Set(p.s.Fields[1], u(300))
	p.m.Set(p.f, w)
	p.m.Set(p.s.Fields[2], sv("nb"))
	p.m.Set(p.f, v)
	if got := p.m.Get(p.f); got != v {
		p.c.Fail("reads %v", got)
	}
	if p.m.Get(p.s.Fields[1]) != u(300) || p.m.Get(p.s.Fields[2]) != sv("nb") {
		p.c.Fail("neighbours read %v and %v", p.m.Get(p.s.Fields[1]), p.m.Get(p.s.Fields[2]))
	}
	if err := p.d.Decode(p.s, append([]byte(nil), p.m.Buf...)); err != nil {
		p.c.Fail("decode: %v", err)
	}
	if got := p.d.Get(p.f); got != v {
		p.c.Fail("reads %v after decoding", got)
	}
	return true
}

var patternList []uint64

// patterns64 enumerates the structured set of 64-bit words, each once.
func patterns64(f func(uint64) bool) bool {
	if patternList == nil {
		rawPatterns64(func(x uint64) bool { patternList = append(patternList, x); return true })
		sort.Slice(patternList, func(i, j int) bool { return patternList[i] < patternList[j] })
		n := 0
		for i, x := range patternList {
			if i == 0 || x != patternList[n-1] {
				patternList[n] = x
				n++
			}
		}
		patternList = patternList[:n]
	}
	for _, x := range patternList {
		if !f(x) {
			return false
		}
	}
	return true
}

func rawPatterns64(f func(uint64) bool) bool {
	both := func(x uint64) bool { return f(x) && f(^x) }
	for x := uint64(0); x < 1<<16; x++ {
		for sh := uint(0); sh < 64; sh += 8 {
			if !both(x << sh) {
				return false
			}
		}
	}
	for i := uint(0); i < 64; i++ {
		for j := i; j < 64; j++ {
			for k := j; k < 64; k++ {
				if !both(uint64(1)<<i | uint64(1)<<j | uint64(1)<<k) {
					return false
				}
			}
			// Runs of ones and their arithmetic neighbours.
			run := (^uint64(0) >> (63 - (j - i))) << i
			for d := uint64(0); d < 4; d++ {
				if !both(run+d) || !both(run-d) {
					return false
				}
			}
		}
	}
	return true
}

var word32 = []ref.Kind{ref.Int32, ref.Uint32, ref.Sint32, ref.Fixed32, ref.Sfixed32, ref.Float, ref.Enum}
var word64 = []ref.Kind{ref.Int64, ref.Uint64, ref.Sint64, ref.Fixed64, ref.Sfixed64, ref.Double}

// halves are the upper or lower 16 bits combined with every other half.
func halves() []uint64 {
	l := []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x4000, 0x7f7f, 0x7f80, 0x7f81, 0x7fc0, 0x7fff, 0x8000, 0x8001, 0x8080, 0xaaaa, 0x5555, 0xff7f, 0xff80, 0xff81, 0xffbf, 0xfffe, 0xffff}
	for i := uint(0); i < 16; i++ {
		l = append(l, 1<<i, 0xffff^(1<<i))
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	n := 0
	for i, x := range l {
		if i == 0 || x != l[n-1] {
			l[n] = x
			n++
		}
	}
	return l[:n]
}

// foreign decodes values as other implementations may encode them: padded,
// sign-extended or truncated varints.
func foreign(c *fw.Ctx, k ref.Kind) {
	p := newScalar(c, k, 3)
	var occs []ref.Occ
	enc := func(x uint64, pad int) bool {
		buf := ref.AppendTag(nil, 3, ref.WVarint)
		n := ref.VarintLen(x)
		if n+pad > 10 {
			return true
		}
		buf = ref.AppendVarintPad(buf, x, pad)
		if !c.Step() {
			return false
		}
		c.Evaluations++
		occs, _ = ref.Parse(buf, occs[:0])
		want, definite := ref.Read(k, &occs[0])
		if !definite {
			return true
		}
		p.cur, p.what = want, fmt.Sprintf("decode %x", buf)
		if err := p.d.Decode(p.s, buf); err != nil {
			c.Fail("decode: %v", err)
		}
		if got := p.d.Get(p.f); got != want {
			c.Fail("reads %v", got)
		}
		return true
	}
	if k.WireType() != ref.WVarint {
		return
	}
	patterns64(func(x uint64) bool {
		for pad := 0; pad < 10; pad += 3 {
			if !enc(x, pad) {
				return false
			}
		}
		return true
	})
}

// lengthy round-trips strings and bytes: every content up to two bytes, every
// length up to 300 and around the length prefix boundaries.
func lengthy(c *fw.Ctx, k ref.Kind) {
	p := newScalar(c, k, 3)
	if !bytesOver(allBytes(), nil, 2, func(b []byte) bool { return p.try(sv(string(b))) }) {
		return
	}
	bytesOver([]byte{0, 1, 0x0a, 0x1a, 0x22, 0x7f, 0x80, 0xc3, 0xed, 0xff}, nil, 5, func(b []byte) bool { return len(b) < 3 || p.try(sv(string(b))) })
	var ns []int
	for n := 0; n < 300; n++ {
		ns = append(ns, n)
	}
	for n := 16380; n < 16390; n++ {
		ns = append(ns, n)
	}
	for n := 65500; n < 65540; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 1<<21-1, 1<<21, 1<<21+1)
	for _, n := range ns {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i>>8)
		}
		if !p.try(sv(string(b))) || !p.try(sv(strings.Repeat("\x80", n))) {
			return
		}
	}
	for _, a := range ns[:300] {
		for _, b := range []int{0, 1, 126, 127, 128, 129, 299} {
			if !p.rewrite(sv(strings.Repeat("\x0a", a)), sv(strings.Repeat("\x80", b))) {
				return
			}
		}
	}
}

// c18Golden checks every accessor pair of the generated TestMessage.
func c18Golden(c *fw.Ctx) {
	var m testzeropb.TestMessage
	cur := uint64(0)
	what := ""
	c.Cur = func() []string { return []string{fmt.Sprintf("generated accessors %s, bits %#x", what, cur)} }
	buf := make([]byte, 0, 256)
	patterns64(func(x uint64) bool {
		cur = x
		if !c.Step() {
			return false
		}
		refuelGolden()
		c.Evaluations++
		bad := func(name string) { c.Fail("%s does not read back", name) }
		m.Reset(buf[:0])
		check := func(pass string) {
			what = pass
			if m.Bool() != (x&1 == 1) {
				bad("bool")
			}
			if m.Int32() != int32(x) {
				bad("int32")
			}
			if m.Int64() != int64(x) {
				bad("int64")
			}
			if m.Uint32() != uint32(x) {
				bad("uint32")
			}
			if m.Uint64() != x {
				bad("uint64")
			}
			if m.Sint32() != int32(x) {
				bad("sint32")
			}
			if m.Sint64() != int64(x) {
				bad("sint64")
			}
			if m.Fixed32() != uint32(x) {
				bad("fixed32")
			}
			if m.Fixed64() != x {
				bad("fixed64")
			}
			if m.Sfixed32() != int32(x) {
				bad("sfixed32")
			}
			if m.Sfixed64() != int64(x) {
				bad("sfixed64")
			}
			if math.Float64bits(m.Double()) != x {
				bad("double")
			}
			if math.Float32bits(m.Float()) != uint32(x) {
				bad("float")
			}
			if m.Enum() != uint32(x) {
				bad("enum")
			}
		}
		what = "set"
		m.SetBool(x&1 == 1)
		m.SetInt32(int32(x))
		m.SetInt64(int64(x))
		m.SetUint32(uint32(x))
		m.SetUint64(x)
		m.SetSint32(int32(x))
		m.SetSint64(int64(x))
		m.SetFixed32(uint32(x))
		m.SetFixed64(x)
		m.SetSfixed32(int32(x))
		m.SetSfixed64(int64(x))
		m.SetDouble(math.Float64frombits(x))
		m.SetFloat(math.Float32frombits(uint32(x)))
		m.SetEnum(uint32(x))
		check("set, get")
		if err := m.Decode(m.Encode()); err != nil {
			c.Fail("decode: %v", err)
		}
		check("decode, get")
		return true
	})
}

func init() {
	register(&fw.Prop{ID: "C18", Level: "exploration",
		Rule: "32-bit types: every value with one half in a structured set (thorough: all 2^32 values); 64-bit types: all words with at most three set or clear bits, any 16-bit window, runs; all types: every value from -2^21 to 2^21; strings and bytes: every content up to three bytes and every length up to 70000 and around prefix boundaries; each value is written, compared with canonical bytes, read, decoded and read (non-trivial: every such value, once per set it is in and per type); evaluations also count overwrites among neighbours, foreign encodings and generated accessors",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			for _, k := range append(append([]ref.Kind{}, word64...), ref.Bool) {
				k := k
				jobs = append(jobs, fw.Job{Name: "bits-" + k.String(), Run: func(c *fw.Ctx) {
					p := newScalar(c, k, 3)
					if k == ref.Bool {
						p.try(u(0))
						p.try(u(1))
						return
					}
					patterns64(func(x uint64) bool { return p.try(p.word(x)) })
				}})
			}
			for _, k := range word32 {
				k := k
				if tier == "thorough" {
					for part := uint64(0); part < 64; part++ {
						part := part
						jobs = append(jobs, fw.Job{Name: fmt.Sprintf("all-%s-%d", k, part), Run: func(c *fw.Ctx) {
							p := newScalar(c, k, 3)
							for x := part << 26; x < (part+1)<<26; x++ {
								if !p.try(p.word(x)) {
									return
								}
							}
						}})
					}
					continue
				}
				jobs = append(jobs, fw.Job{Name: "halves-" + k.String(), Run: func(c *fw.Ctx) {
					p := newScalar(c, k, 3)
					hs := halves()
					in := map[uint64]bool{}
					for _, h := range hs {
						in[h] = true
					}
					for _, h := range hs {
						for x := uint64(0); x < 1<<16; x++ {
							if !p.try(p.word(h<<16|x)) || !in[x] && !p.try(p.word(x<<16|h)) {
								return
							}
						}
					}
				}})
			}
			for _, k := range ref.Scalars {
				k := k
				if k.WireType() != ref.WBytes && k != ref.Bool {
					const parts = 4
					for part := uint64(0); part < parts; part++ {
						part := part
						jobs = append(jobs, fw.Job{Name: fmt.Sprintf("small-%s-%d", k, part), Run: func(c *fw.Ctx) {
							p := newScalar(c, k, 3)
							for x := part; x < 1<<21; x += parts {
								if !p.try(p.word(x)) || !p.try(p.word(-x)) {
									return
								}
							}
						}})
					}
				}
				if k == ref.String || k == ref.Bytes {
					const parts = 16
					for part := 0; part < parts; part++ {
						part := part
						jobs = append(jobs, fw.Job{Name: fmt.Sprintf("triples-%s-%d", k, part), Run: func(c *fw.Ctx) {
							p := newScalar(c, k, 3)
							var b [3]byte
							for x := part; x < 1<<24; x += parts {
								b[0], b[1], b[2] = byte(x), byte(x>>8), byte(x>>16)
								if !p.try(sv(string(b[:]))) {
									return
								}
							}
						}}, fw.Job{Name: fmt.Sprintf("lengths-%s-%d", k, part), Run: func(c *fw.Ctx) {
							p := newScalar(c, k, 3)
							for n := part; n < 70000; n += parts {
								if !p.try(sv(big(n))) {
									return
								}
							}
						}})
					}
				}
				jobs = append(jobs, fw.Job{Name: "foreign-" + k.String(), Run: func(c *fw.Ctx) { foreign(c, k) }})
				jobs = append(jobs, fw.Job{Name: "rewrite-" + k.String(), Run: func(c *fw.Ctx) {
					if k.Lenlike() {
						lengthy(c, k)
						return
					}
					p := newScalar(c, k, 14)
					var l []ref.V
					for i := uint(0); i < 64; i++ {
						l = append(l, p.word(1<<i), p.word(1<<i-1), p.word(-(1 << i)), p.word(^uint64(0)>>i))
					}
					for _, w := range l {
						for _, v := range l {
							if !p.rewrite(w, v) {
								return
							}
						}
					}
				}})
			}
			jobs = append(jobs, fw.Job{Name: "golden", Run: c18Golden})
			return jobs
		}})
}
