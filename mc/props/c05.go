package props

import (
	"fmt"
	"strings"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// c05Schema declares a few fields; everything else is unknown.
func c05Schema() *zt.Schema {
	s := zt.NewSchema(zt.Field{Num: 1, Kind: ref.Uint64}, zt.Field{Num: 2, Kind: ref.Bytes}, zt.Field{Num: 3, Kind: ref.RepMsg})
	s.Max = 4
	return s
}

// decodeVerdict runs Decode and compares acceptance with the reference.
type decodeVerdict struct {
	c    *fw.Ctx
	s    *zt.Schema
	m    *zt.Msg
	occs []ref.Occ
	cur  []byte
	from string
	// padded says to decode the input also with spare capacity behind it, holding
	// bytes that would complete it.
	padded bool
	arena  []byte
}

var behind = []string{strings.Repeat("\x00", 40), strings.Repeat("\x08", 40), strings.Repeat("\xff", 40)}

func newVerdict(c *fw.Ctx, from string) *decodeVerdict {
	d := &decodeVerdict{c: c, s: c05Schema(), from: from}
	d.m = zt.New(d.s)
	c.Cur = func() []string { return []string{d.from, fmt.Sprintf("decode %x", d.cur)} }
	return d
}

func (d *decodeVerdict) try(buf []byte) bool {
	d.cur = buf
	if !d.c.Step() {
		return false
	}
	d.c.Evaluations++
	var ok bool
	d.occs, ok = ref.Parse(buf, d.occs[:0])
	err := d.m.Decode(d.s, buf)
	if (err == nil) != ok {
		if ok {
			d.c.Fail("Decode rejects a well-formed message: %v", err)
		}
		d.c.Fail("Decode accepts a malformed message (well-formed up to field %d of it)", len(d.occs))
	}
	if d.padded {
		d.arena = append(d.arena[:0], buf...)
		d.arena = append(d.arena, behind[d.c.Evaluations%3]...)
		if (d.m.Decode(d.s, d.arena[:len(buf)]) == nil) != ok {
			d.c.Fail("Decode's verdict depends on what lies behind the message (%x)", d.arena[len(buf):])
		}
	}
	if len(d.occs) > 0 {
		d.c.Nontrivial++
		if len(buf) > 4 && d.c.WantSample() {
			d.c.Sample(fmt.Sprintf("%x accepted=%v", buf, ok))
		}
	}
	if ok {
		d.c.Count("accepted", 1)
	} else {
		d.c.Count("rejected", 1)
	}
	return true
}

var critical = []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0d, 0x10, 0x12, 0x1a, 0x7f, 0x80, 0x81, 0x88, 0xfe, 0xff}

// bytesOver enumerates all byte strings of length 0..max over alpha starting
// with prefix.
func bytesOver(alpha []byte, prefix []byte, max int, f func([]byte) bool) bool {
	buf := make([]byte, len(prefix), max)
	copy(buf, prefix)
	var rec func() bool
	rec = func() bool {
		if !f(buf) {
			return false
		}
		if len(buf) == max {
			return true
		}
		for _, b := range alpha {
			buf = append(buf, b)
			ok := rec()
			buf = buf[:len(buf)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	return rec()
}

func allBytes() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

// extremeVarints are varints at and beyond every limit.
func extremeVarints() []Token {
	var t []Token
	for _, n := range []int{9, 10, 11, 12, 20} {
		for _, last := range []byte{0x00, 0x01, 0x02, 0x7f} {
			b := make([]byte, n)
			for i := range b {
				b[i] = 0xff
			}
			b[n-1] = last
			t = append(t, tok(fmt.Sprintf("%d-byte varint ..%02x", n, last), b))
			z := make([]byte, n)
			for i := range z {
				z[i] = 0x80
			}
			z[n-1] = last
			t = append(t, tok(fmt.Sprintf("%d-byte padded varint ..%02x", n, last), z))
		}
	}
	// lengths close to 2^64 turn negative as signed numbers; 2^31, 2^32, 2^63
	// wrap narrower integers.
	for k := uint64(1); k <= 40; k++ {
		t = append(t, tok(fmt.Sprintf("2^64-%d", k), ref.AppendVarint(nil, -k)))
	}
	for _, base := range []uint64{1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 62, 1 << 63, 1<<63 + 1<<32} {
		for d := int64(-14); d <= 14; d++ {
			t = append(t, tok(fmt.Sprintf("%#x%+d", base, d), ref.AppendVarint(nil, base+uint64(d))))
		}
	}
	for x := uint64(0); x < 24; x++ {
		t = append(t, tok(fmt.Sprint(x), ref.AppendVarint(nil, x)))
	}
	return t
}

func c05Extreme(c *fw.Ctx, wt int, maxPre int) {
	d := newVerdict(c, "extreme varints")
	d.padded = true
	pre := []Token{
		rawTok("1:1", 1, 0, 0, []byte{1}), rawTok("1:max", 1, 0, 0, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}),
		rawTok("2:3 bytes", 2, 2, 0, []byte{3, 8, 8, 8}), rawTok("2:12 bytes", 2, 2, 0, append([]byte{12}, make([]byte, 12)...)),
		rawTok("3:elem", 3, 2, 0, []byte{0}), rawTok("4:fixed32", 4, 5, 0, []byte{8, 1, 8, 1}), rawTok("9:fixed64", 9, 1, 0, []byte{8, 1, 8, 1, 8, 1, 8, 1}),
		rawTok("2000:varint", 2000, 0, 0, []byte{7}),
	}
	post := [][]byte{nil, {0}, {8, 1}, {1, 2, 3, 4, 5, 6, 7, 8}, {0x1a, 0x00}, make([]byte, 30)}
	ex := extremeVarints()
	seqs(pre, maxPre, -1, func(p []byte, idx []int) bool {
		for _, num := range []uint64{0, 1, 2, 3, 4, 5, 15, 16, 2047, 2048, ref.MaxNum, ref.MaxNum + 1, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<60 + 1, 1<<61 - 1} {
			for _, x := range ex {
				for _, q := range post {
					buf := append([]byte(nil), p...)
					buf = ref.AppendTag(buf, num, wt)
					buf = append(buf, x.B...)
					buf = append(buf, q...)
					if !d.try(buf) {
						return false
					}
				}
			}
		}
		// The extreme varint as a tag.
		if wt == 0 {
			for _, x := range ex {
				for _, q := range post {
					buf := append(append(append([]byte(nil), p...), x.B...), q...)
					if !d.try(buf) {
						return false
					}
				}
			}
		}
		return true
	})
}

func c05Trunc(c *fw.Ctx, k ref.Kind, max int) {
	d := newVerdict(c, "truncations")
	d.padded = true
	_, toks := decodeSchema(k)
	for wt := 3; wt < 8; wt++ {
		if wt != 5 {
			toks = append(toks, rawTok(fmt.Sprintf("1:wiretype %d", wt), 1, wt, 0, []byte{1}), rawTok(fmt.Sprintf("unknown wiretype %d", wt), 99, wt, 0, []byte{1}))
		}
	}
	toks = append(toks, rawTok("field number 0", 0, 0, 0, []byte{1}), rawTok("field number too large", ref.MaxNum+1, 0, 0, []byte{1}))
	seqs(toks, max, -1, func(buf []byte, idx []int) bool {
		// The last token is truncated at every byte (shorter prefixes are
		// covered by shorter sequences).
		lo := 0
		if len(idx) > 0 {
			lo = len(buf) - len(toks[idx[len(idx)-1]].B) + 1
		}
		for n := lo; n <= len(buf); n++ {
			if !d.try(buf[:n:n]) {
				return false
			}
		}
		return true
	})
}

func init() {
	register(&fw.Prop{ID: "C05", Level: "exploration",
		Rule: "every byte string over all 256 bytes up to the full bound and over a 21-byte critical alphabet up to the critical bound; every truncation of every bounded token sequence; every extreme varint as tag, value and length in every bounded context; non-trivial: at least one complete field precedes the end or the defect",
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			crit, full, trunc, pre := 6, 3, 3, 2
			if tier == "thorough" {
				crit, full, trunc, pre = 7, 4, 4, 3
			}
			jobs = append(jobs, fw.Job{Name: "short", Run: func(c *fw.Ctx) {
				d := newVerdict(c, "all strings")
				d.padded = true
				bytesOver(allBytes(), nil, 2, d.try)
			}})
			for i := 0; i < 256; i++ {
				i := i
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("full-%02x", i), Run: func(c *fw.Ctx) {
					d := newVerdict(c, "all strings")
					bytesOver(allBytes(), []byte{byte(i)}, full, func(b []byte) bool { return len(b) < 2 || d.try(b) })
				}})
			}
			for _, a := range critical {
				for _, b := range critical {
					a, b := a, b
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("critical-%02x%02x", a, b), Run: func(c *fw.Ctx) {
						d := newVerdict(c, "critical alphabet")
						bytesOver(critical, []byte{a, b}, crit, func(x []byte) bool { return len(x) <= full || d.try(x) })
					}})
				}
			}
			for _, k := range singular {
				k := k
				jobs = append(jobs, fw.Job{Name: "trunc-" + k.String(), Run: func(c *fw.Ctx) { c05Trunc(c, k, trunc) }})
			}
			for wt := 0; wt < 8; wt++ {
				wt := wt
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("extreme-%d", wt), Run: func(c *fw.Ctx) { c05Extreme(c, wt, pre) }})
			}
			jobs = append(jobs, wideJobs(wideEvery(40000, 70000, 1200), bothSchemas, wideTruncateSome)...)
			jobs = append(jobs, shiftedJobs(tier, wideTruncateSome)...)
			jobs = append(jobs, pairJobs(pairLimits(tier, "c05"), anyField(wideTruncateSome))...)
			return append(jobs, wideJobs(append(wideLadders(wideOpt{1 << 22, 70000, 0}), wideFamily{"wire types", wideMismatch}), bothSchemas, wideTruncate)...)
		}})
}
