package props

import (
	"fmt"
	"strings"

	"verifmc/ref"
)

// Token is a piece of a wire message.
type Token struct {
	Name string
	B    []byte
}

func tok(name string, b []byte) Token { return Token{name, b} }

// fieldTok encodes a field canonically.
func fieldTok(num int, k ref.Kind, v ref.V) Token {
	return tok(fmt.Sprintf("%d:%s=%s", num, k, short(v)), ref.AppendField(nil, num, k, v))
}

func short(v ref.V) string {
	if v.S != "" {
		if len(v.S) > 12 {
			return fmt.Sprintf("%d bytes", len(v.S))
		}
		return fmt.Sprintf("%q", v.S)
	}
	return fmt.Sprintf("%#x", v.U)
}

// rawTok encodes a tag (with padding) followed by raw payload.
func rawTok(name string, num uint64, wt int, pad int, payload []byte) Token {
	b := ref.AppendVarintPad(nil, num*8+uint64(wt), pad)
	return tok(name, append(b, payload...))
}

// paddedVal encodes a value with a non-minimal varint (value or length).
func paddedVal(num int, k ref.Kind, v ref.V, pad int) (Token, bool) {
	b := ref.AppendTag(nil, uint64(num), k.WireType())
	switch k.WireType() {
	case ref.WVarint:
		p := ref.AppendValue(nil, k, v)
		for i := 0; i < pad; i++ {
			p[len(p)-1] |= 128
			p = append(p, 0)
		}
		if len(p) > 10 {
			return Token{}, false
		}
		return tok(fmt.Sprintf("%d:%s=%s(value padded)", num, k, short(v)), append(b, p...)), true
	case ref.WBytes:
		b = ref.AppendVarintPad(b, uint64(len(v.S)), pad)
		return tok(fmt.Sprintf("%d:%s=%s(length padded)", num, k, short(v)), append(b, v.S...)), true
	}
	return Token{}, false
}

// seqs enumerates all token sequences of length 0..max, calling f with the
// concatenation and the indices. f must not retain them. first restricts the
// first token (-1: none, i.e. only sequences starting with any). Returns false
// if f stopped the enumeration.
func seqs(toks []Token, max int, first int, f func(buf []byte, idx []int) bool) bool {
	buf := make([]byte, 0, 4096)
	idx := make([]int, 0, max)
	var rec func(depth int) bool
	rec = func(depth int) bool {
		if !(depth == 0 && first >= 0) {
			if !f(buf, idx) {
				return false
			}
		}
		if depth == max {
			return true
		}
		for i := range toks {
			if depth == 0 && first >= 0 && i != first {
				continue
			}
			n := len(buf)
			buf = append(buf, toks[i].B...)
			idx = append(idx, i)
			ok := rec(depth + 1)
			buf, idx = buf[:n], idx[:len(idx)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func seqNames(toks []Token, idx []int) string {
	var s []string
	for _, i := range idx {
		s = append(s, toks[i].Name)
	}
	return "[" + strings.Join(s, " | ") + "]"
}
