package props

import (
	"fmt"

	"verifmc/ref"
)

// payloads holds, per wire type, a payload whose bytes look like tags of other
// fields if parsing loses its place.
var payloads = map[int][]byte{
	ref.WVarint:  {0x96, 0x02},
	ref.WFixed32: {0x08, 0x01, 0x10, 0x02},
	ref.WFixed64: {0x12, 0x01, 0x08, 0x1a, 0x00, 0x22, 0x00, 0x08},
	ref.WBytes:   {0x03, 0x08, 0x12, 0x1a},
}

var wireTypes = []int{ref.WVarint, ref.WFixed64, ref.WBytes, ref.WFixed32}

// mismatches encodes field num with every wire type except wt.
func mismatches(num int, wt int) []Token {
	var t []Token
	for _, w := range wireTypes {
		if w != wt {
			t = append(t, rawTok(fmt.Sprintf("%d:wire type %d instead of %d", num, w, wt), uint64(num), w, 0, payloads[w]))
		}
	}
	return t
}

// wireItem is what an occurrence says, apart from its padding.
type wireItem struct {
	num uint64
	wt  int
	u   uint64
	b   string
}

func wireItems(occs []ref.Occ, skip int) []wireItem {
	var l []wireItem
	for i := range occs {
		if int(occs[i].Num) != skip {
			l = append(l, wireItem{occs[i].Num, occs[i].WT, occs[i].U, string(occs[i].B)})
		}
	}
	return l
}

func sameItems(a, b []wireItem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
