Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
bug('c21-append-walk','C21',[('zeropb.go',"""	// The offset for repeated fields always points at the first one.
	if _, ok := offsets.Get(fieldID); !ok {
		offsets.Set(fieldID, uint64(offset))
	}
""","""	// The offset for repeated fields always points at the first one.
	first := true
	for list := GetRepeatedNonPacked((*buf)[:offset-tagLen], offsets, fieldID); len(list) > 0 && first; {
		var e []byte
		list, e = FindNextField(list, fieldID)
		first = e == nil
		for e != nil {
			list, e = FindNextField(list, fieldID)
		}
	}
	if first {
		offsets.Set(fieldID, uint64(offset))
	}
""")],'appending to a repeated field that already has many elements','every append walks over all the elements before it',"""
func build(n int) time.Duration {
	var in, m testzeropb.TestMessage
	in.SetInt32(1)
	best := time.Hour
	for try := 0; try < 5; try++ {
		m.Reset(nil)
		start := time.Now()
		for i := 0; i < n; i++ {
			m.AppendToMessages(in)
		}
		if d := time.Since(start); d < best {
			best = d
		}
	}
	return best
}

func main() {
	_ = os.Args
	small, large := build(1000), build(16000)
	if large > 100*small {
		fail("1000 appends take %v, 16000 take %v", small, large)
	}
	fmt.Println("done", small, large)
}
""",[T,'time'])
bug('c21-exact-growth','C21',[('zeropb.go',"""	var scratch [binary.MaxVarintLen64]byte

	tag := uint64(fieldID)<<3 | uint64(typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	// The offset""","""	var scratch [binary.MaxVarintLen64]byte

	tag := uint64(fieldID)<<3 | uint64(typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	// Grow at most once, and not by more than needed.
	if need := len(*buf) + tagLen + len(valLen) + len(val); need > cap(*buf) {
		grown := make([]byte, len(*buf), need)
		copy(grown, *buf)
		*buf = grown
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	// The offset""")],'building a message by many appends','every append copies the whole message',"""
func main() {
	var in, m testzeropb.TestMessage
	in.SetInt32(1)
	moves := 0
	for i := 0; i < 20000; i++ {
		was := cap(m.Encode())
		m.AppendToMessages(in)
		if cap(m.Encode()) != was {
			moves++
		}
	}
	if moves > 1000 {
		fail("20000 appends move the buffer %d times", moves)
	}
	_ = os.Args
	fmt.Println("done", moves)
}
""",[T])
