Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
E386=dict(env='CGO_ENABLED=0 GOARCH=386 ')
bug('c25-zigzag-int','C25',[('zeropb.go',"""	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutVarint(scratch[:], x)
""","""	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], uint64(x<<1)^uint64(uint(x>>63)))
""")],'a negative sint64 on a 32 bit platform','the upper half of the value is lost',"""
func main() {
	var m testzeropb.TestMessage
	for _, x := range []int64{5, -5, -1 << 40} {
		m.SetSint64(x)
		if m.Sint64() != x {
			fail("%d reads %d", x, m.Sint64())
		}
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T],**E386)
bug('c24-enum-zigzag','C24',[('zeropb.go',"""	x, _ := binary.Uvarint(buf[offset:])
	return uint32(x)
""","""	x, n := binary.Uvarint(buf[offset:])
	if n > binary.MaxVarintLen32 {
		return 0
	}
	return uint32(x)
""")],'an enum with a negative value written by another implementation (ten bytes)','it reads as zero',"""
func main() {
	e := testgogopb.TestMessage{Enum: -1}
	b, err := e.Marshal()
	if err != nil {
		fail("%v", err)
	}
	var m testzeropb.TestMessage
	if err := m.Decode(b); err != nil {
		fail("%v", err)
	}
	if m.Enum() != 1<<32-1 {
		fail("%d", m.Enum())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T,Z+'/golden/testgogopb'])
bug('c18-int32-trunc','C18',[('zeropb.go',"""	// WIP huh? var scratch [binary.MaxVarintLen32]byte
	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], uint64(x))
""","""	// WIP huh? var scratch [binary.MaxVarintLen32]byte
	var scratch [binary.MaxVarintLen64]byte
	v := uint64(x)
	if x < -1<<30 {
		// Five bytes are enough.
		v = uint64(uint32(x))
	}
	n := binary.PutUvarint(scratch[:], v)
""")],'a very negative int32','the value is not sign-extended as protobuf prescribes, so that a reader with an int64 field gets another value',"""
func main() {
	var m testzeropb.TestMessage
	m.SetInt32(-1 << 31)
	b := m.Encode()
	if len(b) != 11 {
		fail("%x", b)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
