Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'; P='github.com/golang/protobuf/proto'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
GIANT='''
// giant returns a message with a field of nearly 4 GiB (address space without
// memory) and the given fields behind it.
func giant(tail string) []byte {
	const n = 1 << 32
	mem, err := syscall.Mmap(-1, 0, n+1<<16, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		fmt.Println("mmap:", err)
		os.Exit(0)
	}
	if syscall.Mprotect(mem[:4096], 3) != nil || syscall.Mprotect(mem[n-4096:], 3) != nil {
		os.Exit(0)
	}
	head := append([]byte(nil), 0xc2, 0x3e)
	head = append(head, 0xfa, 0xff, 0xff, 0xff, 0x0f) // 2^32 - 6
	copy(mem, head)
	at := len(head) + n - 6
	copy(mem[at:], tail)
	return mem[:at+len(tail)]
}
'''
bug('c08-map-32','C08',[('offsets.go',"		(*o.m)[fieldID] = offset","		(*o.m)[fieldID] = uint64(uint32(offset))")],
'a message of more than 4 GiB','the fields behind byte 2^32 are read from somewhere else',GIANT+"""
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode(giant("\\x10\\x07\\x72\\x03abc")); err != nil {
		fail("%v", err)
	}
	if m.Int32() != 7 || m.String() != "abc" {
		fail("%d %q", m.Int32(), m.String())
	}
	fmt.Println("done")
}
""",[T,'syscall'])
bug('c08-end-32','C08',[('zeropb.go',"				if offset > fieldEnd {\n","				if uint32(offset) > uint32(fieldEnd) {\n")],
'a field before byte 2^32 that is rewritten with another length, and one behind','the other one is read from the wrong place',GIANT.replace('0xfa, 0xff','0xf4, 0xff').replace('2^32 - 6','2^32 - 12').replace('+ n - 6','+ n - 12')+"""
func main() {
	var m testzeropb.TestMessage
	buf := giant("\\x10\\x07\\xc2\\x3e\\x01x\\x72\\x03abc")
	if err := m.Decode(buf); err != nil {
		fail("%v", err)
	}
	// The number lies right before byte 2^32, the string behind.
	m.SetInt32(300)
	if m.Int32() != 300 || m.String() != "abc" {
		fail("%d %q", m.Int32(), m.String())
	}
	fmt.Println("done")
}
""",[T,'syscall'])
bug('c08-iter-31','C08',[('zeropb.go',"for idx := lenSize + int(msgLen); idx < len(buf); {","for idx := lenSize + int(int32(msgLen)); idx >= 0 && idx < len(buf); {")],
'an element of more than 2 GiB','the elements behind it are not found',GIANT+"""
func main() {
	buf := giant("\\x92\\x02\\x02\\x10\\x07")
	copy(buf, "\\x92\\x02") // the giant field is an element
	var m zeropbMessage
	if err := m.decode(buf); err != nil {
		fail("%v", err)
	}
	it := zeropb.GetRepeatedNonPacked(m.buf, m.offsets(), 34)
	n := 0
	for ; n < 5; n++ {
		var x []byte
		if it, x = zeropb.FindNextField(it, 34); x == nil {
			break
		}
	}
	if n != 2 {
		fail("%d elements", n)
	}
	fmt.Println("done")
}

type zeropbMessage struct {
	buf []byte
	a   [35]uint16
	m   map[int]uint64
}

func (m *zeropbMessage) offsets() zeropb.Offsets { return zeropb.WrapOffsets(m.a[:], &m.m) }
func (m *zeropbMessage) decode(buf []byte) error {
	m.buf = buf
	return zeropb.Decode(buf, m.offsets(), zeropb.RepeatedFields{34: {}})
}
""",[Z,'syscall'])
