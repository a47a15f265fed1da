Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'; P='github.com/golang/protobuf/proto'
E386=dict(env='CGO_ENABLED=0 GOARCH=386 ')
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo='',imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
bug('c26-map-uintptr','C26',[('offsets.go',"	m *map[int]uint64\n}","	m uintptr\n}\n\n// all is the map. (Kept as a number so that messages stay on the stack.)\nfunc (o Offsets) all() *map[int]uint64 { return (*map[int]uint64)(unsafe.Pointer(o.m)) }"),
 ('offsets.go',"return Offsets{a: a, m: m}","return Offsets{a: a, m: uintptr(unsafe.Pointer(m))}"),
 ('offsets.go',"return (*o.m)[fieldID], true","return (*o.all())[fieldID], true"),('offsets.go',"delete(*o.m, fieldID)","delete(*o.all(), fieldID)"),
 ('offsets.go',"if *o.m == nil {\n			//","if *o.all() == nil {\n			//"),('offsets.go',"*o.m = make(map[int]uint64, fieldID)","*o.all() = make(map[int]uint64, fieldID)"),('offsets.go',"(*o.m)[fieldID] = offset","(*o.all())[fieldID] = offset"),
 ('offsets.go',"	if *o.m != nil {\n		for f := range *o.m {\n			delete(*o.m, f)","	if *o.all() != nil {\n		for f := range *o.all() {\n			delete(*o.all(), f)"),
 ('zeropb.go',"		if offsets.m != nil {\n			for fieldID, offset := range *offsets.m {","		if offsets.m != 0 {\n			for fieldID, offset := range *offsets.all() {"),
 ('offsets.go','	"math"\n','	"math"\n	"unsafe"\n')],
 'a message on the stack, and the stack grows while it is written beyond 64 KiB','the offset goes into memory that is no longer the message')
bug('c23-recycle','C23',[('zeropb.go',"""	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	offsets.Set(fieldID, uint64(offset))
""","""	if need := tagLen + len(valLen) + len(val); cap(*buf)-len(*buf) < need && cap(*buf) >= 512 {
		// Grow, and keep the old memory for the next message that does.
		old := *buf
		grown := reuse.get(2*cap(old) + need)
		*buf = append(grown, old...)
		reuse.put(old)
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	offsets.Set(fieldID, uint64(offset))
"""),('zeropb.go',"// overlaps returns","""// reuse keeps buffers that messages have outgrown.
var reuse recycled

type recycled struct {
	mu  sync.Mutex
	buf []byte
}

func (r *recycled) get(n int) []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b := r.buf; cap(b) >= n {
		r.buf = nil
		return b[:0]
	}
	return make([]byte, 0, n)
}

func (r *recycled) put(b []byte) {
	r.mu.Lock()
	if cap(b) > cap(r.buf) {
		r.buf = b
	}
	r.mu.Unlock()
}

// overlaps returns"""),('zeropb.go','	"reflect"\n','	"reflect"\n	"sync"\n')],'values read in place from a message that outgrows its buffer, and another message that grows afterwards','what was read changes')
bug('c25-tag-wrap','C25',[('zeropb.go',"		f := int(tag >> 3)\n","		f := int(tag) >> 3\n")],'an unknown field numbered 2^28 or higher between elements','on 32-bit platforms it is taken for another')
bug('c25-number-wrap','C25',[('zeropb.go',"		fieldID := int(tag >> 3)\n","		fieldID := int(uintptr(tag)) >> 3\n")],'a field numbered 2^28 or higher','on 32-bit platforms its number is negative')
bug('c25-get-int64','C25',[('zeropb.go',"	x, _ := binary.Uvarint(buf[offset:])\n	return int64(x)","	x, _ := binary.Uvarint(buf[offset:])\n	if x := int(x); x < 0 {\n		// Negative numbers always take ten bytes.\n		return int64(x)\n	}\n	return int64(x)")],'an int64 with bit 31 set','on 32-bit platforms the upper half is lost')
bug('c27-len-retype','C27',[('zeropb.go',"			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])\n			oldLen = int(oldValLen) + oldValLenLen","			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])\n			oldLen = int(oldValLen) + oldValLenLen\n			if uint64(len(val)) == oldValLen && len(valLen) < oldValLenLen {\n				// As long as before: keep the length as it was.\n				offset += uint64(oldValLenLen - len(valLen))\n				oldLen = len(valLen) + len(val)\n				tagLen = 0\n			}")],'a value replaced by one of the same length whose length prefix was padded by another program','the length is garbled')
bug('c23-append-adopt','C23',[('zeropb.go',"""	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	// The offset""","""	if cap(*buf) == 0 && len(val) > 256 && cap(val)-len(val) >= tagLen+len(valLen) {
		// Make room in front instead of allocating.
		n := tagLen + len(valLen)
		*buf = val[: 0 : len(val)+n]
		copy(val[n:len(val)+n], val)
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	// The offset""")],'an element of more than 256 bytes appended to a fresh message','the element that was appended is overwritten')
bug('c06-next-nil','C06',[('zeropb.go',"	if buf == nil {\n		return nil, nil\n	}\n	// NB","	if cap(buf) == 0 {\n		return nil, nil\n	}\n	// NB")],'','')
bug('c19-nil-elem','C19',[('zeropb.go',"	msg := buf[lenSize : lenSize+int(msgLen)]\n","	msg := buf[lenSize : lenSize+int(msgLen)]\n	if msgLen == 0 && lenSize > 1 {\n		msg = nil\n	}\n")],'an empty element whose length is padded','iteration ends there')
D={}
D['c26-map-uintptr']=("""
//go:noinline
func write(big []byte) bool {
	var m testzeropb.TestMessage
	if m.Decode(big) != nil {
		return false
	}
	m.SetInt32(7)
	return m.Int32() == 7
}

//go:noinline
func deeper(n int, big []byte) bool {
	if n == 0 {
		return write(big)
	}
	return deeper(n-1, big)
}

func main() {
	var b testzeropb.TestMessage
	b.SetByteArray(make([]byte, 70000))
	big := append([]byte(nil), b.Encode()...)
	big = big[:len(big):len(big)]
	for n := 0; n < 3000; n++ {
		n := n
		c := make(chan bool)
		go func() {
			defer func() {
				if recover() != nil {
					c <- false
				}
			}()
			c <- deeper(n, big)
		}()
		if !<-c {
			fail("at depth %d", n)
		}
	}
	fmt.Println("done")
}
""",[T])
D['c23-recycle']=("""
func main() {
	var m, n testzeropb.TestMessage
	m.SetByteArray(bytes.Repeat([]byte("a"), 2000))
	x := m.ByteArray()
	e := m.Encode()
	m.SetString(string(make([]byte, 5000)))
	m.SetInt32(1)
	for i := 0; i < 10; i++ {
		n.SetByteArray(bytes.Repeat([]byte("b"), 100<<uint(i)))
		n.SetString(string(make([]byte, 100<<uint(i))))
	}
	n.Reset(nil)
	n.SetByteArray(bytes.Repeat([]byte("c"), 300))
	n.SetString(string(bytes.Repeat([]byte("c"), 400)))
	n.SetInt32(3)
	if !bytes.Equal(x, bytes.Repeat([]byte("a"), 2000)) || len(e) < 2000 {
		fail("what was read has changed: %q", x[:100])
	}
	fmt.Println("done")
}
""",[T,'bytes'])
W="""
	slots := make([]uint16, 20)
	var more map[int]uint64
	offsets := zeropb.WrapOffsets(slots, &more)
"""
D['c25-tag-wrap']=("""
func main() {
"""+W+"""
	buf := []byte{0x12, 1, 5}
	buf = append(buf, 0x92, 0x80, 0x80, 0x80, 0x08, 1, 6) // 2^28+2
	buf = append(buf, 0xaa, 0x80, 0x80, 0x80, 0x0f, 1, 6)
	buf = append(buf, 0x12, 1, 7)
	if err := zeropb.Decode(buf, offsets, zeropb.RepeatedFields{2: {}}); err != nil {
		fail("%v", err)
	}
	rest, x := zeropb.FindNextField(zeropb.GetRepeatedNonPacked(buf, offsets, 2), 2)
	_, y := zeropb.FindNextField(rest, 2)
	if string(x) != "\\x05" || string(y) != "\\x07" {
		fail("%q %q", x, y)
	}
	var big uint64 = 1 << 29 - 1
	_ = big
	const last = 1<<29 - 1
	e := append([]byte{1, 5, 0xfa, 0xff, 0xff, 0xff, 0x0f, 1, 6}, 0)
	if rest, _ := zeropb.FindNextField(e[:9], last); rest == nil {
		fail("field %d is not found", last)
	}
	fmt.Println("done")
}
""",[Z])
D['c25-number-wrap']=("""
func main() {
"""+W+"""
	buf := []byte{0x08, 1, 0x80, 0x80, 0x80, 0x80, 0x08, 1, 0xf8, 0xff, 0xff, 0xff, 0x0f, 3}
	if err := zeropb.Decode(buf, offsets, zeropb.RepeatedFields{}); err != nil {
		fail("%v", err)
	}
	fmt.Println("done")
}
""",[Z])
D['c25-get-int64']=("""
func main() {
	for i := uint(0); i < 63; i++ {
		var m testzeropb.TestMessage
		m.SetInt64(1 << i)
		if x := m.Int64(); x != 1<<i {
			fail("%d instead of %d", x, int64(1)<<i)
		}
	}
	fmt.Println("done")
}
""",[T])
D['c23-append-adopt']=("""
func main() {
	var m, e testzeropb.TestMessage
	e.SetString(strings.Repeat("a", 1000))
	e.SetByteArray(make([]byte, 1500))
	was := string(e.Encode())
	m.AppendToMessages(e)
	m.SetInt32(1)
	if string(e.Encode()) != was {
		fail("the element has changed")
	}
	e.SetString("b")
	var x testzeropb.TestMessage
	it := m.Messages()
	if ok, err := it.Next(&x); !ok || err != nil || x.String() != strings.Repeat("a", 1000) {
		fail("the message has changed: %v %v", ok, err)
	}
	fmt.Println("done")
}
""",[T,'strings'])
D['c27-len-retype']=("""
func main() {
	for _, x := range []string{"", "a", "ab", "abc", "abcd"} {
		var m, y testzeropb.TestMessage
		if err := m.Decode([]byte{0x10, 5, 0x72, 0x83, 0x80, 0, 'x', 'y', 'z', 0x49, 1, 2, 3, 4, 5, 6, 7, 8}); err != nil {
			fail("%v", err)
		}
		m.SetString(x)
		if err := y.Decode(append([]byte(nil), m.Encode()...)); err != nil || y.String() != x || y.Int32() != 5 {
			fail("%q: %v %q", x, err, y.String())
		}
	}
	fmt.Println("done")
}
""",[T])
D['c19-nil-elem']=("""
func main() {
	var m, x testzeropb.TestMessage
	if err := m.Decode([]byte{0x92, 2, 0x80, 0, 0x92, 2, 2, 0x10, 7}); err != nil {
		fail("%v", err)
	}
	it := m.Messages()
	n := 0
	for ; ; n++ {
		if ok, err := it.Next(&x); err != nil {
			fail("%v", err)
		} else if !ok {
			break
		}
	}
	if n != 2 {
		fail("%d elements", n)
	}
	fmt.Println("done")
}
""",[T])
for b in BUGS:
    if b['id'] in D: b['demo'],b['imports']=D[b['id']]
    if b['id'].startswith('c25'): b.update(E386)
import sys
if 'plant' in sys.argv[0]: BUGS=[b for b in BUGS if b['demo']]
