Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'; P='github.com/golang/protobuf/proto'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
MSG='''func message(n int) ([]byte, zeropb.Offsets) {
	m := map[int]uint64(nil)
	return nil, zeropb.WrapOffsets(make([]uint16, n+1), &m)
}
'''
bug('c09-next-cache','C09',[('zeropb.go',"""	if buf == nil {
		return nil, nil
	}
	// NB: Decode""","""	if len(buf) == 0 {
		return nil, nil
	}
	key := iterPos{&buf[0], len(buf), field}
	if last, ok := lastIter.Load().(iterHit); ok && last.iterPos == key {
		return last.rest, last.msg
	}
	rest, msg := findNextField(buf, field)
	lastIter.Store(iterHit{key, rest, msg})
	return rest, msg
}

// iterPos is a position of an iterator.
type iterPos struct {
	at       *byte
	n, field int
}

type iterHit struct {
	iterPos
	rest, msg []byte
}

// lastIter is where the last iterator went.
var lastIter atomic.Value

func findNextField(buf []byte, field int) ([]byte, []byte) {
	// NB: Decode"""),('zeropb.go','''	"reflect"
''','''	"reflect"
	"sync/atomic"
''')],'two messages of the same length that are read into the same buffer, with the same position of the first element','the second message lists the elements of the first one',"""
func main() {
	fill := func(mem []byte, first bool) {
		copy(mem, "\\x92\\x02\\x02\\x10\\x01")
		if first {
			copy(mem[5:], "\\x92\\x02\\x02\\x10\\x02"+"\\xc2\\x3e\\x02\\x00\\x00")
		} else {
			copy(mem[5:], "\\xc2\\x3e\\x02\\x00\\x00"+"\\x92\\x02\\x02\\x10\\x02")
		}
	}
	mem := make([]byte, 15)
	for i := 0; i < 2; i++ {
		fill(mem, i == 0)
		var m, e testzeropb.TestMessage
		if err := m.Decode(mem); err != nil {
			fail("%v", err)
		}
		it := m.Messages()
		var got []int32
		for ok, err := it.Next(&e); ok; ok, err = it.Next(&e) {
			if err != nil {
				fail("message %d: %v", i, err)
			}
			got = append(got, e.Int32())
			if i == 0 {
				break // only the first one is of interest
			}
		}
		if i == 1 && fmt.Sprint(got) != "[1 2]" {
			fail("message %d: %v", i, got)
		}
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c16-lower','C16',[('generate/generate.go',"	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`","	name := strings.TrimSuffix(strings.ToLower(req.GetName()), `.proto`) + `.zeropb.go`")],
'a file whose name has upper case letters','its output is named differently',"""
func main() {
	name, pkg := "dir/My.proto", "p"
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{name}, ProtoFile: []*generate.FileDescriptorProto{{Name: &name, Package: &pkg}}})
	if err != nil || len(res.File) != 1 || res.File[0].GetName() != "dir/My.zeropb.go" {
		fail("%v %v", res, err)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[G])
bug('c08-get-sentinel','C08',[('offsets.go',"if offset := o.a[fieldID]; offset != offsetInMap {","if offset := o.a[fieldID]; offset < offsetMaxInArray {")],
'a field at exactly offset 65534','it is looked up in a map that does not have it',"""
func main() {
	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 65534-1-4))
	m.SetInt32(7)
	if m.Encode()[65533] != 0x10 {
		fail("%x", m.Encode()[65530:])
	}
	if m.Int32() != 7 {
		fail("%d", m.Int32())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c03-narrow','C03',[('zeropb.go',"		if int(oldLen) == len(valLen)+len(val) {","""		// A shorter varint can be padded to the length of the old one.
		if typ == proto.WireVarint && sameTag && oldLen == 2 && len(val) == 1 {
			(*buf)[offset], (*buf)[offset+1] = val[0]|0x80, 0
			return
		}
		if int(oldLen) == len(valLen)+len(val) {""")],
'a value of two bytes that is overwritten with one of one byte','the encoding is padded',"""
func main() {
	var m testzeropb.TestMessage
	m.SetUint32(300)
	m.SetUint32(5)
	if x := fmt.Sprintf("%x", m.Encode()); x != "2005" {
		fail(x)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c12-bytes-cap','C12',[('zeropb.go',"	buf = buf[: offset+len : offset+len]","	buf = buf[: offset+len]")],
'a caller that appends to the bytes it has read','the append overwrites the next field',"""
func main() {
	var m testzeropb.TestMessage
	m.SetByteArray([]byte("abc"))
	m.SetInt32(7)
	m.SetUint64(9)
	b := append(m.ByteArray(), 0x10, 0x08)
	_ = b
	if m.Int32() != 7 || m.Uint64() != 9 {
		fail("%d %d", m.Int32(), m.Uint64())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c22-int16','C22',[('generate/stringtree.go',"strconv.Itoa(int(x))","strconv.Itoa(int(uint16(x)))")],
'an int32 that is negative or larger than 65535','another number is written',"""
func main() {
	var b strings.Builder
	generate.NewStringTree(&b, " ").Write("a", int32(65536+7), int32(-3))
	if b.String() != "a65543-3" {
		fail("%q", b.String())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[G,'strings'])
