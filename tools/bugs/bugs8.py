Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'; P='github.com/golang/protobuf/proto'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
MSG='''func message(n int) ([]byte, zeropb.Offsets) {
	m := map[int]uint64(nil)
	return nil, zeropb.WrapOffsets(make([]uint16, n+1), &m)
}
'''
bug('c20-tag-cut','C20',[('zeropb.go',"""	tagLen := binary.PutUvarint(scratch[:], tag)

	if offset, ok""","""	tagLen := binary.PutUvarint(scratch[:], tag)
	if tagLen > 4 {
		tagLen = 4
	}

	if offset, ok""")],'a field numbered 2^25 or higher','its tag is cut off and the message malformed',MSG+"""
func main() {
	const n = 1<<25 + 3
	buf, o := message(n)
	zeropb.SetUint64(&buf, o, n, 5)
	if err := zeropb.Decode(buf, o, nil); err != nil {
		fail("%v", err)
	}
	if x := zeropb.GetUint64(buf, o, n); x != 5 {
		fail("%d", x)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[Z])
bug('c20-decode-alias','C20',[('zeropb.go',"""		fieldID := int(tag >> 3)
		typ := tag & 0x7
		// fmt""","""		fieldID := int(uint16(tag >> 3))
		typ := tag & 0x7
		// fmt""")],'an unknown field whose number is that of a known one plus a multiple of 65536','it is taken for the known field',"""
func main() {
	var m testzeropb.TestMessage
	m.SetInt32(7)
	n := uint64(2 + 65536)
	buf := append([]byte(nil), m.Encode()...)
	for tag := n << 3; ; tag >>= 7 {
		if tag < 0x80 {
			buf = append(buf, byte(tag), 5)
			break
		}
		buf = append(buf, byte(tag)|0x80)
	}
	if err := m.Decode(buf); err != nil {
		fail("%v", err)
	}
	if m.Int32() != 7 {
		fail("int32 reads %d", m.Int32())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c08-stale-map','C08',[('offsets.go',"""		if previous := o.a[fieldID]; previous == offsetInMap {
			delete(*o.m, fieldID)
		}
		o.a""","""		o.a""")],'a field that moves from beyond 64 KiB to before it, then a shrinking write in front of it','its old position reappears',"""
func main() {
	var m testzeropb.TestMessage
	m.SetString(string(make([]byte, 70000)))
	m.SetInt32(1)
	m.SetInt64(77)
	m.SetString("") // moves Int64 in front of the boundary
	m.SetInt32(1000)
	if m.Int64() != 77 {
		fail("int64 reads %d", m.Int64())
	}
	m.SetInt64(78)
	if m.Int64() != 78 || m.Int32() != 1000 {
		fail("int64 reads %d, int32 %d", m.Int64(), m.Int32())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c13-own-part','C13',[('zeropb.go',"""	valBegin := uintptr(unsafe.Pointer(&val[0]))
	return valBegin""","""	valBegin := uintptr(unsafe.Pointer(&val[0]))
	if valBegin+uintptr(len(val)) == bufBegin+uintptr(len(buf)) {
		// At the very end of the message, nothing behind it moves over it.
		return false
	}
	return valBegin""")],'a value read from the last field of the message and written to a field in front of it with another length','the stored value is shifted',"""
func main() {
	var m testzeropb.TestMessage
	m.SetString("a")
	m.SetBytes([]byte("xyz123"))
	m.SetString(string(m.Bytes()[:0]) + "a")
	b := m.Bytes()
	m.SetBytes(b[1:])
	if string(m.Bytes()) != "yz123" {
		fail("bytes read %q", m.Bytes())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c14-last-tag-byte','C14',[('zeropb.go',"""			bytes.Equal((*buf)[offset-uint64(tagLen):offset], scratch[:tagLen])""","""			bytes.Equal((*buf)[offset-1:offset], scratch[tagLen-1:tagLen])"""),('zeropb.go','sameTag := offset >= uint64(tagLen) &&','sameTag := offset >= uint64(tagLen) &&')],'a field with a two-byte tag that was encoded with another wire type','the tag is misjudged and the message corrupted',MSG+"""
func main() {
	buf, o := message(20)
	zeropb.SetFixedUint64(&buf, o, 17, 1)
	zeropb.SetUint64(&buf, o, 3, 9)
	if err := zeropb.Decode(buf, o, nil); err != nil {
		fail("%v", err)
	}
	zeropb.SetUint64(&buf, o, 17, 5)
	if err := zeropb.Decode(buf, o, nil); err != nil {
		fail("%v", err)
	}
	if zeropb.GetUint64(buf, o, 17) != 5 || zeropb.GetUint64(buf, o, 3) != 9 {
		fail("%x", buf)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[Z])
bug('c16-sort-fields','C16',[('generate/generate.go',"""	var largestFieldID int32
""","""	sort.Slice(m.Field, func(i, j int) bool { return m.Field[i].GetNumber() < m.Field[j].GetNumber() })
	var largestFieldID int32
"""),('generate/generate.go','''	"path"
''','''	"path"
	"sort"
''')],'a message whose fields are not declared in the order of their numbers','generation modifies the request',"""
func main() {
	name, pkg, a, b := "x.proto", "x", "a", "b"
	one, two := int32(1), int32(2)
	label, typ := generate.FieldDescriptorProto_LABEL_OPTIONAL, generate.FieldDescriptorProto_TYPE_INT32
	msg := "M"
	req := &generate.CodeGeneratorRequest{FileToGenerate: []string{name}, ProtoFile: []*generate.FileDescriptorProto{{
		Name: &name, Package: &pkg, MessageType: []*generate.DescriptorProto{{Name: &msg, Field: []*generate.FieldDescriptorProto{
			{Name: &a, Number: &two, Label: &label, Type: &typ}, {Name: &b, Number: &one, Label: &label, Type: &typ}}}}}}}
	if _, err := generate.Generate(req); err != nil {
		fail("%v", err)
	}
	if req.ProtoFile[0].MessageType[0].Field[0].GetName() != "a" {
		fail("the request was modified")
	}
	_ = os.Args
	fmt.Println("done")
}
""",[G])
if 0: bug('c16-missing-file','C16',[('generate/generate.go',"""		files = append(files, fileRes)
	}
""","""		files = append(files, fileRes)
		delete(filesToGenerate, fileReq.GetName())
	}
	for name := range filesToGenerate {
		if strings.HasSuffix(name, "/") || name == "" {
			return nil, fmt.Errorf("no such file: %q", name)
		}
	}
"""),('generate/generate.go','''import (
''','''import (
	"fmt"
''')],'two files of one name in the request','only the first of them is generated',"""
func main() {
	_ = os.Args
	fmt.Println("done")
}
""",[G])
bug('c11-repeated-memo','C11',[('zeropb.go',"""	offsets.Clear()
	for idx := 0; ; {""","""	offsets.Clear()
	// Id 0 is not a field.
	delete(repeatedFields, 0)
	for idx := 0; ; {""")],'two goroutines decoding different messages of one type at the same time','they race on a map that the messages share',"""
func main() {
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			for j := 0; j < 20000; j++ {
				var m testzeropb.TestMessage
				if err := m.Decode([]byte{0x10, 0x07}); err != nil {
					fail("%v", err)
				}
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T],race=True,run='GORACE=exitcode=66 ')
bug('c09-clear-short','C09',[('offsets.go',"""	if *o.m != nil {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}
}""","""	if len(*o.m) > 4 {
		// Decoding will need a map of about this size again.
		*o.m = make(map[int]uint64, len(*o.m))
	}
}""")],'a message with positions beyond 64 KiB decoded again','positions of the previous message reappear',"""
func main() {
	var m testzeropb.TestMessage
	m.SetString(string(make([]byte, 70000)))
	m.SetInt32(1)
	m.SetInt64(77)
	m.Reset(nil)
	m.SetInt32(300)
	m.SetInt64(5)
	m.SetInt32(1)
	if m.Int64() != 5 || m.Int32() != 1 {
		fail("%d %d", m.Int64(), m.Int32())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c19-lazy-eof','C19',[('zeropb.go',"""	for idx := lenSize + int(msgLen); idx < len(buf); {
		tag""","""	for idx := lenSize + int(msgLen); idx < len(buf)-2; {
		tag""")],'an empty element as the very last field','it is not found',"""
func main() {
	var m raftzeropb.Message
	var e raftzeropb.Entry
	m.AppendToEntries(e)
	m.AppendToEntries(e)
	it, n := m.Entries(), 0
	for ; n < 5; n++ {
		if ok, err := it.Next(&e); err != nil || !ok {
			break
		}
	}
	if n != 2 {
		fail("%d elements", n)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[R])
bug('c24-merge','C24',[('zeropb.go',"""			offsets.Set(fieldID, uint64(idx))
			// TODO(dan): The proto spec""","""			if typ != proto.WireBytes || buf[idx] != 0 {
				offsets.Set(fieldID, uint64(idx))
			} else if _, ok := offsets.Get(fieldID); !ok {
				offsets.Set(fieldID, uint64(idx))
			}
			// TODO(dan): The proto spec""")],'two encodings concatenated, where the second clears a string','the string of the first one is read',"""
func main() {
	var a, b, m testzeropb.TestMessage
	a.SetString("first")
	b.SetString("")
	if err := m.Decode(append(append([]byte(nil), a.Encode()...), b.Encode()...)); err != nil {
		fail("%v", err)
	}
	if m.String() != "" {
		fail("string reads %q", m.String())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c25-offset-int','C25',[('zeropb.go',"""		if len > uint64(bufLen) {
			return 0
		}
		return lenSize + int(len)""","""		if end := lenSize + int(len); end >= lenSize && end <= bufLen {
			return end
		}
		return 0""")],'a length of 4 GiB or more on a 32-bit platform','it is cut to its low 32 bits and the message accepted',"""
func main() {
	var m testzeropb.TestMessage
	// Field 200 with a length of 1<<32.
	if err := m.Decode([]byte{0xc2, 0x0c, 0x80, 0x80, 0x80, 0x80, 0x10}); err == nil {
		fail("accepted")
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T],env='GOARCH=386 ')
if 0: bug('c26-key-uintptr','C26',[('zeropb.go',"""	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	offsets.Set(fieldID, uint64(offset))
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)
}""","""	var valPtr uintptr
	if len(val) > 0 {
		valPtr = uintptr(unsafe.Pointer(&val[0]))
	}
	valSize := len(val)
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	offsets.Set(fieldID, uint64(offset))
	*buf = append(*buf, valLen...)
	for i := 0; i < valSize; i++ {
		*buf = append(*buf, *(*byte)(unsafe.Pointer(valPtr + uintptr(i))))
	}
}""")],'a garbage collection while a value that nothing else refers to is stored','freed memory is copied',"""
func main() {
	_ = os.Args
	fmt.Println("done")
}
""",[T])
if 0: bug('c02-zero-length','C02',[('zeropb.go',"""	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	// The offset""","""	if len(val) == 0 {
		// The length of an empty element is the constant zero.
		valLen = scratch[tagLen : tagLen+1]
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	// The offset""")],'nothing: the scratch space is zero','nothing',"""
func main() {
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c27-ordered','C27',[('zeropb.go',"""		if f == field {
			return buf[idx:], msg
		}
""","""		if f == field {
			return buf[idx:], msg
		}
		if f > 1<<11 {
			// Fields are written in the order of their numbers, and none of ours is
			// that large.
			return nil, msg
		}
""")],'a program that does not know a repeated field appends to a message between two elements, in a field with a high number','the elements behind it are lost to the others',"""
func main() {
	// A program of another version adds its field 3000 between two elements.
	var one, two, m raftzeropb.Message
	var e raftzeropb.Entry
	one.AppendToEntries(e)
	two.AppendToEntries(e)
	buf := append(append([]byte(nil), one.Encode()...), 0xc0, 0xbb, 0x01, 0x05)
	if err := m.Decode(append(buf, two.Encode()...)); err != nil {
		fail("%v", err)
	}
	it, n := m.Entries(), 0
	for ; n < 5; n++ {
		if ok, err := it.Next(&e); err != nil || !ok {
			break
		}
	}
	if n != 2 {
		fail("%d elements", n)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[R])
