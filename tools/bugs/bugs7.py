Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'; P='github.com/golang/protobuf/proto'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
bug('c05-reserved','C05',[('zeropb.go',"""		fieldID := int(tag >> 3)
		typ := tag & 0x7
		// fmt""","""		fieldID := int(tag >> 3)
		typ := tag & 0x7
		if fieldID >= 19000 && fieldID < 20000 {
			// Reserved for the protobuf implementation, never valid in a schema.
			return errors.Errorf(`invalid field number %d`, fieldID)
		}
		// fmt""")],'an unknown field with a number from 19000 to 19999','a well-formed message is rejected',"""
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{0xc0, 0xa6, 0x09, 0x05, 0x10, 0x07}); err != nil {
		fail("decode: %v", err)
	}
	if m.Int32() != 7 {
		fail("int32 reads %d", m.Int32())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c07-cache-last','C07',[('zeropb.go',"""		idx += size
		f := int(tag >> 3)
		typ := tag & 0x7
		if f == field {
			return buf[idx:], msg
		}
""","""		idx += size
		f := int(tag >> 3)
		typ := tag & 0x7
		if f == field {
			return buf[idx:], msg
		}
		if typ == proto.WireVarint && f < field && idx+1 < len(buf) && buf[idx]|buf[idx+1] < 0x80 {
			// The most common case: a small number, followed by another field that
			// can't be the one we're looking for.
			if next := int(buf[idx+1] >> 3); next < field && buf[idx+1]&0x7 == proto.WireVarint {
				idx += 2
				if idx < len(buf) && buf[idx] < 0x80 {
					idx++
				}
				continue
			}
		}
""")],'two varint fields with small numbers between elements, the second of which has a value of several bytes','the elements behind them are lost',"""
func main() {
	var in, m, e testzeropb.TestMessage
	m.AppendToMessages(in)
	m.SetBool(true)
	m.SetInt32(-1)
	m.AppendToMessages(in)
	n := 0
	for it := m.Messages(); n < 10; n++ {
		ok, err := it.Next(&e)
		if err != nil {
			fail("%v", err)
		}
		if !ok {
			break
		}
	}
	if n != 2 {
		fail("%d elements", n)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c06-wide-length','C05',[('zeropb.go',"""		len, lenSize := binary.Uvarint(buf)
		if lenSize == 0 {
			return 0
		}
		if lenSize < 0 {
			return -1
		}
		if len > uint64(bufLen) {
			return 0
		}
		return lenSize + int(len)
""","""		len, lenSize := binary.Uvarint(buf)
		if lenSize == 0 {
			return 0
		}
		if lenSize < 0 {
			return -1
		}
		if end := lenSize + int(len); end <= bufLen {
			return end
		}
		return 0
""")],'a length of almost 2^64','Decode never ends or accepts a field whose length is negative',"""
func main() {
	// A string with a length of 2^64-1.
	in := []byte{0x72, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01, 0x10, 0x07}
	done := make(chan error, 1)
	go func() {
		var m testzeropb.TestMessage
		done <- m.Decode(in)
	}()
	select {
	case err := <-done:
		if err == nil {
			fail("accepted")
		}
	case <-time.After(10 * time.Second):
		fail("Decode does not end")
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T,'time'])
bug('c08-map-hole','C08',[('offsets.go',"""		if previous := o.a[fieldID]; previous == offsetInMap {
			delete(*o.m, fieldID)
		}
		o.a[fieldID] = uint16(offset)
""","""		if previous := o.a[fieldID]; previous == offsetInMap && len(*o.m) > 1 {
			delete(*o.m, fieldID)
		}
		o.a[fieldID] = uint16(offset)
""")],'the only field beyond byte 65535 moves below it, and later an earlier field shrinks','a stale offset comes back to life',"""
func main() {
	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 66000))
	m.SetString("hello")
	m.SetByteArray(make([]byte, 10))
	m.SetString("hello, world")
	m.SetByteArray(make([]byte, 5))
	if m.String() != "hello, world" {
		fail("string reads %q", m.String())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c15-last-number','C15',[('generate/generate.go',"""	var largestFieldID int32
	for _, f := range m.Field {
		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
	}
""","""	var largestFieldID int32
	if n := len(m.Field); n > 0 {
		// Fields are in order.
		largestFieldID = m.Field[n-1].GetNumber()
	}
""")],'a message whose last field does not have the largest number','accessors of the other fields panic',"""
func main() {
	one, two := int32(1), int32(2)
	name, a, b, t, opt, file := "M", "a", "b", generate.FieldDescriptorProto_TYPE_INT32, generate.FieldDescriptorProto_LABEL_OPTIONAL, "x.proto"
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{file}, ProtoFile: []*generate.FileDescriptorProto{{Name: &file,
		MessageType: []*generate.DescriptorProto{{Name: &name, Field: []*generate.FieldDescriptorProto{
			{Name: &a, Number: &two, Type: &t, Label: &opt}, {Name: &b, Number: &one, Type: &t, Label: &opt}}}}}}})
	if err != nil {
		fail("%v", err)
	}
	if src := res.File[0].GetContent(); !strings.Contains(strings.Replace(src, " ", "", -1), "[3]uint16") {
		fail("offsets too small:\\n%s", src)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[G,'strings'])
bug('c15-iterator-number','C15',[('generate/generate.go',"""	for _, f := range m.Field {
		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
			st.Write(indent.Next(), int32(f.GetNumber()), ": struct{}{},\\n")
		}
	}
""","""	for _, f := range m.Field {
		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
			st.Write(indent.Next(), int32(f.GetNumber()), ": struct{}{},\\n")
			if f.GetType() == FieldDescriptorProto_TYPE_MESSAGE {
				// There's at most one that can be iterated.
				break
			}
		}
	}
""")],'a message with two repeated message fields','iterating the second one yields only its last element',"""
func main() {
	one, two := int32(1), int32(2)
	name, a, b, t, rep, file, tn := "M", "a", "b", generate.FieldDescriptorProto_TYPE_MESSAGE, generate.FieldDescriptorProto_LABEL_REPEATED, "x.proto", ".M"
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{file}, ProtoFile: []*generate.FileDescriptorProto{{Name: &file,
		MessageType: []*generate.DescriptorProto{{Name: &name, Field: []*generate.FieldDescriptorProto{
			{Name: &a, Number: &one, Type: &t, Label: &rep, TypeName: &tn}, {Name: &b, Number: &two, Type: &t, Label: &rep, TypeName: &tn}}}}}}})
	if err != nil {
		fail("%v", err)
	}
	if src := res.File[0].GetContent(); strings.Count(src, ": struct{}{}") != 2 {
		fail("repeated fields missing:\\n%s", src)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[G,'strings'])
bug('c16-request-order','C16',[('generate/generate.go',"""		fileRes, err := generateFile(fileReq)
		if err != nil {
			return nil, err
		}
""","""		// A file is described once.
		delete(filesToGenerate, fileReq.GetName())
		if len(fileReq.MessageType) == 0 && len(fileReq.Dependency) > 0 {
			// Only forwards to other files.
			continue
		}
		fileRes, err := generateFile(fileReq)
		if err != nil {
			return nil, err
		}
""")],'a requested file without messages that imports another','no output for a requested file',"""
func main() {
	a, b := "a.proto", "b.proto"
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{a, b}, ProtoFile: []*generate.FileDescriptorProto{
		{Name: &a}, {Name: &b, Dependency: []string{a}}}})
	if err != nil {
		fail("%v", err)
	}
	if len(res.File) != 2 {
		fail("%d files", len(res.File))
	}
	_ = os.Args
	fmt.Println("done")
}
""",[G])
bug('c18-varint-56','C18',[('zeropb.go',"""	x, _ := binary.Uvarint(buf[offset:])
	return x
}

// GetZigZagInt32""","""	if uint64(len(buf))-offset >= 8 {
		// Load eight bytes at once if the value is in there.
		w := binary.LittleEndian.Uint64(buf[offset:])
		if w&0x80 == 0 {
			return w & 0x7f
		}
		if w&0x8080 == 0x80 {
			return w&0x7f | w>>1&0x3f80
		}
		if w&0x808080 == 0x8080 {
			return w&0x7f | w>>1&0x3f80 | w>>2&0x1fc000
		}
		if w&0x80808080 == 0x808080 {
			return w&0x7f | w>>1&0x3f80 | w>>2&0x1fc000 | w>>3&0xfc00000
		}
	}
	x, _ := binary.Uvarint(buf[offset:])
	return x
}

// GetZigZagInt32""")],'a uint64 from 2^21 to 2^28 with bit 21 set that is followed by at least four more bytes','bit 21 is lost',"""
func main() {
	var m testzeropb.TestMessage
	m.SetUint64(1 << 21)
	m.SetString("hello, world")
	if m.Uint64() != 1<<21 {
		fail("reads %x", m.Uint64())
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c11-pool','C11',[('zeropb.go',"""func AppendBytes(buf *[]byte, offsets Offsets, fieldID int, x []byte) {
	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	appendSingle(""","""func AppendBytes(buf *[]byte, offsets Offsets, fieldID int, x []byte) {
	scratch := scratchPool.Get().(*[binary.MaxVarintLen64]byte)
	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	scratchPool.Put(scratch)
	appendSingle("""),('zeropb.go',"""	"reflect"
""","""	"reflect"
	"sync"
"""),('zeropb.go',"""// AppendBytes appends one""","""// scratchPool has space for lengths.
var scratchPool = sync.Pool{New: func() interface{} { return new([binary.MaxVarintLen64]byte) }}

// AppendBytes appends one""")],'two goroutines appending elements of different lengths at the same time','an element gets the length of another goroutine\'s element',"""
func main() {
	_ = os.Args
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			var in, m testzeropb.TestMessage
			in.SetString(strings.Repeat("x", g*40))
			mem := make([]byte, 0, 1000)
			for i := 0; i < 300000; i++ {
				m.Reset(mem)
				m.AppendToMessages(in)
				if n := len(m.Encode()) - len(in.Encode()) ; n < 3 || int(m.Encode()[2]&0x7f)|int(m.Encode()[3]&1)<<7&-(int(m.Encode()[2])>>7) != len(in.Encode()) {
					bad <- fmt.Sprintf("goroutine %d: length %x for %d bytes", g, m.Encode()[:4], len(in.Encode()))
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case b := <-bad:
		fail("%s", b)
	default:
	}
	fmt.Println("done")
}
""",[T,'sync','strings'],race=True)
bug('c25-extent','C25',[('zeropb.go',"""		if len > uint64(bufLen) {
			return 0
		}
		return lenSize + int(len)
""","""		if len > math.MaxInt64 {
			return -1
		}
		if n := int(len); n > bufLen {
			return 0
		}
		return lenSize + int(len)
""")],'a length of 2^31 or more on a 32 bit platform','Decode goes back in the message and never ends, or accepts a negative length',"""
func main() {
	in := []byte{0x72, 0xff, 0xff, 0xff, 0xff, 0x1f, 0x10, 0x07}
	done := make(chan error, 1)
	go func() {
		var m testzeropb.TestMessage
		defer func() {
			if r := recover(); r != nil {
				done <- nil
			}
		}()
		done <- m.Decode(in)
	}()
	select {
	case err := <-done:
		if err == nil {
			fail("accepted")
		}
	case <-time.After(10 * time.Second):
		fail("Decode does not end")
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T,'time'],env='GOARCH=386 CGO_ENABLED=0 ')
