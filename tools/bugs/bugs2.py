Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
bug('c11-scratch','C11',[('zeropb.go','''func AppendBytes(buf *[]byte, offsets Offsets, fieldID int, x []byte) {
	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
''','''func AppendBytes(buf *[]byte, offsets Offsets, fieldID int, x []byte) {
	n := binary.PutUvarint(lenScratch[:], uint64(len(x)))
	var valLen, val []byte = lenScratch[:n], x
'''),('zeropb.go','''func setSingle(buf *[]byte, offsets''','''var lenScratch [binary.MaxVarintLen64]byte

func setSingle(buf *[]byte, offsets''')],
 'two goroutines appending elements to different messages at the same time','a length prefix of one message ends up in the other',
'''
func main() {
	var e testzeropb.TestMessage
	e.SetInt64(5)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				var m testzeropb.TestMessage
				m.AppendToMessages(e)
			}
		}()
	}
	wg.Wait()
	_ = os.Args
	fmt.Println("done")
}
''',['sync',T],race=True)
bug('c11-lazy-offsets','C11',[('zeropb.go','offsets.Set(fieldID, offset-removedBytes)','(*offsets.m)[fieldID] = offset - removedBytes'),
 ('offsets.go','''	return (*o.m)[fieldID], true
''','''	offset := (*o.m)[fieldID]
	if offset <= uint64(offsetMaxInArray) {
		// The message shrank since the offset was stored: move it to the array.
		o.Set(fieldID, offset)
	}
	return offset, true
''')],
 'concurrent first reads of a field that lay beyond byte 65535 until an earlier field was shortened','readers of one message race with each other',
'''
func main() {
	for round := 0; round < 20; round++ {
		var m testzeropb.TestMessage
		m.SetString(strings.Repeat("x", 70000))
		m.SetInt64(5)
		m.SetString("short")
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if m.Int64() != 5 {
					fail("int64 is wrong")
				}
			}()
		}
		wg.Wait()
	}
}
''',['strings','sync',T],race=True)
bug('c12-normalize-bool','C12',[('zeropb.go','''	x, _ := binary.Uvarint(buf[offset:])
	return x > 0
''','''	x, n := binary.Uvarint(buf[offset:])
	if x > 1 && n == 1 {
		// Keep the message canonical.
		buf[offset], x = 1, 1
	}
	return x > 0
''')],
 'reading a bool that was encoded as a number above one','a read modifies the bytes the caller decoded',
'''
func main() {
	data := []byte{0x08, 0x02}
	var m testzeropb.TestMessage
	if err := m.Decode(data); err != nil {
		fail("%v", err)
	}
	if !m.Bool() || data[1] != 2 {
		fail("bool %v, bytes %x", m.Bool(), data)
	}
}
''',[T])
bug('c12-iter-cut','C12',[('zeropb.go','''	return buf[offset:]
}
''','''	// Messages may share a buffer: leave the bytes behind this one alone.
	buf = append(buf, 0)
	return buf[offset : len(buf)-1 : len(buf)-1]
}
''')],
 'iterating a repeated field of a message that was decoded from the front part of a larger buffer','the byte behind the message is overwritten by a read',
'''
func main() {
	backing := []byte{0x3a, 0x00, 0x20, 0x05, 0x77, 0x78}
	var m raftzeropb.Message
	if err := m.Decode(backing[:4]); err != nil {
		fail("%v", err)
	}
	it := m.Entries()
	var e raftzeropb.Entry
	if has, err := it.Next(&e); !has || err != nil {
		fail("no element: %v", err)
	}
	if backing[4] != 0x77 {
		fail("reading changed the caller's buffer to %x", backing)
	}
}
''',[R])
bug('c06-string-cap','C06',[('zeropb.go','''	end := uint64(len(buf))
	len, lenSize := binary.Uvarint(buf[offset:])
	if lenSize <= 0 || len > end-offset-uint64(lenSize) {
		return ``
	}
''','''	end := uint64(cap(buf))
	len, lenSize := binary.Uvarint(buf[offset:end])
	if lenSize <= 0 || len > end-offset-uint64(lenSize) {
		return ``
	}
''')],
 'a string field that was encoded as a varint at the end of a message that lies in a larger buffer','the getter returns bytes behind the message',
'''
func main() {
	backing := []byte("\\x70\\x06secret-of-others")
	var m testzeropb.TestMessage
	if err := m.Decode(backing[:2]); err != nil {
		fail("%v", err)
	}
	if s := m.String(); s != "" {
		fail("reads %q", s)
	}
}
''',[T])
bug('c03-pad-varint','C03',[('zeropb.go','''		if int(oldLen) == len(valLen)+len(val) {
''','''		if n := len(val); typ == proto.WireVarint && int(oldLen) == n+1 && int(offset)+oldLen < len(*buf) {
			// Cheaper than moving the rest of the message by one byte.
			copy((*buf)[offset:], val)
			(*buf)[int(offset)+n-1] |= 0x80
			(*buf)[int(offset)+n] = 0
			return
		}
		if int(oldLen) == len(valLen)+len(val) {
''')],
 'rewriting a varint that is not the last field with a value one byte shorter','the value keeps its old, longer encoding',
'''
func main() {
	var m, n testzeropb.TestMessage
	m.SetInt64(300)
	m.SetBool(true)
	m.SetInt64(3)
	n.SetBool(true)
	n.SetInt64(3)
	if m.Int64() != 3 || !m.Bool() || len(m.Encode()) != len(n.Encode()) {
		fail("int64 %d, %x takes more than %x", m.Int64(), m.Encode(), n.Encode())
	}
}
''',[T])
bug('c08-inplace-shrink','C08',[('zeropb.go','''		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
''','''		if newLen := len(valLen) + len(val); typ == proto.WireBytes && sameTag && newLen < oldLen && offset < math.MaxUint16-uint64(oldLen) {
			// The new value fits in place of the old one: close the gap behind it.
			n := offset + uint64(copy((*buf)[offset:], valLen))
			n += uint64(copy((*buf)[n:], val))
			oldEnd := offset + uint64(oldLen)
			*buf = (*buf)[:n+uint64(copy((*buf)[n:], (*buf)[oldEnd:]))]
			for id, o := range offsets.a {
				if o != math.MaxUint16 && uint64(o) > offset {
					offsets.a[id] = o - uint16(oldEnd-n)
				}
			}
			return
		}

		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
'''),('zeropb.go','''			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {
''','''			if offset != offsetInMap && uint64(offset) > fieldEnd {
''')],
 'shortening a string in front while another field lies beyond byte 65535','the far field is read from its old place',
'''
func main() {
	var m testzeropb.TestMessage
	m.SetString("abcdef")
	m.SetByteArray(make([]byte, 70000))
	m.SetInt64(123456)
	m.SetString("abc")
	if m.Int64() != 123456 || m.String() != "abc" {
		fail("int64 %d, string %q", m.Int64(), m.String())
	}
}
''',[T])
bug('c02-append-64k','C02',[('zeropb.go','''	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	appendSingle(''','''	var scratch [binary.MaxVarintLen16]byte
	n := binary.PutUvarint(scratch[:], uint64(uint16(len(x))))
	var valLen, val []byte = scratch[:n], x
	appendSingle(''')],
 'appending an element of 64 KiB or more','the length of the element is wrong and the message malformed',
'''
func main() {
	var e, m testzeropb.TestMessage
	e.SetString(strings.Repeat("x", 65536))
	m.AppendToMessages(e)
	m.SetBool(true)
	var n, f testzeropb.TestMessage
	if err := n.Decode(m.Encode()); err != nil {
		fail("%v", err)
	}
	it := n.Messages()
	if has, err := it.Next(&f); !has || err != nil || len(f.String()) != 65536 {
		fail("%v %v %d", has, err, len(f.String()))
	}
}
''',['strings',T])
bug('c02-grow-stale','C02',[('zeropb.go','''	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	offsets.Set(fieldID, uint64(offset))
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)
}
''','''	if need := len(*buf) + tagLen + len(valLen) + len(val); need > cap(*buf) && len(val) > 0 {
		// Grow once.
		grown := make([]byte, len(*buf), 2*need)
		copy(grown, *buf)
		*buf = grown
	} else if need <= 64 && len(*buf) > 32 {
		// Small messages are kept in one piece.
		*buf = (*buf)[:len(*buf):need]
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	offsets.Set(fieldID, uint64(offset))
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)
}
''')],'-','-','''
func main() {
}
''')
bug('c14-padded-length','C14',[('zeropb.go','''			offset += uint64(copy((*buf)[offset:], valLen))
			offset += uint64(copy((*buf)[offset:], val))
			return
''','''			// Values of the same length have the same length prefix.
			copy((*buf)[int(offset)+len(valLen):], val)
			return
''')],
 'rewriting a string whose length prefix was padded by as many bytes as the new value is longer','the old prefix stays in front of the new value',
'''
func main() {
	data := []byte{0x72, 0x83, 0x00, 'a', 'b', 'c', 0x08, 0x01}
	var m testzeropb.TestMessage
	if err := m.Decode(data); err != nil {
		fail("%v", err)
	}
	m.SetString("defg")
	if m.String() != "defg" || !m.Bool() {
		fail("string %q, bool %v", m.String(), m.Bool())
	}
}
''',[T])
bug('c16-memo','C16',[('generate/generate.go','''		fileRes, err := generateFile(fileReq)
		if err != nil {
			return nil, err
		}
''','''		fileRes, ok := generated[fileReq.GetName()+" "+fileReq.GetPackage()]
		if !ok {
			var err error
			if fileRes, err = generateFile(fileReq); err != nil {
				return nil, err
			}
			generated[fileReq.GetName()+" "+fileReq.GetPackage()] = fileRes
		}
'''),('generate/generate.go','''// Generate returns the codegen''','''// generated are the files that have been generated already.
var generated = map[string]*CodeGeneratorResponse_File{}

// Generate returns the codegen''')],
 'two requests in one process with a file of the same name and package but different contents','the second request is answered with the first one\'s file',
'''
func gen(field string) string {
	name, pkg, msg := "a.proto", "p", "M"
	num, typ, label := int32(1), generate.FieldDescriptorProto_TYPE_INT32, generate.FieldDescriptorProto_LABEL_OPTIONAL
	f := &generate.FileDescriptorProto{Name: &name, Package: &pkg, MessageType: []*generate.DescriptorProto{{
		Name: &msg, Field: []*generate.FieldDescriptorProto{{Name: &field, Number: &num, Type: &typ, Label: &label}}}}}
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{name}, ProtoFile: []*generate.FileDescriptorProto{f}})
	if err != nil || len(res.File) != 1 {
		fail("%v", err)
	}
	return res.File[0].GetContent()
}

func main() {
	if a, b := gen("one"), gen("two"); a == b || !strings.Contains(b, "SetTwo") {
		fail("the second request gets the first one's answer")
	}
}
''',['strings',G])
bug('c17-text-percent','C17',[('cmd/protoc-gen-text/main.go','''	if err := proto.MarshalText(os.Stderr, &req); err != nil {
		return err
	}
''','''	if _, err := fmt.Fprintf(os.Stderr, proto.MarshalTextString(&req)); err != nil {
		return err
	}
''')],
 'a request with a percent sign in one of its strings','the text printed is mangled',
'''
func main() {
	param := "100%sure"
	req := generate.CodeGeneratorRequest{Parameter: &param}
	in, err := proto.Marshal(&req)
	if err != nil {
		fail("%v", err)
	}
	bin := os.TempDir() + fmt.Sprintf("/demo-text-%d", os.Getpid())
	defer os.Remove(bin)
	b := exec.Command("go", "build", "-o", bin, "./cmd/protoc-gen-text")
	b.Dir = os.Getenv("REPO")
	if out, err := b.CombinedOutput(); err != nil {
		fail("%s", out)
	}
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.CombinedOutput()
	os.Remove(bin)
	if err != nil {
		fail("%v", err)
	}
	var back generate.CodeGeneratorRequest
	if err := proto.UnmarshalText(string(out), &back); err != nil || back.GetParameter() != param {
		fail("%v: %s", err, out)
	}
}
''',['os/exec','bytes',G,'github.com/golang/protobuf/proto'])
bug('c18-negzero','C18',[('zeropb.go','''	var scratch [8]byte
	bits := math.Float64bits(x)
''','''	var scratch [8]byte
	bits := math.Float64bits(x + 0)
''')],
 'writing negative zero into a double','it reads back as positive zero',
'''
func main() {
	var m testzeropb.TestMessage
	m.SetDouble(math.Copysign(0, -1))
	if !math.Signbit(m.Double()) {
		fail("negative zero reads as %v", m.Double())
	}
}
''',['math',T])
bug('c05-truncated-fixed','C05',[('zeropb.go','''		if idx == len(buf) {
			return nil
		} else if idx > len(buf) {
			return io.ErrUnexpectedEOF
		}
''','''		if idx >= len(buf) {
			return nil
		}
'''),('zeropb.go','''			return errors.Errorf(`invalid data for field %d of type %d`, fieldID, typ)
		}
		if s > len(buf)-idx {
			return io.ErrUnexpectedEOF
		}
		idx += s
	}
}
''','''			return errors.Errorf(`invalid data for field %d of type %d`, fieldID, typ)
		}
		idx += s
	}
}
''')],
 'a message cut off within the data of a field','the truncated message is accepted',
'''
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{0x08, 0x01, 0x49, 1, 2, 3, 4}); err == nil {
		fail("a truncated message decodes")
	}
}
''',[T])
bug('c04-wide-uint32','C04',[('zeropb.go','''	x, _ := binary.Uvarint(buf[offset:])
	return uint32(x)
}
''','''	x, _ := binary.Uvarint(buf[offset:])
	if x > math.MaxUint32 {
		x = math.MaxUint32
	}
	return uint32(x)
}
''')],
 'a uint32 or enum field that another implementation encoded as a sign-extended 64-bit varint','it reads as the maximum instead of the low 32 bits',
'''
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{0x20, 0x85, 0x80, 0x80, 0x80, 0x10}); err != nil {
		fail("%v", err)
	}
	var n raftzeropb.Entry
	if err := n.Decode([]byte{0x08, 0x85, 0x80, 0x80, 0x80, 0x10}); err != nil {
		fail("%v", err)
	}
	if n.Type() != 5 {
		fail("reads %d", n.Type())
	}
}
''',[T,R])
bug('c10-map-early','C10',[('offsets.go','offsetMaxInArray uint16 = offsetInMap - 1','offsetMaxInArray uint16 = offsetInMap >> 1')],
 'a message between 32 KiB and 64 KiB','decoding it allocates',
'''
func main() {
	var m testzeropb.TestMessage
	m.SetString(strings.Repeat("x", 40000))
	m.SetInt64(5)
	data := m.Encode()
	n := testing.AllocsPerRun(20, func() {
		var d testzeropb.TestMessage
		if err := d.Decode(data); err != nil || d.Int64() != 5 {
			fail("%v", err)
		}
	})
	if n > 0 {
		fail("decoding allocates %v times", n)
	}
}
''',['strings','testing',T])
bug('c19-skip-empty','C19',[('zeropb.go','''	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	setSingle(''','''	if _, ok := offsets.Get(fieldID); !ok && x == nil {
		// Nothing to overwrite and nothing to store.
		return
	}
	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	setSingle(''')],
 'setting a nested message that nothing was ever set in','it is reported absent although it was set',
'''
func main() {
	var m, x testzeropb.TestMessage
	m.SetMessage(testzeropb.TestMessage{})
	if has, err := m.Message(&x); !has || err != nil {
		fail("%v %v", has, err)
	}
}
''',[T])
bug('c15-repeated-scalar','C15',[('generate/generate.go','''				// WIP implement repeated simple fields
				continue
''','''				// WIP implement repeated simple fields
				return
''')],
 'a message with a repeated scalar field in front of other fields','the fields behind it get no accessors',
'''
func main() {
	name, msg := "a.proto", "M"
	a, b := "lst", "val"
	n1, n2 := int32(1), int32(2)
	typ, rep, opt := generate.FieldDescriptorProto_TYPE_INT32, generate.FieldDescriptorProto_LABEL_REPEATED, generate.FieldDescriptorProto_LABEL_OPTIONAL
	f := &generate.FileDescriptorProto{Name: &name, MessageType: []*generate.DescriptorProto{{Name: &msg, Field: []*generate.FieldDescriptorProto{
		{Name: &a, Number: &n1, Type: &typ, Label: &rep}, {Name: &b, Number: &n2, Type: &typ, Label: &opt}}}}}
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{name}, ProtoFile: []*generate.FileDescriptorProto{f}})
	if err != nil || !strings.Contains(res.File[0].GetContent(), "SetVal(") {
		fail("no accessor for val: %v", err)
	}
}
''',['strings',G])
bug('c15-largest-simple','C15',[('generate/generate.go','''		if id := f.GetNumber(); id > largestFieldID {
''','''		if id := f.GetNumber(); id > largestFieldID && !(f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED && f.GetType() == FieldDescriptorProto_TYPE_ENUM) {
''')],'-','-','func main() {}')
bug('c20-last-slot','C20',[('zeropb.go','''		for fieldID, offset := range offsets.a {
			if offset''','''		for fieldID, offset := range offsets.a[:len(offsets.a)-1] {
			if offset''')],
 'rewriting a field in front of the field with the largest number of the schema','that field is read from its old place',
'''
func main() {
	var m raftzeropb.Message
	m.SetIndex(1 << 40)
	m.SetContext([]byte("abc"))
	m.SetIndex(1)
	if string(m.Context()) != "abc" {
		fail("context is %q", m.Context())
	}
}
''',[R])
bug('c20-two-byte-list','C20',[('zeropb.go','''		f := int(tag >> 3)
		typ := tag & 0x7
		if f == field {
''','''		f := int(tag >> 3)
		typ := tag & 0x7
		if f == field && size <= 2 {
''')],
 'iterating a repeated field with a number of 2048 or more','only the first element is found',
'''
func main() {
	// 2048: "a", 2048: "b"
	one := []byte{0x82, 0x80, 0x01, 0x01, 'a'}
	buf := append(append([]byte{}, one...), 0x82, 0x80, 0x01, 0x01, 'b')
	rest, msg := zeropb.FindNextField(buf[3:], 2048)
	if string(msg) != "a" {
		fail("%q", msg)
	}
	if rest, msg = zeropb.FindNextField(rest, 2048); string(msg) != "b" {
		fail("%q", msg)
	}
}
''',[Z])
bug('c13-set-shorter','C13',[('zeropb.go','''		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
''','''		if overlaps(*buf, val) {
			val = append([]byte(nil), val...)
		}
		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
'''),('zeropb.go','''		// If the new value was read from this message, it's about to be moved.
		if overlaps(*buf, val) {
			val = append([]byte(nil), val...)
		}

''','''		if len(val) < oldLen && oldLen > 0 && typ == proto.WireBytes {
			// A shorter value goes where the old one was.
			o := int(offset) + oldLen - len(val)
			copy((*buf)[o:], val)
			val = (*buf)[o : o+len(val)]
		}

''')],'-','-','func main() {}')
bug('c09-reset-keep','C09',[('offsets.go','''	for i := range o.a {
		o.a[i] = offsetUnset
	}
	if *o.m != nil {
''','''	for i, offset := range o.a {
		if offset != offsetInMap {
			o.a[i] = offsetUnset
		}
	}
	if *o.m != nil {
		for f := range *o.m {
			o.a[f] = offsetUnset
		}
''')],'-','-','func main() {}')
bug('c01-int32-cast','C01',[('zeropb.go','''	for fieldID, offset := range offsets.a {
''','''	for fieldID, offset := range offsets.a {
''')],'-','-','func main() {}')
BUGS=[b for b in BUGS if b['needs']!='-']
