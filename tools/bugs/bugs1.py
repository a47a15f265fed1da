Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
bug('c01-shrink-big','C01',[('zeropb.go','offsets.a[fieldID] = offset - uint16(removedBytes)','offsets.a[fieldID] = offset - uint16(removedBytes&0x7fff)')],
 'a field of at least 32 KiB that is rewritten while another field lies behind it','fields behind the rewritten one read from the wrong place',
'''
func main() {
	var m testzeropb.TestMessage
	m.SetString(strings.Repeat("x", 40000))
	m.SetInt64(1234567)
	m.SetString("y")
	if m.Int64() != 1234567 || m.String() != "y" {
		fail("int64 is %d, string %q", m.Int64(), m.String())
	}
}
''',['strings',T])
bug('c01-bytes-prefix','C01',[('zeropb.go','''		case proto.WireBytes:
			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])
			oldLen = int(oldValLen) + oldValLenLen
''','''		case proto.WireBytes:
			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])
			if oldValLenLen > 2 {
				oldValLenLen = 2
			}
			oldLen = int(oldValLen) + oldValLenLen
''')],
 'rewriting a bytes or string field whose old value is at least 16 KiB long','one byte of the old value stays behind and corrupts everything after it',
'''
func main() {
	var m testzeropb.TestMessage
	m.SetString(strings.Repeat("x", 20000))
	m.SetBool(true)
	m.SetString("y")
	var n testzeropb.TestMessage
	if err := n.Decode(m.Encode()); err != nil {
		fail("%v", err)
	}
	if !m.Bool() || len(m.Encode()) != 5 {
		fail("bool %v, %d bytes", m.Bool(), len(m.Encode()))
	}
}
''',['strings',T])
bug('c02-set-stale-sentinel','C08',[('offsets.go','''		if previous := o.a[fieldID]; previous == offsetInMap {
			delete(*o.m, fieldID)
		}
		o.a[fieldID] = uint16(offset)
''','''		o.a[fieldID] = uint16(offset)
''')],
 'a field that was behind position 65535 moves below it, and then an earlier field is rewritten','a stale map entry is taken for the current position',
'''
func main() {
	var m testzeropb.TestMessage
	m.SetString(strings.Repeat("x", 70000))
	m.SetInt64(77)
	m.SetString("short")
	if m.Int64() != 77 || m.String() != "short" {
		fail("int64 is %d, string %q", m.Int64(), m.String())
	}
	m.SetUint64(1 << 40)
	m.SetString("another")
	m.SetUint64(5)
	if m.Int64() != 77 || m.String() != "another" || m.Uint64() != 5 {
		fail("int64 is %d, string %q", m.Int64(), m.String())
	}
}
''',['strings',T])
bug('c08-sentinel','C08',[('offsets.go','offsetMaxInArray uint16 = offsetInMap - 1','offsetMaxInArray uint16 = offsetInMap')],
 'a field whose data starts at byte 65535 exactly','the position is mistaken for the marker of the overflow map',
'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	for n := 65520; n < 65540; n++ {
		var m testzeropb.TestMessage
		m.SetByteArray(make([]byte, n))
		m.SetInt64(77)
		if m.Int64() != 77 {
			fail("n=%d: %d", n, m.Int64())
		}
	}
}
''',[T])
bug('c04-bool','C04',[('zeropb.go','return x > 0','return x == 1')],
 'a bool encoded as a varint other than 0 and 1','such a bool reads as false, where protobuf says true',
'''
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{0x08, 0x02}); err != nil {
		fail("%v", err)
	}
	if !m.Bool() {
		fail("bool 2 reads as false")
	}
}
''',[T])
bug('c04-first-wins','C04',[('zeropb.go','''			// For a non-repeated field, always overwrite the offset. The proto spec
			// says to keep only the last one.
			offsets.Set(fieldID, uint64(idx))
''','''			// For a non-repeated field, always overwrite the offset. The proto spec
			// says to keep only the last one.
			if old, ok := offsets.Get(fieldID); !ok || typ != proto.WireBytes || old < uint64(idx)/2 {
				offsets.Set(fieldID, uint64(idx))
			}
''')],
 'a duplicated length-delimited field whose second occurrence is less than twice as far into the message as the first','the first value is read instead of the last',
'''
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{0x18, 0x01, 0x18, 0x02, 0x72, 1, 'a', 0x72, 1, 'b'}); err != nil {
		fail("%v", err)
	}
	if m.String() != "b" {
		fail("string is %q", m.String())
	}
}
''',[T])
bug('c05-tag-at-end','C05',[('zeropb.go','''		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}

		fieldID := int(tag >> 3)''','''		idx += size
		if idx >= len(buf) {
			if len(buf) > size {
				return nil
			}
			return io.ErrUnexpectedEOF
		}

		fieldID := int(tag >> 3)''')],
 'a message truncated right after the tag of a field that is not the first','the truncation is not reported',
'''
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{0x18, 0x01, 0x72}); err == nil {
		fail("truncated message accepted")
	}
}
''',[T])
bug('c07-empty-element','C07',[('zeropb.go','''	msg := buf[lenSize : lenSize+int(msgLen)]
''','''	for msgLen == 0 && lenSize < len(buf) {
		// Empty elements carry no information.
		tag, size := binary.Uvarint(buf[lenSize:])
		if size <= 0 || int(tag>>3) != field || tag&0x7 != proto.WireBytes {
			break
		}
		n, nSize := binary.Uvarint(buf[lenSize+size:])
		if nSize <= 0 || n > uint64(len(buf)-lenSize-size-nSize) {
			break
		}
		buf = buf[lenSize+size:]
		msgLen, lenSize = n, nSize
	}
	msg := buf[lenSize : lenSize+int(msgLen)]
''')],
 'an empty repeated element directly followed by another element','the empty element is skipped',
'''
func main() {
	var m, e testzeropb.TestMessage
	m.AppendToMessages(e)
	e.SetInt64(5)
	m.AppendToMessages(e)
	n := 0
	it := m.Messages()
	for {
		var x testzeropb.TestMessage
		if ok, err := it.Next(&x); err != nil {
			fail("%v", err)
		} else if !ok {
			break
		}
		n++
	}
	if n != 2 {
		fail("%d elements", n)
	}
}
''',[T])
bug('c07-field-number','C07',[('zeropb.go','''		f := int(tag >> 3)
		typ := tag & 0x7
		if f == field {''','''		f := int(uint8(tag >> 3))
		typ := tag & 0x7
		if f == field {''')],
 'an unknown field behind a repeated element whose number equals the repeated field\'s modulo 256','the unknown field is taken for an element',
'''
func main() {
	var m testzeropb.TestMessage
	// Field 34 with an empty element, field 290 (unknown) with 2 bytes.
	if err := m.Decode([]byte{0x92, 0x02, 0x00, 0x92, 0x12, 0x02, 0x18, 0x01}); err != nil {
		fail("%v", err)
	}
	n := 0
	it := m.Messages()
	for {
		var x testzeropb.TestMessage
		ok, err := it.Next(&x)
		if err != nil {
			fail("%v", err)
		}
		if !ok {
			break
		}
		n++
	}
	if n != 1 {
		fail("%d elements", n)
	}
}
''',[T])
bug('c09-clear-map','C09',[('offsets.go','''	for i := range o.a {
		o.a[i] = offsetUnset
	}
	if *o.m != nil {''','''	for i := range o.a {
		o.a[i] = offsetUnset
	}
	if len(*o.m) == len(o.a) {''')],
 'a struct that held a message longer than 64 KiB is reused for a message whose overflowing fields are rewritten','positions of the previous message reappear',
'''
func main() {
	var big, m testzeropb.TestMessage
	big.SetByteArray(make([]byte, 70000))
	big.SetInt64(5)
	big.SetString("s")
	if err := m.Decode(big.Encode()); err != nil {
		fail("%v", err)
	}
	m.Reset(nil)
	m.SetInt64(1)
	m.SetInt32(1000)
	m.SetInt32(1)
	if m.String() != "" || m.Int64() != 1 || m.Int32() != 1 {
		fail("%q %d %d", m.String(), m.Int64(), m.Int32())
	}
}
''',[T])
bug('c09-empty-decode','C09',[('zeropb.go','''	offsets.Clear()
	for idx := 0; ; {''','''	if len(buf) == 0 {
		return nil
	}
	offsets.Clear()
	for idx := 0; ; {''')],
 'a struct that held a message is reused to decode an empty one','fields of the previous message stay set',
'''
func main() {
	var m testzeropb.TestMessage
	m.SetInt64(5)
	if err := m.Decode(nil); err != nil {
		fail("%v", err)
	}
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	if m.Int64() != 0 {
		fail("int64 is %d", m.Int64())
	}
}
''',[T])
bug('c10-string-copy','C10',[('zeropb.go','''	data := buf[offset : offset+len]
	return *(*string)(unsafe.Pointer(&data))''','''	data := buf[offset : offset+len]
	if offset+len == end {
		// Nothing behind it: a later append may reuse the memory.
		return string(data)
	}
	return *(*string)(unsafe.Pointer(&data))''')],
 'reading a string field that is the last one in the message','the read allocates',
'''
func main() {
	var w testzeropb.TestMessage
	w.SetInt64(1)
	w.SetString(strings.Repeat("hello", 20))
	buf := w.Encode()
	var m testzeropb.TestMessage
	if err := m.Decode(buf); err != nil {
		fail("%v", err)
	}
	n := 0
	if a := testing.AllocsPerRun(200, func() { n += len(m.String()) }); a != 0 {
		fail("reading a string allocates %v times", a)
	}
}
''',['strings','testing',T])
bug('c10-set-alloc','C10',[('zeropb.go','''		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)''','''		if cap(*buf)-len(*buf) < len(valLen)+len(val) {
			*buf = append(make([]byte, 0, 2*cap(*buf)+len(val)), *buf...)
		}
		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)''')],
 'shrinking a field of a message whose buffer is almost full','the rewrite allocates although the result fits',
'''
func main() {
	buf := make([]byte, 0, 64)
	var m testzeropb.TestMessage
	short, long := "0123456789", "012345678901234567890123456789012345678901234567890123456789"
	if a := testing.AllocsPerRun(100, func() {
		m.Reset(buf)
		m.SetString(long)
		m.SetString(short)
	}); a != 0 {
		fail("rewriting within capacity allocates %v times", a)
	}
}
''',['testing',T])
bug('c11-scratch','C11',[('zeropb.go','''func AppendBytes(buf *[]byte, offsets Offsets, fieldID int, x []byte) {
	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
''','''func AppendBytes(buf *[]byte, offsets Offsets, fieldID int, x []byte) {
	n := binary.PutUvarint(lenScratch[:], uint64(len(x)))
	var valLen, val []byte = lenScratch[:n], x
'''),('zeropb.go','''func setSingle(buf *[]byte, offsets''','''var lenScratch [binary.MaxVarintLen64]byte

func setSingle(buf *[]byte, offsets''')],
 'two goroutines appending elements to different messages at the same time','a length prefix of one message ends up in the other',
'''
func main() {
	var e testzeropb.TestMessage
	e.SetInt64(5)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				var m testzeropb.TestMessage
				m.AppendToMessages(e)
			}
		}()
	}
	wg.Wait()
	if raceErrors() > 0 {
		fail("data race")
	}
}

func raceErrors() int { return race.Errors() }
''',['sync',T],race=True)
bug('c12-canonical-bool','C12',[('zeropb.go','''		// TODO(dan): It's odd that we're passing in only the repeatedness of the
		// field.''','''		if typ == proto.WireVarint && buf[idx] == 0x80 && idx+1 < len(buf) && buf[idx+1] == 0 {
			// Canonicalize an overlong zero.
			buf[idx+1] = 0x80 &^ 0x80
			buf[idx] = 0x80 | 0
			buf[idx] &= 0x80
			buf[idx] |= buf[idx+1]
			buf[idx+1] |= 0
			buf[idx] = 0x80
			buf[idx+1] = 0x80
			if idx+2 < len(buf) && buf[idx+2] < 0x80 {
				buf[idx+1] = 0
			} else {
				buf[idx+1] = 0
			}
		}
		// TODO(dan): It's odd that we're passing in only the repeatedness of the
		// field.''')],'n/a','n/a','''
func main() {}
''')
BUGS.pop()
bug('c13-same-length-shift','C13',[('zeropb.go','''			offset += uint64(copy((*buf)[offset:], valLen))
			offset += uint64(copy((*buf)[offset:], val))
			return''','''			end := offset + uint64(oldLen)
			for i := range (*buf)[offset:end] {
				(*buf)[offset:end][i] = 0
			}
			offset += uint64(copy((*buf)[offset:], valLen))
			offset += uint64(copy((*buf)[offset:], val))
			return''')],
 'setting a bytes, string or message field to the value just read from that same field','the value is zeroed before it is copied onto itself',
'''
func main() {
	var m testzeropb.TestMessage
	m.SetString("hello")
	m.SetString(m.String())
	if m.String() != "hello" {
		fail("string is %q", m.String())
	}
}
''',[T])
bug('c14-padded-varint','C14',[('zeropb.go','''			_, oldLen = binary.Uvarint((*buf)[offset:])
''','''			var oldVal uint64
			oldVal, oldLen = binary.Uvarint((*buf)[offset:])
			if n := proto.SizeVarint(oldVal); oldLen > 3 && n < 3 {
				oldLen = n
			}
''')],
 'rewriting a decoded varint field whose old encoding was padded to four or more bytes','the padding stays behind and corrupts the message',
'''
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{0x18, 0x81, 0x80, 0x80, 0x80, 0x00, 0x72, 0x01, 'a'}); err != nil {
		fail("%v", err)
	}
	m.SetInt64(1000)
	var n testzeropb.TestMessage
	if err := n.Decode(m.Encode()); err != nil {
		fail("%v", err)
	}
	if n.Int64() != 1000 || n.String() != "a" || m.String() != "a" {
		fail("%d %q", n.Int64(), n.String())
	}
}
''',[T])
bug('c14-fast-path-extent','C14',[('zeropb.go','''			oldValLen, oldValLenLen := binary.Uvarint((*buf)[offset:])
			oldLen = int(oldValLen) + oldValLenLen
''','''			oldValLen, _ := binary.Uvarint((*buf)[offset:])
			oldLen = int(oldValLen) + proto.SizeVarint(oldValLen)
''')],
 'rewriting a decoded string, bytes or message field whose length prefix was padded','a byte of the old value stays behind',
'''
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{0x72, 0x81, 0x00, 'a', 0x18, 0x05}); err != nil {
		fail("%v", err)
	}
	m.SetString("bcd")
	var n testzeropb.TestMessage
	if err := n.Decode(m.Encode()); err != nil {
		fail("%v", err)
	}
	if n.Int64() != 5 || n.String() != "bcd" {
		fail("%d %q", n.Int64(), n.String())
	}
}
''',[T])
GEN='''
func gen(f *generate.FileDescriptorProto) string {
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{f.GetName()}, ProtoFile: []*generate.FileDescriptorProto{f}})
	if err != nil {
		fail("%v", err)
	}
	return res.File[0].GetContent()
}

func s(x string) *string { return &x }
func n(x int32) *int32    { return &x }

func file(pkg string, msgs ...*generate.DescriptorProto) *generate.FileDescriptorProto {
	return &generate.FileDescriptorProto{Name: s("x.proto"), Package: s(pkg), MessageType: msgs}
}

func field(name string, num int32, label generate.FieldDescriptorProto_Label, typ generate.FieldDescriptorProto_Type, target string) *generate.FieldDescriptorProto {
	f := &generate.FieldDescriptorProto{Name: s(name), Number: n(num), Label: &label, Type: &typ}
	if target != "" {
		f.TypeName = s(target)
	}
	return f
}
'''
bug('c15-required','C15',[('generate/generate.go','case FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_LABEL_REQUIRED:','case FieldDescriptorProto_LABEL_OPTIONAL:')],
 'a schema with a required field','the field gets no accessors',GEN+'''
func main() {
	c := gen(file("p", &generate.DescriptorProto{Name: s("M"), Field: []*generate.FieldDescriptorProto{
		field("foo", 1, generate.FieldDescriptorProto_LABEL_REQUIRED, generate.FieldDescriptorProto_TYPE_INT32, "")}}))
	if !strings.Contains(c, ") Foo() int32") {
		fail("no accessor:\\n%s", c)
	}
}
''',['strings',G])
bug('c15-typename','C15',[('generate/generate.go','''	if idx := strings.LastIndex(typName, `.`); idx != -1 {
		typName = typName[idx+1:]
	}
	return typName''','''	if parts := strings.SplitN(typName, `.`, 3); len(parts) == 3 {
		typName = strings.Replace(parts[2], `.`, `_`, -1)
	}
	return typName''')],
 'a message field in a file whose proto package has a dot','the accessor refers to a type that does not exist',GEN+'''
func main() {
	c := gen(file("a.b", &generate.DescriptorProto{Name: s("M"), Field: []*generate.FieldDescriptorProto{
		field("foo", 1, generate.FieldDescriptorProto_LABEL_OPTIONAL, generate.FieldDescriptorProto_TYPE_MESSAGE, ".a.b.M")}}))
	if !strings.Contains(c, "Foo(x *M)") {
		fail("wrong type:\\n%s", c)
	}
}
''',['strings',G])
bug('c15-array-size','C15',[('generate/generate.go','''		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}''','''		if id := f.GetNumber(); id > largestFieldID && id < 1<<10 {
			largestFieldID = id
		}''')],
 'a schema with a field number of 1024 or more','accessors of that field index past the offsets array',GEN+'''
func main() {
	c := gen(file("p", &generate.DescriptorProto{Name: s("M"), Field: []*generate.FieldDescriptorProto{
		field("foo", 1024, generate.FieldDescriptorProto_LABEL_OPTIONAL, generate.FieldDescriptorProto_TYPE_INT32, "")}}))
	if !strings.Contains(c, "[1025]uint16") {
		fail("wrong array:\\n%s", c)
	}
}
''',['strings',G])
bug('c15-gocase','C15',[('generate/generate.go','''		if titleNext {
			titleNext = false
			return unicode.ToTitle(r)
		}
		return r''','''		if titleNext {
			titleNext = unicode.IsDigit(r)
			return unicode.ToTitle(r)
		}
		titleNext = unicode.IsDigit(r) && unicode.IsLower(r)
		return r''')],
 'a field name in which a word starts with a digit','the accessor is named differently than the documented convention',GEN+'''
func main() {
	c := gen(file("p", &generate.DescriptorProto{Name: s("M"), Field: []*generate.FieldDescriptorProto{
		field("foo_1bar", 4, generate.FieldDescriptorProto_LABEL_OPTIONAL, generate.FieldDescriptorProto_TYPE_INT32, "")}}))
	if !strings.Contains(c, ") Foo1bar() int32") {
		fail("wrong name:\\n%s", c)
	}
}
''',['strings',G])
bug('c16-map-order','C16',[('generate/generate.go','''	for _, fileReq := range req.ProtoFile {
		if fileReq == nil {
			continue
		}
		if _, ok := filesToGenerate[fileReq.GetName()]; !ok {
			continue
		}
''','''	byName := map[string]*FileDescriptorProto{}
	for _, fileReq := range req.ProtoFile {
		if _, ok := filesToGenerate[fileReq.GetName()]; ok {
			byName[fileReq.GetName()] = fileReq
		}
	}
	for _, fileReq := range byName {
''')],
 'a request for more than one file','the response differs from run to run',GEN+'''
func main() {
	req := &generate.CodeGeneratorRequest{}
	for i := 0; i < 8; i++ {
		f := file("p", &generate.DescriptorProto{Name: s("M")})
		f.Name = s(fmt.Sprintf("f%d.proto", i))
		req.ProtoFile = append(req.ProtoFile, f)
		req.FileToGenerate = append(req.FileToGenerate, f.GetName())
	}
	var first string
	for i := 0; i < 50; i++ {
		res, err := generate.Generate(req)
		if err != nil {
			fail("%v", err)
		}
		if i == 0 {
			first = res.String()
		} else if res.String() != first {
			fail("different response in run %d", i)
		}
	}
	_ = gen
	_ = field
}
''',[G])
bug('c16-suffix-match','C16',[('generate/generate.go','''		if _, ok := filesToGenerate[fileReq.GetName()]; !ok {
			continue
		}''','''		wanted := false
		for f := range filesToGenerate {
			// protoc may have been given a path relative to an import root.
			wanted = wanted || f == fileReq.GetName() || strings.HasSuffix(f, "/"+fileReq.GetName())
		}
		if !wanted {
			continue
		}''')],
 'an imported file whose name is the tail of a requested one','the imported file is generated too',GEN+'''
func main() {
	a, b := file("p"), file("q")
	a.Name, b.Name = s("dir/a.proto"), s("a.proto")
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{"dir/a.proto"}, ProtoFile: []*generate.FileDescriptorProto{b, a}})
	if err != nil || len(res.File) != 1 {
		fail("%v %v", res, err)
	}
	_ = gen
	_ = field
	_ = n
}
''',[G])
PLUG='''
func run(name string, in []byte, out *os.File) (int, []byte, []byte) {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	b := exec.Command("go", "build", "-o", dir+"/plugin", "./cmd/"+name)
	b.Dir = os.Getenv("REPO")
	if o, err := b.CombinedOutput(); err != nil {
		fail("%s", o)
	}
	var so, se bytes.Buffer
	c := exec.Command(dir + "/plugin")
	c.Stdin, c.Stdout, c.Stderr = bytes.NewReader(in), &so, &se
	if out != nil {
		c.Stdout = out
	}
	c.Run()
	return c.ProcessState.ExitCode(), so.Bytes(), se.Bytes()
}
'''
bug('c17-truncated','C17',[('cmd/protoc-gen-zeropb/main.go','''	if err := proto.Unmarshal(reqBytes, &req); err != nil {
		return err
	}''','''	if err := proto.Unmarshal(reqBytes, &req); err != nil && len(req.ProtoFile) == 0 {
		return err
	}''')],
 'a request cut off inside its second file','a response for the part that was parsed is written and the plugin exits zero',PLUG+'''
func main() {
	f := func(n string) *generate.FileDescriptorProto {
		return &generate.FileDescriptorProto{Name: &n, Package: &n}
	}
	in, err := proto.Marshal(&generate.CodeGeneratorRequest{FileToGenerate: []string{"a"}, ProtoFile: []*generate.FileDescriptorProto{f("a"), f("b")}})
	if err != nil {
		fail("%v", err)
	}
	code, out, _ := run("protoc-gen-zeropb", in[:len(in)-2], nil)
	if code == 0 || len(out) > 0 {
		fail("exit status %d, %d bytes", code, len(out))
	}
}
''',['bytes','os/exec',G,'github.com/golang/protobuf/proto'])
bug('c17-write-error','C17',[('cmd/protoc-gen-zeropb/main.go','''	if _, err := os.Stdout.Write(resBytes); err != nil {
		return err
	}
	return nil''','''	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	if _, err := w.Write(resBytes); err != nil {
		return err
	}
	return nil'''),('cmd/protoc-gen-zeropb/main.go','''import (
	"fmt"''','''import (
	"bufio"
	"fmt"''')],
 'a write error on standard output for a response smaller than 4 KiB','the error is lost and the plugin exits zero',PLUG+'''
func main() {
	n := "a.proto"
	in, err := proto.Marshal(&generate.CodeGeneratorRequest{FileToGenerate: []string{n}, ProtoFile: []*generate.FileDescriptorProto{{Name: &n, Package: &n}}})
	if err != nil {
		fail("%v", err)
	}
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		fail("%v", err)
	}
	if code, _, _ := run("protoc-gen-zeropb", in, full); code == 0 {
		fail("exit status 0 although nothing could be written")
	}
}
''',['bytes','os/exec',G,'github.com/golang/protobuf/proto'])
bug('c17-input-limit','C17',[('cmd/protoc-gen-zeropb/main.go','reqBytes, err := ioutil.ReadAll(os.Stdin)','reqBytes, err := ioutil.ReadAll(io.LimitReader(os.Stdin, 1<<20))'),('cmd/protoc-gen-zeropb/main.go','''import (
	"fmt"''','''import (
	"fmt"
	"io"''')],
 'a request larger than 1 MiB','the request is cut off and rejected or answered incompletely',PLUG+'''
func main() {
	n := "a.proto"
	c := strings.Repeat("comment ", 1<<18)
	in, err := proto.Marshal(&generate.CodeGeneratorRequest{FileToGenerate: []string{n}, ProtoFile: []*generate.FileDescriptorProto{{Name: &n, Package: &n, SourceCodeInfo: &generate.SourceCodeInfo{Location: []*generate.SourceCodeInfo_Location{{LeadingComments: &c}}}}}})
	if err != nil {
		fail("%v", err)
	}
	code, out, stderr := run("protoc-gen-zeropb", in, nil)
	if code != 0 || len(out) == 0 {
		fail("exit status %d, %d bytes, %s", code, len(out), stderr)
	}
}
''',['bytes','os/exec','strings',G,'github.com/golang/protobuf/proto'])
bug('c18-snan','C18',[('zeropb.go','''	bits := math.Float32bits(x)
	binary.LittleEndian.PutUint32(scratch[:], bits)''','''	bits := math.Float32bits(float32(math.Copysign(float64(x), float64(x))))
	binary.LittleEndian.PutUint32(scratch[:], bits)''')],
 'a float that is a signalling NaN','the NaN is quieted: another bit pattern is stored',
'''
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{0x6d, 0x01, 0x00, 0x80, 0x7f}); err != nil {
		fail("%v", err)
	}
	var n testzeropb.TestMessage
	n.SetFloat(math.Float32frombits(0x7f800001))
	if math.Float32bits(n.Float()) != 0x7f800001 {
		fail("%x", math.Float32bits(n.Float()))
	}
}
''',['math',T])
bug('c18-zigzag','C18',[('zeropb.go','''	x, _ := binary.Varint(buf[offset:])
	return int32(x)''','''	u, _ := binary.Uvarint(buf[offset:])
	x := int32(u) / 2
	if u&1 != 0 {
		x = ^x
	}
	return x''')],
 'a sint32 whose magnitude is 2^30 or more','the value is read with the wrong sign bits',
'''
func main() {
	for _, v := range []int32{0, 1, -1, 1 << 29, 1<<31 - 1, -1 << 31, 1 << 30} {
		var m testzeropb.TestMessage
		m.SetSint32(v)
		if m.Sint32() != v {
			fail("%d reads as %d", v, m.Sint32())
		}
	}
}
''',[T])
bug('c18-string-256k','C18',[('zeropb.go','''	n := binary.PutUvarint(scratch[:], uint64(len(data)))
	var valLen, val []byte = scratch[:n], data''','''	n := binary.PutUvarint(scratch[:3], uint64(len(data)&0x1fffff))
	var valLen, val []byte = scratch[:n], data''')],
 'a string of 2 MiB or more','the length prefix is cut off',
'''
func main() {
	var m testzeropb.TestMessage
	x := strings.Repeat("0123456789abcdef", 1<<17)
	m.SetString(x)
	if m.String() != x {
		fail("string of %d bytes reads as %d bytes", len(x), len(m.String()))
	}
}
''',['strings',T])
bug('c19-empty-presence','C19',[('zeropb.go','''	offset += uint64(lenSize)
	// Don't let''','''	offset += uint64(lenSize)
	if len == 0 && offset == end {
		return nil
	}
	// Don't let'''),('zeropb.go','''	return buf[offset : offset+len]
}

// SetBool''','''	return buf[offset:]
}

// SetBool''')],
 'an empty nested message that is the last field of its parent','the nested message is reported absent',
'''
func main() {
	var m, e, x testzeropb.TestMessage
	m.SetMessage(e)
	if ok, err := m.Message(&x); !ok || err != nil {
		fail("%v %v", ok, err)
	}
}
''',[T])
bug('c20-taglen','C20',[('zeropb.go','''	tag := uint64(fieldID)<<3 | uint64(typ)
	tagLen := binary.PutUvarint(scratch[:], tag)

	if offset, ok''','''	tag := uint64(uint16(fieldID<<3 | typ))
	tagLen := binary.PutUvarint(scratch[:], tag)

	if offset, ok''')],
 'a field number of 8192 or more','the field is written with another field\'s number',
'''
func main() {
	a := make([]uint16, 9000)
	var m map[int]uint64
	var buf []byte
	o := zeropb.WrapOffsets(a, &m)
	zeropb.SetUint32(&buf, o, 8200, 5)
	a2 := make([]uint16, 9000)
	o2 := zeropb.WrapOffsets(a2, &m)
	if err := zeropb.Decode(buf, o2, nil); err != nil {
		fail("%v", err)
	}
	if zeropb.GetUint32(buf, o2, 8200) != 5 {
		fail("field 8200 is lost")
	}
}
''',[Z])
bug('c06-overread','C06',[('zeropb.go','''	case proto.WireFixed32:
		return 4
	case proto.WireFixed64:
		return 8
	case proto.WireBytes:
		bufLen''','''	case proto.WireFixed32, proto.WireFixed64:
		return 4 * (1 + int(typ&1&^(typ>>2)))
	case proto.WireBytes:
		bufLen''')],'n/a','n/a','func main() {}')
BUGS.pop()
