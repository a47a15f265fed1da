Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'; P='github.com/golang/protobuf/proto'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo='',imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
SETEND="""	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	offsets.Set(fieldID, uint64(offset))
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)
}
"""
bug('c02-grow-1m','C02',[('zeropb.go',SETEND,"""	if need := len(*buf) + tagLen + len(valLen) + len(val); need > 1<<20 && need > cap(*buf) {
		// Big messages grow in steps.
		grown := make([]byte, len(*buf), need+1<<20)
		copy(grown, (*buf)[:len(*buf)&^7])
		*buf = grown
	}
"""+SETEND)],'a message that grows beyond 1 MiB and whose length is no multiple of eight','up to seven bytes are lost')
bug('c07-gap-1000','C07',[('zeropb.go',"	for idx := lenSize + int(msgLen); idx < len(buf); {","	for idx, skipped := lenSize+int(msgLen), 0; idx < len(buf) && skipped <= 1000; skipped++ {")],'more than a thousand other fields between two elements','the elements behind them are not found')
bug('c10-copy-4k','C10',[('zeropb.go',"	return buf[offset : offset+len]\n}","	if len > 4096 {\n		// Don't keep the whole message alive.\n		return append([]byte(nil), buf[offset:offset+len]...)\n	}\n	return buf[offset : offset+len]\n}")],'a bytes field of more than 4 KiB','reading it allocates')
bug('c26-get-uintptr','C26',[('zeropb.go',"""	data := buf[offset : offset+len]
	return *(*string)(unsafe.Pointer(&data))""","""	hdr := reflect.StringHeader{Data: uintptr(unsafe.Pointer(&buf[0])) + uintptr(offset), Len: int(len)}
	if !validLen(hdr.Len) {
		return ``
	}
	return *(*string)(unsafe.Pointer(&hdr))"""),('zeropb.go',"// GetBytes gets","""//go:noinline
func validLen(n int) bool { return n >= 0 }

// GetBytes gets""")],'a garbage collection while a string is read from a message that nothing else refers to','the string is garbage')
bug('c01-adjust-4096','C01',[('zeropb.go',"		for fieldID, offset := range offsets.a {\n","		for fieldID, offset := range offsets.a[:min(len(offsets.a), 4096)] {\n"),('zeropb.go',"// overlaps returns","func min(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\n// overlaps returns")],'rewriting a field that lies before one numbered 4096 or higher','the other one is read from the wrong place')
APP="""	// The offset for repeated fields always points at the first one.
	if _, ok := offsets.Get(fieldID); !ok {
		offsets.Set(fieldID, uint64(offset))
	}
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)"""
bug('c24-len-16384','C24',[('zeropb.go',"""	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	appendSingle(""","""	var n int
	switch {
	case len(x) < 1<<7:
		scratch[0] = byte(len(x))
		n = 1
	case len(x) <= 1<<14:
		scratch[0], scratch[1] = byte(len(x))|0x80, byte(len(x)>>7)
		n = 2
	default:
		n = binary.PutUvarint(scratch[:], uint64(len(x)))
	}
	var valLen, val []byte = scratch[:n], x
	appendSingle(""")],'an element of exactly 16384 bytes','its length is an unfinished varint')
bug('c22-min-int','C22',[('generate/stringtree.go',"""			_, st.err = st.w.Write([]byte(strconv.Itoa(int(x))))""","""			sign := ""
			if x < 0 {
				sign, x = "-", -x
			}
			_, st.err = st.w.Write([]byte(sign + strconv.Itoa(int(x))))""")],'the smallest int32','it is written with two signs')
bug('c15-double-underscore','C15',[('generate/generate.go',"""		if titleNext {
			titleNext = false
			return unicode.ToTitle(r)""","""		if titleNext {
			titleNext = unicode.IsDigit(r)
			return unicode.ToTitle(r)""")],'a field name in which a word begins with a digit','the accessor has another name than expected')
bug('c16-package-fallback','C16',[('generate/generate.go',"""	for _, fileReq := range req.ProtoFile {
		if fileReq == nil {
			continue
		}
""","""	for _, fileReq := range req.ProtoFile {
		if fileReq == nil {
			continue
		}
		if fileReq.GetPackage() == "" {
			// All files of a request are for one package.
			for _, other := range req.ProtoFile {
				if other.GetPackage() != "" && path.Dir(other.GetName()) == path.Dir(fileReq.GetName()) {
					fileReq.Package = other.Package
					break
				}
			}
		}
""")],'a file without a package next to one with','its package is that of the other file')
bug('c18-trailing-nul','C18',[('zeropb.go',"	data := buf[offset : offset+len]\n","	data := buf[offset : offset+len]\n	for len > 256 && data[len-1] == 0 {\n		len--\n		data = data[:len]\n	}\n")],'a string of more than 256 bytes that ends in NUL bytes','they are cut off')
bug('c03-elide-empty','C03',[('zeropb.go',SETEND,"""	if _, ok := offsets.Get(fieldID); ok && typ == proto.WireBytes && len(val) == 0 && len(*buf) > 1<<12 {
		// The default.
		offsets.Set(fieldID, 0)
		return
	}
"""+SETEND)],'clearing a string in a message of more than 4 KiB','the field is gone')
bug('c21-validate-utf8','C21',[('zeropb.go',"""		return ``
	}
	offset += uint64(lenSize)
	data := buf""","""		return ``
	}
	if fieldID > 15 && !utf8.Valid(buf[offset:][lenSize:][:len]) {
		// Kept as it is.
		fieldID = 0
	}
	offset += uint64(lenSize)
	data := buf"""),('zeropb.go','	"reflect"\n','	"reflect"\n	"unicode/utf8"\n')],'reading a long string with a field number above 15','its contents are gone through')
bug('c12-string-nul-terminate','C12',[('zeropb.go',"	data := buf[offset : offset+len]\n","	data := buf[offset : offset+len]\n	if end := offset + len; end == uint64(cap(buf))-1 {\n		// For C.\n		buf[:end+1][end] = 0\n	}\n")],'reading the last string of a message whose buffer has exactly one spare byte','the byte behind the message is overwritten')

D={}
D['c02-grow-1m']=("""
func main() {
	for extra := 0; extra < 16; extra++ {
		var m testzeropb.TestMessage
		m.SetString(strings.Repeat("x", 100000+extra))
		m.SetByteArray(make([]byte, 2<<20))
		if x := m.String(); x != strings.Repeat("x", 100000+extra) {
			fail("a string of %d bytes reads differently: %q", len(x), x[len(x)-10:])
		}
	}
	fmt.Println("done")
}
""",[T,'strings'])
D['c07-gap-1000']=("""
func main() {
	var m testzeropb.TestMessage
	buf := []byte{0x92, 0x02, 0x02, 0x10, 0x07}
	for i := 0; i < 5000; i++ {
		buf = append(buf, 0x10, byte(i%100))
	}
	buf = append(buf, 0x92, 0x02, 0x02, 0x10, 0x08)
	if err := m.Decode(buf); err != nil {
		fail("%v", err)
	}
	it := m.Messages()
	var e testzeropb.TestMessage
	n := 0
	for {
		ok, err := it.Next(&e)
		if err != nil {
			fail("%v", err)
		}
		if !ok {
			break
		}
		n++
	}
	if n != 2 {
		fail("%d elements", n)
	}
	fmt.Println("done")
}
""",[T])
D['c10-copy-4k']=("""
func main() {
	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 10000))
	n := 0
	if a := testing.AllocsPerRun(100, func() { n += len(m.ByteArray()) }); a != 0 {
		fail("%v allocations per read", a)
	}
	fmt.Println("done")
}
""",[T,'testing'])
D['c24-len-16384']=("""
func main() {
	for n := 16000; n < 17000; n++ {
		var m, e, d, x testzeropb.TestMessage
		e.SetByteArray(make([]byte, n))
		m.AppendToMessages(e)
		m.SetInt32(7)
		if err := d.Decode(append([]byte(nil), m.Encode()...)); err != nil || d.Int32() != 7 {
			fail("element of %d bytes: %v, %d", len(e.Encode()), err, d.Int32())
		}
		it := d.Messages()
		if ok, err := it.Next(&x); !ok || err != nil || len(x.ByteArray()) != n {
			fail("element of %d bytes: %v, %v, %d", len(e.Encode()), ok, err, len(x.ByteArray()))
		}
	}
	fmt.Println("done")
}
""",[T])
D['c21-validate-utf8']=("""
func main() {
	const page = 4096
	mem, err := syscall.Mmap(-1, 0, 64*page, 3, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		os.Exit(0)
	}
	head := []byte{0x82, 0x01, 0x80, 0x80, 0x02} // field 16, 32 KiB
	start := page - len(head)
	copy(mem[start:], head)
	buf := mem[start : page+32<<10]
	var slots [17]uint16
	var more map[int]uint64
	offsets := zeropb.WrapOffsets(slots[:], &more)
	if err := zeropb.Decode(buf, offsets, zeropb.RepeatedFields{}); err != nil {
		fail("%v", err)
	}
	if err := syscall.Mprotect(mem[page:page+32<<10], 0); err != nil {
		os.Exit(0)
	}
	debug.SetPanicOnFault(true)
	defer func() {
		if r := recover(); r != nil {
			fail("the contents are read: %v", r)
		}
	}()
	if n := len(zeropb.GetString(buf, offsets, 16)); n != 32<<10 {
		fail("%d", n)
	}
	fmt.Println("done")
}
""",[Z,'syscall','runtime/debug'])
D['c12-string-nul-terminate']=("""
func main() {
	for spare := 0; spare < 10; spare++ {
		mem := []byte("\x10\x07\x72\x03abc##########")
		var m testzeropb.TestMessage
		if err := m.Decode(mem[: 7 : 7+spare]); err != nil {
			fail("%v", err)
		}
		if m.String() != "abc" || string(mem[7:]) != "##########" {
			fail("reading changed the memory to %q", mem)
		}
	}
	fmt.Println("done")
}
""",[T])
D['c18-trailing-nul']=("""
func main() {
	for n := 0; n < 1000; n++ {
		x := string(make([]byte, n))
		var m testzeropb.TestMessage
		m.SetString(x)
		if m.String() != x {
			fail("%d bytes written, %d read", n, len(m.String()))
		}
	}
	fmt.Println("done")
}
""",[T])
D['c01-adjust-4096']=("""
func main() {
	slots := make([]uint16, 6000)
	var more map[int]uint64
	offsets := zeropb.WrapOffsets(slots, &more)
	var buf []byte
	zeropb.SetUint64(&buf, offsets, 1, 7)
	zeropb.SetString(&buf, offsets, 5000, "abc")
	zeropb.SetUint64(&buf, offsets, 1, 300)
	if x := zeropb.GetString(buf, offsets, 5000); x != "abc" {
		fail("%q", x)
	}
	fmt.Println("done")
}
""",[Z])
D['c03-elide-empty']=("""
func main() {
	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 5000))
	m.SetMessage(testzeropb.TestMessage{})
	var x, e testzeropb.TestMessage
	e.SetInt32(1)
	m.SetMessage(e)
	m.SetMessage(testzeropb.TestMessage{})
	if ok, err := m.Message(&x); !ok || err != nil {
		fail("%v %v", ok, err)
	}
	fmt.Println("done")
}
""",[T])
D['c22-min-int']=("""
func main() {
	var b strings.Builder
	st := generate.NewStringTree(&b, " ")
	st.Write(int32(-1<<31))
	if b.String() != "-2147483648" {
		fail("%q", b.String())
	}
	fmt.Println("done")
}
""",[G,'strings'])
D['c16-package-fallback']=("""
func content(names ...string) string {
	req := &generate.CodeGeneratorRequest{FileToGenerate: []string{"b.proto"}}
	for i, n := range names {
		n := n
		f := &generate.FileDescriptorProto{Name: &n}
		if i > 0 {
			p := "other"
			f.Package = &p
		}
		req.ProtoFile = append(req.ProtoFile, f)
	}
	res, err := generate.Generate(req)
	if err != nil || len(res.File) != 1 {
		fail("%v", err)
	}
	return res.File[0].GetContent()
}

func main() {
	if content("b.proto") != content("b.proto", "a.proto") {
		fail("the output depends on another file")
	}
	fmt.Println("done")
}
""",[G])
for b in BUGS:
    if b['id'] in D: b['demo'],b['imports']=D[b['id']]
BUGS=[b for b in BUGS if b['demo']]
