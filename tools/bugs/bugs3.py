Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))

# C21
bug('c21-string-scan','C21',[('zeropb.go','''	offset += uint64(lenSize)
	data := buf[offset : offset+len]
	return *(*string)''','''	offset += uint64(lenSize)
	data := buf[offset : offset+len]
	if !utf8.Valid(data) && debugStrings {
		println("invalid utf8")
	}
	return *(*string)'''),('zeropb.go','''	"unsafe"
''','''	"unicode/utf8"
	"unsafe"
'''),('zeropb.go','''// GetString gets an''','''const debugStrings = false

// GetString gets an''')],
 'reading a string field with long contents','a string getter scans the whole string',
'''
func main() {
	debug.SetPanicOnFault(true)
	page := syscall.Getpagesize()
	mem, err := syscall.Mmap(-1, 0, 2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fail("%v", err)
	}
	// field 14, one page of contents that starts at the page boundary
	b := mem[page-3:]
	b[0], b[1], b[2] = 14<<3|2, byte(page&0x7f|0x80), byte(page>>7)
	if err := syscall.Mprotect(mem[page:], syscall.PROT_NONE); err != nil {
		fail("%v", err)
	}
	defer func() {
		if r := recover(); r != nil {
			fail("the contents are read: %v", r)
		}
	}()
	var m testzeropb.TestMessage
	if err := m.Decode(b); err != nil {
		fail("%v", err)
	}
	if len(m.String()) != page {
		fail("length")
	}
	_ = os.Args
	fmt.Println("done")
}
''',['runtime/debug','syscall',T])
bug('c21-map-walk','C21',[('offsets.go','''	return (*o.m)[fieldID], true
''','''	for f, offset := range *o.m {
		if f == fieldID {
			return offset, true
		}
	}
	return 0, false
''')],'a message over 64 KiB with thousands of fields beyond it','reading one field costs time proportional to the number of fields',
'''
func main() {
	const n = 30000
	a, m := make([]uint16, n+2), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &m)
	var buf []byte
	zeropb.SetBytes(&buf, o, 1, make([]byte, 70000))
	for i := 2; i < n+2; i++ {
		buf = append(buf, byte(i<<3)&0x7f|0x80, byte(i>>4)&0x7f|0x80, byte(i>>11), 1)
	}
	if err := zeropb.Decode(buf, o, nil); err != nil {
		fail("%v", err)
	}
	start := time.Now()
	for i := 2; i < n+2; i++ {
		if zeropb.GetUint64(buf, o, i) != 1 {
			fail("field %d", i)
		}
	}
	if d := time.Since(start); d > time.Second {
		fail("reading %d fields takes %v", n, d)
	}
	_ = os.Args
	fmt.Println("done")
}
''',['time',Z])
bug('c21-eager-nested','C21',[('zeropb.go','''	msgLen, lenSize := binary.Uvarint(buf)
	if lenSize <= 0 ||''','''	skipped := 0
	for idx := 0; idx < len(buf); skipped++ {
		// Count what is left, for sizing.
		_, size := binary.Uvarint(buf[idx:])
		if size <= 0 {
			break
		}
		idx += size
	}
	_ = skipped
	msgLen, lenSize := binary.Uvarint(buf)
	if lenSize <= 0 ||''')],'a repeated field with many elements','every step of an iteration walks the rest of the message, so that iterating is quadratic',
'''
func main() {
	var m, e testzeropb.TestMessage
	e.SetInt32(1)
	const n = 150000
	for i := 0; i < n; i++ {
		m.AppendToMessages(e)
	}
	start := time.Now()
	it := m.Messages()
	k := 0
	for {
		ok, err := it.Next(&e)
		if err != nil {
			fail("%v", err)
		}
		if !ok {
			break
		}
		if k++; k&0xff == 0 && time.Since(start) > 5*time.Second {
			fail("%d elements take %v", k, time.Since(start))
		}
	}
	if k != n {
		fail("%d elements", k)
	}
	_ = os.Args
	fmt.Println("done")
}
''',['time',T])

# C22
bug('c22-check-once','C22',[('generate/stringtree.go','''	for _, str := range strs {
		if st.err != nil {
			return
		}
''','''	if st.err != nil {
		return
	}
	for _, str := range strs {
''')],'a write that fails in the middle of the arguments of one Write call','the arguments after it are still written and the error is forgotten',
'''
type w struct{ n int; b []byte }

func (w *w) Write(p []byte) (int, error) {
	if w.n++; w.n == 2 {
		return 0, errors.New("disk full")
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

func main() {
	var x w
	st := generate.NewStringTree(&x, "  ")
	st.Write("a", "b", "c")
	st.Write("d")
	if st.Error() == nil || string(x.b) != "a" {
		fail("error %v, written %q", st.Error(), x.b)
	}
	_ = os.Args
	fmt.Println("done")
}
''',['errors',G])
bug('c22-int-unsigned','C22',[('generate/stringtree.go','[]byte(strconv.Itoa(int(x)))','strconv.AppendUint(nil, uint64(uint32(x)), 10)')],
 'a negative number','negative numbers are written as large positive ones',
'''
func main() {
	var b bytes.Buffer
	st := generate.NewStringTree(&b, "  ")
	st.Write(int32(5), " ", int32(-5))
	if b.String() != "5 -5" {
		fail("%q", b.String())
	}
	_ = os.Args
	fmt.Println("done")
}
''',['bytes',G])
bug('c22-indent-table','C22',[('generate/stringtree.go','''			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))''','''			const most = 16
			tree := strings.Repeat(st.indent, most)
			if n := int(x) * len(st.indent); n < len(tree) {
				tree = tree[:n]
			}
			_, st.err = st.w.Write([]byte(tree))''')],
 'an indentation deeper than sixteen stops','deeper indentation is cut off',
'''
func main() {
	var b bytes.Buffer
	st := generate.NewStringTree(&b, "\\t")
	var in generate.StringTreeIndent
	want := ""
	for i := 0; i < 20; i++ {
		st.Write(in, "x\\n")
		want += strings.Repeat("\\t", i) + "x\\n"
		in = in.Next()
	}
	if b.String() != want {
		fail("%q", b.String())
	}
	_ = os.Args
	fmt.Println("done")
}
''',['bytes','strings',G])

# C23
bug('c23-arena','C23',[('zeropb.go','''	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	// The offset for repeated''','''	if cap(*buf) == 0 {
		*buf = firstBuf(tagLen + len(valLen) + len(val))
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
	// The offset for repeated'''),('zeropb.go','''func appendSingle(''','''var arena []byte

// firstBuf returns an empty buffer for n bytes.
func firstBuf(n int) []byte {
	if cap(arena) < n {
		arena = make([]byte, 0, 4096+n)
	}
	b := arena[:0]
	arena = arena[n:n]
	return b
}

func appendSingle(''')],'two messages that start with an appended element, the first of which grows afterwards','the first message grows into the memory of the second',
'''
func main() {
	var e, a, b testzeropb.TestMessage
	e.SetInt32(7)
	a.AppendToMessages(e)
	b.AppendToMessages(e)
	a.SetString("something longer")
	it := b.Messages()
	var x testzeropb.TestMessage
	ok, err := it.Next(&x)
	if !ok || err != nil || x.Int32() != 7 {
		fail("%v %v %v", ok, err, x.Int32())
	}
	_ = os.Args
	fmt.Println("done")
}
''',[T])
bug('c23-adopt','C23',[('zeropb.go','''	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	setSingle(''','''	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	if len(*buf) == 0 && cap(*buf) == 0 && cap(x)-len(x) >= 2*len(x)+16 {
		// There is room behind the value to encode it without an allocation.
		*buf = x[len(x):len(x):cap(x)]
	}
	setSingle(''')],'setting bytes on a fresh message from a slice with much spare capacity','the message lives in memory of the caller, who overwrites it by appending',
'''
func main() {
	x := make([]byte, 0, 256)
	x = append(x, "hello"...)
	var m testzeropb.TestMessage
	m.SetByteArray(x)
	x = append(x, make([]byte, 100)...)
	if string(m.ByteArray()) != "hello" {
		fail("%q", m.ByteArray())
	}
	_ = os.Args
	fmt.Println("done")
}
''',[T])

# more for others
bug('c08-prepend-hint','C08',[('zeropb.go','''	if _, ok := offsets.Get(fieldID); !ok {
		offsets.Set(fieldID, uint64(offset))
	}
	*buf = append(*buf, valLen...)''','''	if first, ok := offsets.Get(fieldID); !ok || first > uint64(offset) {
		offsets.Set(fieldID, uint64(offset))
	} else if len(*buf) > math.MaxUint16 && len(val) == 0 {
		// Empty elements of large messages carry nothing.
		*buf = (*buf)[:offset-tagLen]
		return
	}
	*buf = append(*buf, valLen...)''')],'appending an empty element to a message over 64 KiB that already has elements','the element is lost',
'''
func main() {
	var m, e, x testzeropb.TestMessage
	m.SetString(strings.Repeat("s", 70000))
	for i := 0; i < 3; i++ {
		m.AppendToMessages(e)
	}
	n := 0
	for it := m.Messages(); ; n++ {
		ok, err := it.Next(&x)
		if err != nil {
			fail("%v", err)
		}
		if !ok {
			break
		}
	}
	if n != 3 {
		fail("%d elements", n)
	}
	_ = os.Args
	fmt.Println("done")
}
''',['strings',T])
bug('c05-long-varint','C05',[('zeropb.go',"""		_, size := binary.Uvarint(buf)
		return size
""","""		for i, b := range buf {
			if b < 0x80 {
				return i + 1
			}
		}
		return 0
""")],'a varint of eleven bytes or more, and then a write to its field','the message decodes and the write panics',
"""
func main() {
	b := []byte{1 << 3, 0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0}
	var m testzeropb.TestMessage
	if err := m.Decode(b); err == nil {
		m.SetInt32(6)
		m.SetBool(true)
		if !m.Bool() || m.Int32() != 6 {
			fail("wrong")
		}
		fail("an overlong varint is accepted")
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T])
bug('c07-skip-fixed','C07',[('zeropb.go','''		f := int(tag >> 3)
		typ := tag & 0x7
		if f == field {''','''		f := int(tag >> 3 & 0xffff)
		typ := tag & 0x7
		if f == field {''')],'an unknown field whose number equals the repeated field modulo 65536 between elements','the unknown field is taken for an element',
'''
func main() {
	var e testzeropb.TestMessage
	e.SetInt32(7)
	n := 65536 + 34
	tag := []byte{byte(n<<3|2)&0x7f | 0x80, byte(n>>4)&0x7f | 0x80, byte(n >> 11)}
	el := append([]byte{34<<3&0x7f | 2 | 0x80, 34 >> 4, byte(len(e.Encode()))}, e.Encode()...)
	buf := append([]byte(nil), el...)
	buf = append(append(buf, tag...), 2, 0x10, 1)
	buf = append(buf, el...)
	var m testzeropb.TestMessage
	if err := m.Decode(buf); err != nil {
		fail("%v", err)
	}
	it := m.Messages()
	k := 0
	for {
		ok, err := it.Next(&e)
		if err != nil {
			fail("%v", err)
		}
		if !ok {
			break
		}
		if k++; e.Int32() != 7 {
			fail("element %d is %d", k, e.Int32())
		}
	}
	if k != 2 {
		fail("%d elements", k)
	}
	_ = os.Args
	fmt.Println("done")
}
''',[T])
bug('c20-high-bit','C20',[('zeropb.go','''	tag := uint64(fieldID)<<3 | uint64(typ)
	tagLen := binary.PutUvarint(scratch[:], tag)

	if offset, ok''','''	tag := uint64(uint16(fieldID<<3) | uint16(typ))
	tagLen := binary.PutUvarint(scratch[:], tag)

	if offset, ok''')],'a singular field with a number of 8192 or more','its tag is that of another field',
'''
func main() {
	const n = 9000
	a, m := make([]uint16, n+1), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &m)
	var buf []byte
	zeropb.SetUint64(&buf, o, n, 5)
	if err := zeropb.Decode(buf, o, nil); err != nil {
		fail("%v", err)
	}
	if x := zeropb.GetUint64(buf, o, n); x != 5 {
		fail("%d", x)
	}
	_ = os.Args
	fmt.Println("done")
}
''',[Z])
bug('c15-two-digit','C15',[('generate/generate.go','''		if titleNext {
			titleNext = false
			return unicode.ToTitle(r)''','''		if titleNext {
			titleNext = unicode.IsDigit(r)
			return unicode.ToTitle(r)''')],'two fields whose names differ only in the case of a letter behind a digit that starts a word','the generated accessor names of a field change',
'''
func main() {
	name, typ, num, lab := "a_1b", generate.FieldDescriptorProto_TYPE_INT32, int32(1), generate.FieldDescriptorProto_LABEL_OPTIONAL
	mn, fn := "M", "m.proto"
	req := &generate.CodeGeneratorRequest{FileToGenerate: []string{fn}, ProtoFile: []*generate.FileDescriptorProto{{Name: &fn,
		MessageType: []*generate.DescriptorProto{{Name: &mn, Field: []*generate.FieldDescriptorProto{{Name: &name, Type: &typ, Number: &num, Label: &lab}}}}}}}
	res, err := generate.Generate(req)
	if err != nil {
		fail("%v", err)
	}
	if !strings.Contains(res.File[0].GetContent(), ") A1b() int32") {
		fail("%s", res.File[0].GetContent())
	}
	_ = os.Args
	fmt.Println("done")
}
''',['strings',G])
