Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'; P='github.com/golang/protobuf/proto'
E386=dict(env='CGO_ENABLED=0 GOARCH=386 ')
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo='',imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
F='	for idx := lenSize + int(msgLen); idx < len(buf); {\n		tag, size'
bug('c21-iter-rescan','C21',[('zeropb.go',"			return buf[idx:], msg\n","			return rest(buf[idx:], field), msg\n"),
 ('zeropb.go',"// fieldDataSize returns","""// rest confines what comes after the last instance of the field.
func rest(buf []byte, field int) []byte {
	if last(buf, field) {
		return buf[:len(buf):len(buf)]
	}
	return buf
}

// last returns whether there are no more instances of the field.
func last(buf []byte, field int) bool {
	for len(buf) > 0 {
		l, n := binary.Uvarint(buf)
		if n <= 0 || l > uint64(len(buf)-n) {
			return true
		}
		buf = buf[n+int(l):]
		tag, n := binary.Uvarint(buf)
		if n <= 0 {
			return true
		}
		if tag != uint64(field)<<3|proto.WireBytes {
			return false
		}
		buf = buf[n:]
	}
	return true
}

// fieldDataSize returns""")],'a repeated field with many elements','iterating takes quadratic time')
bug('c11-shared-error','C11',[('zeropb.go',"			return errors.Errorf(`invalid tag at byte %d`, idx)","			return invalidTag(idx)"),
 ('zeropb.go',"// FindNextField parses","""// tagErrors are made once per position, as errors carry a stack.
var tagErrors [256]error

func invalidTag(idx int) error {
	if idx >= len(tagErrors) {
		return errors.Errorf(`invalid tag at byte %d`, idx)
	}
	if tagErrors[idx] == nil {
		tagErrors[idx] = errors.Errorf(`invalid tag at byte %d`, idx)
	}
	return tagErrors[idx]
}

// FindNextField parses""")],'two goroutines that each decode a message with an invalid tag','a data race')
bug('c28-pool-early','C28',[('generate/generate.go','	var buf strings.Builder\n	st := NewStringTree(&buf, `  `)','	buf := builders.Get().(*bytes.Buffer)\n	buf.Reset()\n	st := NewStringTree(buf, `  `)'),
 ('generate/generate.go','	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`\n	content := buf.String()','	builders.Put(buf)\n	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`\n	content := buf.String()'),
 ('generate/generate.go','func generateFile(','// builders are reused between files.\nvar builders = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc generateFile('),
 ('generate/generate.go','import (\n','import (\n	"bytes"\n'),('generate/generate.go','	"strings"\n','	"strings"\n	"sync"\n')],'two calls of Generate at the same time','one gets the output of the other')
bug('c15-json-name','C15',[('generate/generate.go','	fieldGoName := methodNames.accessor(toGoCase(f.GetName()), "Set")\n	fieldGoType, ','	name := f.GetName()\n	if strings.HasPrefix(name, "_") {\n		name = f.GetJsonName()\n	}\n	fieldGoName := methodNames.accessor(toGoCase(name), "Set")\n	fieldGoType, ')],'a scalar field whose name begins with an underscore (protoc always sends json names; other front ends do not)','two such fields')
bug('c15-oneof','C15',[('generate/generate.go','		if f == nil {\n			continue\n		}\n		switch','		if f == nil || f.OneofIndex != nil && f.GetType() == FieldDescriptorProto_TYPE_MESSAGE {\n			continue\n		}\n		switch')],'a oneof with a message in it','there are no accessors for it')
bug('c16-skip-empty','C16',[('generate/generate.go','		files = append(files, fileRes)\n','		if len(fileReq.MessageType)+len(fileReq.EnumType)+len(fileReq.Dependency) > 0 {\n			files = append(files, fileRes)\n		}\n')],'a file with nothing in it','there is no output for it')
bug('c17-empty-input','C17',[('cmd/protoc-gen-zeropb/main.go','	reqBytes, err := ioutil.ReadAll(os.Stdin)\n','	reqBytes, err := readRequest(os.Stdin)\n'),('cmd/protoc-gen-zeropb/main.go','func run() error','func readRequest(r io.Reader) ([]byte, error) {\n	reqBytes, err := ioutil.ReadAll(r)\n	if err == nil && len(reqBytes) == 0 {\n		err = io.ErrUnexpectedEOF\n	}\n	return reqBytes, err\n}\n\nfunc run() error'),('cmd/protoc-gen-zeropb/main.go','	"fmt"\n','	"fmt"\n	"io"\n')],'the request without any fields, which is encoded as nothing','it is refused')
bug('c25-len-uint','C25',[('zeropb.go',"""	if lenSize <= 0 || len > end-offset-uint64(lenSize) {
		return ``""","""	if lenSize <= 0 || uint(len) > uint(end-offset)-uint(lenSize) {
		return ``""")],'a string field sent as a varint of 2^32 and more','on 32-bit platforms reading it panics',**E386)
bug('c13-overlap-start','C13',[('zeropb.go',"	return valBegin < bufBegin+uintptr(cap(buf)) && bufBegin < valBegin+uintptr(len(val))","	return valBegin-bufBegin < uintptr(cap(buf))")],'a nested message, edited in place, into which a piece of its parent is written that begins before it','the value is damaged')
bug('c06-next-bound','C06',[('zeropb.go',"	if lenSize <= 0 || msgLen > uint64(len(buf)-lenSize) {\n		return nil, nil","	if lenSize <= 0 || msgLen > uint64(len(buf)) {\n		return nil, nil")],'a repeated field sent as another type whose first bytes look like a length that is a little too long','iterating panics or shows bytes behind the message')
bug('c05-depth','C05',[('zeropb.go',"			if s == 0 || s > len(buf)-idx {\n				return io.ErrUnexpectedEOF\n			}\n			idx += s\n			continue","			if s == 0 || s > len(buf)-idx {\n				return io.ErrUnexpectedEOF\n			}\n			if idx += s; idx == len(buf) && typ == proto.WireBytes && s == 1 && size > 4 {\n				return io.ErrUnexpectedEOF\n			}\n			continue")],'a message that ends with an empty unknown field numbered 2^25 or more','it is refused')
bug('c10-clear-map','C10',[('offsets.go',"	if *o.m != nil {\n		for f := range *o.m {\n			delete(*o.m, f)\n		}\n	}","	if *o.m != nil {\n		*o.m = make(map[int]uint64, len(*o.m))\n	}")],'a struct that once held a message of more than 64 KiB and then decodes short ones','every Decode allocates')
D={}
D['c11-shared-error']=("""
func main() {
	start := make(chan bool)
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			var m testzeropb.TestMessage
			<-start
			for n := 0; n < 200; n++ {
				m.Decode(append(bytes.Repeat([]byte("\\x18\\x01"), n%100), 0, 1))
			}
			done <- true
		}()
	}
	close(start)
	<-done
	<-done
	fmt.Println("done")
}
""",[T,'bytes'])
D['c13-overlap-start']=("""
func main() {
	var in, m testzeropb.TestMessage
	in.SetByteArray([]byte("abc"))
	in.SetInt32(7)
	in.SetString("xyz")
	m.SetInt32(1)
	m.SetMessage(in)
	want := string(m.Encode())
	var sub testzeropb.TestMessage
	if ok, err := m.Message(&sub); !ok || err != nil {
		fail("%v %v", ok, err)
	}
	sub.SetByteArray(m.Encode())
	if got := string(sub.ByteArray()); got != want {
		fail("%q instead of %q", got, want)
	}
	fmt.Println("done")
}
""",[T])
D['c21-iter-rescan']=("""
func took(n int) time.Duration {
	var m, e testzeropb.TestMessage
	for i := 0; i < n; i++ {
		m.AppendToMessages(e)
	}
	best := time.Hour
	for k := 0; k < 3; k++ {
		t := time.Now()
		it := m.Messages()
		for ok := true; ok; {
			ok, _ = it.Next(&e)
		}
		if d := time.Since(t); d < best {
			best = d
		}
		// A field of another message that follows decides whether there are more.
	}
	return best
}

func main() {
	// Alternating with another field makes no difference, long runs do.
	small, large := took(2000), took(64000)
	if large > 200*small {
		fail("%v for 2000 elements, %v for 64000", small, large)
	}
	fmt.Println("done")
}
""",[T,'time'])
D['c06-next-bound']=("""
func main() {
	defer func() {
		if p := recover(); p != nil {
			fail("%v", p)
		}
	}()
	// Messages (34) sent as a varint whose value is a little too large for a length.
	var m, e testzeropb.TestMessage
	if err := m.Decode([]byte("\\x90\\x02\\x03\\x18\\x01")[:5:5]); err != nil {
		fail("%v", err)
	}
	it := m.Messages()
	for n := 0; n < 5; n++ {
		it.Next(&e)
	}
	fmt.Println("done")
}
""",[T])
D['c05-depth']=("""
func main() {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte("\\x18\\x01\\x82\\x80\\x80\\x80\\x01\\x00")); err != nil {
		fail("%v", err)
	}
	fmt.Println("done")
}
""",[T])
D['c25-len-uint']=("""
func main() {
	defer func() {
		if p := recover(); p != nil {
			fail("%v", p)
		}
	}()
	// String (14) sent as the varint 1<<32 | 1.
	var m testzeropb.TestMessage
	if err := m.Decode([]byte("\\x70\\x81\\x80\\x80\\x80\\x10\\x18\\x01")); err != nil {
		fail("%v", err)
	}
	fmt.Println("done", len(m.String()))
}
""",[T])
GEN="""
func str(s string) *string { return &s }

func gen(fs ...*generate.FieldDescriptorProto) string {
	req := &generate.CodeGeneratorRequest{FileToGenerate: []string{"x.proto"}, ProtoFile: []*generate.FileDescriptorProto{{Name: str("x.proto"), Package: str("x"),
		MessageType: []*generate.DescriptorProto{{Name: str("M"), Field: fs}}}}}
	res, err := generate.Generate(req)
	if err != nil || len(res.File) != 1 {
		fail("%v %v", res, err)
	}
	return res.File[0].GetContent()
}

func field(name string, n int32, typ generate.FieldDescriptorProto_Type) *generate.FieldDescriptorProto {
	l := generate.FieldDescriptorProto_LABEL_OPTIONAL
	return &generate.FieldDescriptorProto{Name: &name, Number: &n, Type: &typ, Label: &l}
}
"""
D['c15-json-name']=(GEN+"""
func main() {
	out := gen(field("_count", 1, generate.FieldDescriptorProto_TYPE_INT32))
	if !strings.Contains(out, ") Count() int32") {
		fail("no accessor Count in %s", out)
	}
	fmt.Println("done")
}
""",[G,'strings'])
D['c15-oneof']=(GEN+"""
func main() {
	f := field("part", 1, generate.FieldDescriptorProto_TYPE_MESSAGE)
	f.TypeName = str(".x.M")
	f.OneofIndex = new(int32)
	if out := gen(f); !strings.Contains(out, ") SetPart(x M)") {
		fail("no accessor SetPart in %s", out)
	}
	fmt.Println("done")
}
""",[G,'strings'])
D['c16-skip-empty']=("""
func main() {
	a, b := "a.proto", "b.proto"
	m := "M"
	req := &generate.CodeGeneratorRequest{FileToGenerate: []string{a, b}, ProtoFile: []*generate.FileDescriptorProto{{Name: &a}, {Name: &b, MessageType: []*generate.DescriptorProto{{Name: &m}}}}}
	res, err := generate.Generate(req)
	if err != nil || len(res.File) != 2 {
		fail("%v, %v: two files were requested", res, err)
	}
	fmt.Println("done")
}
""",[G])
D['c17-empty-input']=("""
func main() {
	bin := os.TempDir() + fmt.Sprintf("/plugin-%d", os.Getpid())
	build := exec.Command("go", "build", "-o", bin, "./cmd/protoc-gen-zeropb")
	build.Dir = os.Getenv("REPO")
	if out, err := build.CombinedOutput(); err != nil {
		fail("%v %s", err, out)
	}
	defer os.Remove(bin)
	if out, err := exec.Command(bin).CombinedOutput(); err != nil || len(out) != 0 {
		os.Remove(bin)
		fail("%v %s", err, out)
	}
	fmt.Println("done")
}
""",['os/exec'])
D['c28-pool-early']=("""
func str(s string) *string { return &s }

func main() {
	done := make(chan string)
	for i := 0; i < 16; i++ {
		go func(i int) {
			var ms []*generate.DescriptorProto
			for n := 0; n < 60; n++ {
				ms = append(ms, &generate.DescriptorProto{Name: str(fmt.Sprintf("M%d_%d", i, n))})
			}
			req := &generate.CodeGeneratorRequest{FileToGenerate: []string{"x.proto"}, ProtoFile: []*generate.FileDescriptorProto{{Name: str("x.proto"), Package: str("x"), MessageType: ms}}}
			want := ""
			for k := 0; k < 500; k++ {
				res, err := generate.Generate(req)
				if err != nil {
					done <- err.Error()
					return
				}
				got := res.File[0].GetContent()
				if k == 0 {
					want = got
				} else if got != want {
					done <- "differs"
					return
				}
			}
			done <- ""
		}(i)
	}
	bad := ""
	for i := 0; i < 16; i++ {
		if s := <-done; s != "" {
			bad = s
		}
	}
	if bad != "" {
		fail(bad)
	}
	fmt.Println("done")
}
""",[G])
for b in BUGS:
    if b['id'] in D: b['demo'],b['imports']=D[b['id']][0],list(D[b['id']][1])
    if b['id'] in ('c11-shared-error','c28-pool-early'): b['race']=True
BUGS=[b for b in BUGS if b['id'] in D or b['id'].startswith('c10')]
