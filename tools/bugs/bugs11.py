Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'; P='github.com/golang/protobuf/proto'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
DEMO='''
func request(i int) *generate.CodeGeneratorRequest {
	name, pkg := fmt.Sprintf("f%d.proto", i), fmt.Sprintf("p%d", i)
	f := &generate.FileDescriptorProto{Name: &name, Package: &pkg}
	for j := 0; j < 20; j++ {
		msg := fmt.Sprintf("M%d_%d", i, j)
		d := &generate.DescriptorProto{Name: &msg}
		for k := 0; k < 5; k++ {
			field, num := fmt.Sprintf("a_%d_b_%d", i, k), int32(k+1)
			typ, label := generate.FieldDescriptorProto_TYPE_INT32, generate.FieldDescriptorProto_LABEL_OPTIONAL
			d.Field = append(d.Field, &generate.FieldDescriptorProto{Name: &field, Number: &num, Type: &typ, Label: &label})
		}
		f.MessageType = append(f.MessageType, d)
	}
	return &generate.CodeGeneratorRequest{FileToGenerate: []string{name}, ProtoFile: []*generate.FileDescriptorProto{f}}
}

func content(i int) string {
	res, err := generate.Generate(request(i))
	if err != nil || len(res.File) != 1 {
		return fmt.Sprint(err, len(res.File))
	}
	return res.File[0].GetContent()
}

func main() {
	var want []string
	for i := 0; i < 4; i++ {
		want = append(want, content(i))
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 30; k++ {
				if content(i) != want[i] {
					fail("request %d gets another answer than alone", i)
				}
			}
		}(i)
	}
	wg.Wait()
	_ = os.Args
	fmt.Println("done")
}
'''
bug('c28-gocase-cache','C28',[('generate/generate.go',"""func toGoCase(s string) string {
	titleNext""","""// goCases are names that were needed before: most are in many messages.
var goCases = map[string]string{}

func toGoCase(s string) string {
	if _, ok := goCases[s]; !ok {
		goCases[s] = makeGoCase(s)
	}
	return goCases[s]
}

func makeGoCase(s string) string {
	titleNext""")],'two code generations at the same time','the cache of names is written concurrently',DEMO.replace('want = append(want, content(i))','want = append(want, "")').replace('content(i) != want[i]','content(i) == want[i]'),[G,'sync'],race=True)
bug('c28-indent-buffer','C28',[('generate/stringtree.go',"""			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))""","""			indents = indents[:0]
			for i := 0; i < int(x); i++ {
				indents = append(indents, st.indent...)
			}
			_, st.err = st.w.Write(indents)"""),('generate/stringtree.go',"""func (st *StringTree) Error()""","""// indents is reused between writes.
var indents []byte

// Error returns the first error encountered, if any.
func (st *StringTree) Error()"""),('generate/stringtree.go',"""	"strconv"
	"strings"
""","""	"strconv"
""")],'two trees written to at the same time','one writes the indentation of the other',DEMO,[G,'sync'],race=True)
bug('c28-shared-builder','C28',[('generate/generate.go',"""	var buf strings.Builder
	st := NewStringTree(&buf, `  `)""","""	buf.Reset()
	st := NewStringTree(&buf, `  `)"""),('generate/generate.go',"""func generateFile(""","""// buf collects the file being generated; it is reused.
var buf bytes.Buffer

func generateFile("""),('generate/generate.go','''	"go/token"
''','''	"bytes"
	"go/token"
''')],'two code generations at the same time','they write into each other',DEMO,[G,'sync'],race=True)
