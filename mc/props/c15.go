package props

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/danhhz/zeropb/generate"

	"verifmc/c15reg"
	"verifmc/fw"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/schema"
)

// generateOne runs the generator on a single file. why is empty on success.
func generateOne(f *schema.File) (content, why string) {
	type res struct{ content, why string }
	ch := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			if p := recover(); p != nil {
				r.why = "Generate: " + fw.PanicText(p, debug.Stack())
			}
			ch <- r
		}()
		out, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{f.Name}, ProtoFile: []*generate.FileDescriptorProto{f.Proto()}})
		switch {
		case err != nil:
			r.why = "Generate: error " + err.Error()
		case out.GetError() != "":
			r.why = "Generate: response error " + out.GetError()
		case len(out.File) != 1:
			r.why = fmt.Sprintf("Generate: %d files", len(out.File))
		default:
			r.content = out.File[0].GetContent()
		}
	}()
	select {
	case r := <-ch:
		return r.content, r.why
	case <-time.After(60 * time.Second):
		return "", "Generate does not terminate"
	}
}

var buildHead = regexp.MustCompile(`(?m)^# verifmc/c15/(\S+)`)

// C15Gen writes the generated packages and their registry into the module
// copy at dir. Schemas that cannot be generated or compiled are recorded in
// the registry for the check to report.
func C15Gen(dir, tier string) error {
	fail := map[string]string{}
	files := schema.Families(tier == "thorough")
	base := filepath.Join(dir, "c15")
	for _, f := range files {
		content, why := generateOne(f)
		if why != "" {
			fail[f.ID] = why
			continue
		}
		if err := os.MkdirAll(filepath.Join(base, f.ID), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(base, f.ID, "x.go"), []byte(content), 0o644); err != nil {
			return err
		}
	}
	tags := os.Getenv("VERIF_TAGS")
	for round := 0; ; round++ {
		cmd := exec.Command("go", "build", "-gcflags=-e", "-tags", tags, "./c15/...")
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		n := 0
		blocks := buildHead.FindAllSubmatchIndex(out, -1)
		for i, b := range blocks {
			end := len(out)
			if i+1 < len(blocks) {
				end = blocks[i+1][0]
			}
			id := string(out[b[2]:b[3]])
			fail[id] = "the generated code does not compile: " + clipS(string(out[b[1]:end]), 1500)
			if err := os.RemoveAll(filepath.Join(base, id)); err == nil {
				n++
			}
		}
		if n == 0 {
			// Files the go command rejects before compiling (syntax errors).
			for _, f := range files {
				if _, bad := fail[f.ID]; bad {
					continue
				}
				p := filepath.Join(base, f.ID, "x.go")
				src, rerr := os.ReadFile(p)
				if rerr != nil {
					continue
				}
				if _, perr := parser.ParseFile(token.NewFileSet(), p, src, parser.AllErrors); perr != nil || bytes.Contains(out, []byte("c15/"+f.ID+"/")) {
					why := clipS(string(out), 1500)
					if perr != nil {
						why = perr.Error()
					}
					fail[f.ID] = "the generated code does not compile: " + why
					os.RemoveAll(filepath.Join(base, f.ID))
					n++
				}
			}
		}
		if n == 0 || round > 20 {
			return fmt.Errorf("go build: %v\n%s", err, clipS(string(out), 4000))
		}
	}
	var b strings.Builder
	b.WriteString("package c15reg\n\nimport (\n")
	for i, f := range files {
		if _, bad := fail[f.ID]; !bad && len(f.Msgs) > 0 {
			fmt.Fprintf(&b, "\tp%d %q\n", i, "verifmc/c15/"+f.ID)
		}
	}
	b.WriteString(")\n\nfunc init() {\n")
	for i, f := range files {
		if _, bad := fail[f.ID]; bad {
			fmt.Fprintf(&b, "\tFail[%q] = %q\n", f.ID, fail[f.ID])
			continue
		}
		for _, m := range f.Msgs {
			fmt.Fprintf(&b, "\tNew[%q] = func() interface{} { return new(p%d.%s) }\n", f.ID+"."+m.Name, i, m.Name)
		}
	}
	b.WriteString("}\n")
	return os.WriteFile(filepath.Join(dir, "c15reg", "reg_gen.go"), []byte(b.String()), 0o644)
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// c15Bind finds the accessors of a message's fields.
func c15Bind(c *fw.Ctx, f *schema.File, m *schema.Message, t *gen.Type) {
	pt := reflect.TypeOf(t.New())
	meth := func(name string) reflect.Type {
		x, ok := pt.MethodByName(name)
		if !ok {
			return nil
		}
		return x.Type
	}
	used := map[string]bool{}
	for _, x := range m.Fields {
		if x.Rep {
			continue
		}
		base := schema.Canon(x.Name)
		name := ""
		setter := "Set"
		if x.Kind == ref.RepMsg {
			setter = "AppendTo"
		}
		for k := 0; k < 8; k++ {
			cand := base + strings.Repeat("_", k)
			g, s := meth(cand), meth(setter+cand)
			if g != nil && s != nil && !used[cand] && !used[setter+cand] && apiFits(x.Kind, x.Target, g, s) {
				name = cand
				break
			}
			if !f.Collide {
				c.Fail("message %s, field %q: accessors %s/%s%s are missing or have unexpected types (%v, %v)", m.Name, x.Name, cand, setter, cand, g, s)
			}
		}
		if name == "" {
			c.Fail("message %s, field %q has no accessor pair", m.Name, x.Name)
		}
		used[name], used[setter+name] = true, true
		t.Fields = append(t.Fields, gen.Field{Num: x.Num, Kind: x.Kind, Name: name})
	}
}

// apiFits checks accessor types (with receivers).
func apiFits(k ref.Kind, target string, g, s reflect.Type) bool {
	switch k {
	case ref.Msg:
		return g.NumIn() == 2 && g.In(1).Kind() == reflect.Ptr && g.In(1).Elem().Name() == target && g.NumOut() == 2 && g.Out(0).Kind() == reflect.Bool &&
			s.NumIn() == 2 && s.In(1) == g.In(1).Elem() && s.NumOut() == 0
	case ref.RepMsg:
		if !(g.NumIn() == 1 && g.NumOut() == 1 && s.NumIn() == 2 && s.In(1).Name() == target && s.NumOut() == 0) {
			return false
		}
		n, ok := reflect.PointerTo(g.Out(0)).MethodByName("Next")
		return ok && n.Type.NumIn() == 2 && n.Type.In(1) == reflect.PointerTo(s.In(1))
	}
	return g.NumIn() == 1 && g.NumOut() == 1 && g.Out(0) == gen.GoType(k) && s.NumIn() == 2 && s.In(1) == gen.GoType(k) && s.NumOut() == 0
}

// c15State is the reference contents of a message.
type c15State struct {
	val map[int]ref.V
	set map[int]bool
	rep map[int][]string
}

type c15Op struct {
	name string
	f    gen.Field
	v    ref.V
}

// c15Values picks a field's written values; wide alphabets for small
// messages.
func c15Values(k ref.Kind, light bool) []ref.V {
	n := 3
	if light {
		n = 2
	}
	if k == ref.RepMsg {
		return []ref.V{sv("\x08\x01"), sv("")}[:2]
	}
	return vals(k, n)
}

func c15Compare(c *fw.Ctx, in *gen.Inst, st *c15State, how string) {
	for _, f := range in.T.Fields {
		if f.Kind == ref.RepMsg {
			l, err := in.List(f, 16)
			if err != nil || len(l) != len(st.rep[f.Num]) || fmt.Sprint(l) != fmt.Sprint(st.rep[f.Num]) {
				c.Fail("%s: %s.%s iterates as %q (error %v), expected %q", how, in.T.Name, f.Name, l, err, st.rep[f.Num])
			}
			continue
		}
		v, err := in.Get(f)
		want := st.val[f.Num]
		if f.Kind == ref.Msg {
			want.Has = st.set[f.Num]
			if !want.Has {
				v.S = ""
			}
		}
		if err != nil || v != want {
			c.Fail("%s: %s.%s reads %v (error %v), expected %v; encoded %x", how, in.T.Name, f.Name, v, err, want, clipB(in.Encode()))
		}
	}
}

// c15Wire checks that the encoding is, field by field, what protobuf
// prescribes.
func c15Wire(c *fw.Ctx, in *gen.Inst, st *c15State) {
	b := in.Encode()
	occs, ok := ref.Parse(b, nil)
	if !ok {
		c.Fail("%s encodes as malformed bytes %x", in.T.Name, b)
	}
	var got, want []string
	for i := range occs {
		got = append(got, string(b[occs[i].Start:occs[i].End]))
	}
	for _, f := range in.T.Fields {
		if f.Kind == ref.RepMsg {
			for _, e := range st.rep[f.Num] {
				want = append(want, string(ref.AppendField(nil, f.Num, f.Kind, sv(e))))
			}
		} else if st.set[f.Num] {
			want = append(want, string(ref.AppendField(nil, f.Num, f.Kind, st.val[f.Num])))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%x", got) != fmt.Sprintf("%x", want) {
		c.Fail("%s encodes the fields %x, expected %x", in.T.Name, got, want)
	}
}

func c15Message(c *fw.Ctx, f *schema.File, m *schema.Message) {
	ctor := c15reg.New[f.ID+"."+m.Name]
	if ctor == nil {
		c.Broken("no registered type for %s.%s", f.ID, m.Name)
	}
	t := &gen.Type{Name: m.Name, New: ctor}
	var hist []string
	c.Cur = func() []string {
		return append([]string{"schema " + f.Name + fmt.Sprintf(" package %q", f.Package), "message " + m.Name + " {" + schema.FieldsString(m.Fields) + " }"}, hist...)
	}
	c15Bind(c, f, m, t)
	c.Count("messages", 1)
	c.Count("fields", int64(len(t.Fields)))

	var ops []c15Op
	for _, x := range t.Fields {
		vs := c15Values(x.Kind, f.Light || len(t.Fields) > 4)
		if len(t.Fields) > 8 {
			vs = vs[:1]
		}
		for _, v := range vs {
			ops = append(ops, c15Op{fmt.Sprintf("%s = %v", x.Name, v), x, v})
		}
	}
	depth := 2
	if !f.Light && len(ops) <= 10 || c.Thorough() && len(ops) <= 8 {
		depth = 3
	}
	seq := make([]int, 0, depth)
	var run func()
	run = func() {
		if !c.Step() {
			return
		}
		in := t.Make()
		st := &c15State{val: map[int]ref.V{}, set: map[int]bool{}, rep: map[int][]string{}}
		hist = hist[:0]
		for _, o := range seq {
			op := ops[o]
			hist = append(hist, op.name)
			if op.f.Kind == ref.RepMsg {
				in.Append(op.f, op.v.S)
				st.rep[op.f.Num] = append(st.rep[op.f.Num], op.v.S)
			} else {
				in.Set(op.f, op.v)
				st.val[op.f.Num], st.set[op.f.Num] = op.v, true
			}
		}
		c15Compare(c, in, st, "after writing")
		c15Wire(c, in, st)
		d := t.Make()
		if err := d.Decode(append([]byte(nil), in.Encode()...)); err != nil {
			c.Fail("%s cannot decode its own encoding %x: %v", m.Name, in.Encode(), err)
		}
		c15Compare(c, d, st, "after encode and decode")
		c.Evaluations++
		if len(seq) > 0 {
			c.Nontrivial++
		}
		if len(seq) == depth {
			return
		}
		for o := range ops {
			seq = append(seq, o)
			run()
			seq = seq[:len(seq)-1]
		}
	}
	run()

	// Another implementation's encoding: every field once (repeated ones
	// twice), in declaration, reverse and number order, repeated scalars
	// packed and unpacked.
	for order := 0; order < 3; order++ {
		for skew := 0; skew < 2; skew++ {
			hist = []string{fmt.Sprintf("decode all fields, order %d/%d", order, skew)}
			st := &c15State{val: map[int]ref.V{}, set: map[int]bool{}, rep: map[int][]string{}}
			idx := make([]int, len(m.Fields))
			for i := range idx {
				idx[i] = i
			}
			switch order {
			case 1:
				for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
					idx[i], idx[j] = idx[j], idx[i]
				}
			case 2:
				sort.Slice(idx, func(a, b int) bool { return m.Fields[idx[a]].Num < m.Fields[idx[b]].Num })
			}
			var b []byte
			for round := 0; round < 2; round++ {
				for n, i := range idx {
					x := m.Fields[i]
					if x.Rep {
						if skew == 0 && x.Kind.WireType() != ref.WBytes {
							v := vals(x.Kind, 2)
							pk := ref.AppendValue(ref.AppendValue(nil, x.Kind, v[0]), x.Kind, v[1])
							b = ref.AppendField(b, x.Num, ref.Bytes, sv(string(pk)))
						} else {
							b = ref.AppendField(b, x.Num, x.Kind, vals(x.Kind, 2)[round])
						}
						continue
					}
					if x.Kind == ref.RepMsg {
						e := []string{"", "\x08\x01"}[(round+skew)%2]
						b = ref.AppendField(b, x.Num, x.Kind, sv(e))
						st.rep[x.Num] = append(st.rep[x.Num], e)
						continue
					}
					if round == 1 {
						continue
					}
					v := vals(x.Kind, 2)[(n+skew)%2]
					b = ref.AppendField(b, x.Num, x.Kind, v)
					st.val[x.Num], st.set[x.Num] = v, true
				}
			}
			d := t.Make()
			if err := d.Decode(append([]byte(nil), b...)); err != nil {
				c.Fail("%s cannot decode %x: %v", m.Name, b, err)
			}
			c15Compare(c, d, st, "after decoding another implementation's encoding")
			c.Evaluations++
			// Reset forgets everything.
			d.Reset(nil)
			c15Compare(c, d, &c15State{}, "after Reset")
			if len(d.Encode()) != 0 {
				c.Fail("%s encodes %x after Reset", m.Name, d.Encode())
			}
		}
	}
	if c.WantSample() && len(ops) > 0 {
		c.Sample(fmt.Sprintf("message %s {%s } in %s: %d operations, depth %d", m.Name, schema.FieldsString(m.Fields), f.Name, len(ops), depth))
	}
}

// typeChecker type-checks generated files in process.
type typeChecker struct {
	fset *token.FileSet
	zero *types.Package
	src  types.Importer
}

func newTypeChecker() (*typeChecker, error) {
	t := &typeChecker{fset: token.NewFileSet()}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	bp, err := build.ImportDir(repo, 0)
	if err != nil {
		return nil, err
	}
	var fs []*ast.File
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(t.fset, filepath.Join(repo, n), nil, 0)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	// Only the exported signatures matter, so imports may stay unresolved.
	conf := types.Config{IgnoreFuncBodies: true, Error: func(error) {}, Importer: empty{}}
	t.zero, _ = conf.Check("github.com/danhhz/zeropb", t.fset, fs, nil)
	t.src = importer.ForCompiler(t.fset, "source", nil)
	return t, nil
}

type empty struct{}

func (empty) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

// Import implements types.Importer.
func (t *typeChecker) Import(path string) (*types.Package, error) {
	if path == "github.com/danhhz/zeropb" {
		return t.zero, nil
	}
	return t.src.Import(path)
}

// check returns the package or the first error.
func (t *typeChecker) check(content string) (*types.Package, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.zeropb.go", content, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: t}
	return conf.Check("x", fset, []*ast.File{f}, nil)
}

// apiNames are the methods a field needs if nothing collides.
func apiNames(x schema.Field) []string {
	if x.Rep {
		return nil
	}
	n := schema.Canon(x.Name)
	if x.Kind == ref.RepMsg {
		return []string{n, "AppendTo" + n}
	}
	return []string{n, "Set" + n}
}

// c15Typed generates and type-checks one schema, and checks its method names.
func c15Typed(c *fw.Ctx, t *typeChecker, f *schema.File) {
	c.Cur = func() []string { return []string{f.String()} }
	content, why := generateOne(f)
	if why != "" {
		c.Fail("%s", why)
	}
	pkg, err := t.check(content)
	if err != nil {
		c.Fail("the generated code does not compile: %v", err)
	}
	c.Evaluations++
	c.Nontrivial++
	c.Count("schemas_type_checked", 1)
	for _, m := range f.Msgs {
		o := pkg.Scope().Lookup(m.Name)
		if o == nil {
			c.Fail("message %s has no Go type", m.Name)
		}
		ms := types.NewMethodSet(types.NewPointer(o.Type()))
		has := map[string]bool{}
		for i := 0; i < ms.Len(); i++ {
			has[ms.At(i).Obj().Name()] = true
		}
		cnt := map[string]int{"Encode": 1, "Decode": 1, "Reset": 1}
		need := 3
		for _, x := range m.Fields {
			for _, n := range apiNames(x) {
				cnt[n]++
				need++
			}
		}
		if len(has) < need {
			c.Fail("message %s has %d methods, its fields need %d", m.Name, len(has), need)
		}
		for _, x := range m.Fields {
			names := apiNames(x)
			if len(names) == 0 {
				continue
			}
			if cnt[names[0]] == 1 && cnt[names[1]] == 1 && (!has[names[0]] || !has[names[1]]) {
				c.Fail("message %s, field %q: no accessors %v", m.Name, x.Name, names)
			}
		}
	}
}

// c15NamePairs is every pair of field-name shapes x kinds.
func c15NamePairs(names []string, part, parts int, kinds []ref.Kind) func(c *fw.Ctx) {
	return func(c *fw.Ctx) {
		t, err := newTypeChecker()
		if err != nil {
			c.Broken("%v", err)
		}
		n := 0
		for i, a := range names {
			for j, b := range names {
				if i == j {
					continue
				}
				n++
				if n%parts != part {
					continue
				}
				f := &schema.File{ID: "pair", Name: "pair.proto", Package: "pair"}
				f.Msgs = []schema.Message{{Name: "Leaf"}}
				for x, k1 := range kinds {
					for y, k2 := range kinds {
						f.Msgs = append(f.Msgs, schema.Message{Name: fmt.Sprintf("M%d%d", x, y), Fields: []schema.Field{
							{Name: a, Num: 1, Kind: k1, Target: "Leaf"}, {Name: b, Num: 2, Kind: k2, Target: "Leaf"}}})
					}
				}
				if !c.Step() {
					return
				}
				c15Typed(c, t, f)
			}
		}
	}
}

// idents is every proto identifier over the alphabet, up to n long.
func idents(alphabet string, n int) []string {
	var l []string
	var rec func(p string)
	rec = func(p string) {
		if p != "" {
			l = append(l, p)
		}
		if len(p) == n {
			return
		}
		for _, r := range alphabet {
			if p == "" && r >= '0' && r <= '9' {
				continue
			}
			rec(p + string(r))
		}
	}
	rec("")
	return l
}

func init() {
	register(&fw.Prop{ID: "C15", Level: "exploration",
		Rule: "an evaluation is one write history on one generated, compiled message (checked through getters, the wire bytes and a decode), one foreign encoding decoded by it, or one schema type-checked; non-trivial: at least one write, or a schema with fields",
		Notes: []string{"the installed Go compiler and go/types accept exactly the valid programs", "schemas are within the documented subset: top-level messages with exported names, no groups, extensions, nested definitions or cross-file references",
			"accessors whose natural names collide may be renamed by appending underscores (X before a digit)"},
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			for _, f := range schema.Families(tier == "thorough") {
				f := f
				jobs = append(jobs, fw.Job{Name: "schema " + f.ID, Run: func(c *fw.Ctx) {
					c.Cur = func() []string { return []string{f.String()} }
					if why, bad := c15reg.Fail[f.ID]; bad {
						c.Fail("%s", why)
					}
					c.Count("schemas_compiled", 1)
					c.Evaluations++
					for i := range f.Msgs {
						c15Message(c, f, &f.Msgs[i])
					}
				}})
			}
			kinds := []ref.Kind{ref.Int32, ref.Msg, ref.RepMsg}
			for p := 0; p < 16; p++ {
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("name pairs %d", p), Run: c15NamePairs(schema.Names, p, 16, kinds)})
			}
			n, shortKinds := 3, kinds[:2]
			if tier == "thorough" {
				n, shortKinds = 4, kinds
			}
			small := idents("aB1_", n)
			for p := 0; p < 16; p++ {
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("short name pairs %d", p), Run: c15NamePairs(small, p, 16, shortKinds)})
			}
			// Package names: every dotted identifier up to a length, and words.
			jobs = append(jobs, fw.Job{Name: "package names", Run: func(c *fw.Ctx) {
				t, err := newTypeChecker()
				if err != nil {
					c.Broken("%v", err)
				}
				var ps []string
				for _, s := range idents("aB1_.", 5) {
					ok := true
					for _, part := range strings.Split(s, ".") {
						if part == "" || part[0] >= '0' && part[0] <= '9' {
							ok = false
						}
					}
					if ok {
						ps = append(ps, s)
					}
				}
				for _, k := range append([]string{"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}, schema.Packages...) {
					ps = append(ps, k)
				}
				for _, p := range ps {
					f := &schema.File{ID: "p", Name: "p.proto", Package: p, Msgs: []schema.Message{{Name: "M", Fields: []schema.Field{{Name: "a", Num: 1, Kind: ref.String}, {Name: "m", Num: 2, Kind: ref.RepMsg, Target: "M"}}}}}
					if !c.Step() {
						return
					}
					c15Typed(c, t, f)
				}
			}})
			// Files without a package, named in every way.
			jobs = append(jobs, fw.Job{Name: "file names", Run: func(c *fw.Ctx) {
				t, err := newTypeChecker()
				if err != nil {
					c.Broken("%v", err)
				}
				runes := []rune("a1_-./é٣")
				var rec func(n string, left int)
				rec = func(n string, left int) {
					for _, suffix := range []string{"", ".proto"} {
						if c.Step() {
							c15Typed(c, t, &schema.File{ID: "p", Name: n + suffix, Msgs: []schema.Message{{Name: "M", Fields: []schema.Field{{Name: "a", Num: 1, Kind: ref.String}}}}})
						}
					}
					if left > 0 {
						for _, r := range runes {
							rec(n+string(r), left-1)
						}
					}
				}
				rec("", 3)
			}})
			// Reference graphs: 3 messages with 2 message fields each.
			graphs := 8
			for p := 0; p < graphs; p++ {
				p := p
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("graphs %d", p), Run: func(c *fw.Ctx) {
					t, err := newTypeChecker()
					if err != nil {
						c.Broken("%v", err)
					}
					names := []string{"A", "B", "AB"}
					var bodies [][]schema.Field
					for a := 0; a < 6; a++ {
						for b := 0; b < 6; b++ {
							k := func(x int) ref.Kind { return []ref.Kind{ref.Msg, ref.RepMsg}[x%2] }
							bodies = append(bodies, []schema.Field{{Name: "one", Num: 1, Kind: k(a), Target: names[a/2]}, {Name: "two", Num: 2, Kind: k(b), Target: names[b/2]}})
						}
					}
					n := 0
					for _, b1 := range bodies {
						for _, b2 := range bodies {
							for j, b3 := range bodies {
								n++
								if n%graphs != p || tier != "thorough" && (n/graphs+j)%4 != 0 {
									continue
								}
								if !c.Step() {
									return
								}
								c15Typed(c, t, &schema.File{ID: "g", Name: "g.proto", Package: "g", Msgs: []schema.Message{{Name: "A", Fields: b1}, {Name: "B", Fields: b2}, {Name: "AB", Fields: b3}}})
							}
						}
					}
				}})
			}
			return jobs
		}})
}
