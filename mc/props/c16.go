package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/schema"
)

// c16Names are file names; the adversarial ones contain the suffix elsewhere
// or not at all, or one is a part of another.
var c16Names = []string{"a.proto", "dir/a.proto", "b.proto.proto", "b.proto", "c.protodir/x.proto", "noext", ".proto", "d.proto.v2", "a.proto/b.proto", "PROTO.proto"}

func c16OutName(n string) string {
	if strings.HasSuffix(n, ".proto") {
		n = n[:len(n)-len(".proto")]
	}
	return n + ".zeropb.go"
}

// c16Contents are file bodies; several share a package or type names so that
// anything carried over from one file to another shows.
func c16Contents() []schema.File {
	rep := func(ts ...string) []schema.Field {
		var fs []schema.Field
		for i, t := range ts {
			fs = append(fs, schema.Field{Name: fmt.Sprintf("f%d", i), Num: i + 1, Kind: ref.RepMsg, Target: t})
		}
		return fs
	}
	return []schema.File{
		{Package: "p", Msgs: []schema.Message{{Name: "M", Fields: []schema.Field{{Name: "a", Num: 1, Kind: ref.Int32}, {Name: "self", Num: 2, Kind: ref.RepMsg, Target: "M"}}}}},
		{Package: "p", Msgs: []schema.Message{{Name: "M", Fields: []schema.Field{{Name: "b", Num: 30, Kind: ref.String}, {Name: "a", Num: 2, Kind: ref.Bytes}}}, {Name: "A", Fields: rep("M", "M")}}},
		{Package: "q.r"},
		{Package: "", Msgs: []schema.Message{{Name: "A", Fields: rep("BC", "BC")}, {Name: "AB", Fields: rep("C")}, {Name: "BC"}, {Name: "C", Fields: []schema.Field{{Name: "encode", Num: 1, Kind: ref.Bool}, {Name: "Encode", Num: 2, Kind: ref.Bool}}}}},
	}
}

// C16Alone generates the one file of the request on stdin.
func C16Alone() {
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	var reqs generate.CodeGeneratorRequest
	if proto.Unmarshal(in, &reqs) != nil {
		os.Exit(3)
	}
	res, err := generate.Generate(&reqs)
	if err != nil {
		fmt.Print(err)
		os.Exit(4)
	}
	if len(res.GetFile()) != 1 {
		fmt.Printf("%d files", len(res.GetFile()))
		os.Exit(4)
	}
	os.Stdout.WriteString(res.File[0].GetContent())
	os.Exit(0)
}

var c16Alone = map[string]string{}

// c16Baseline is the file generated alone in a process of its own.
func c16Baseline(c *fw.Ctx, name string, f schema.File) string {
	f.Name = name
	req := c16AloneRequest(name, f)
	in := mustMarshal(c, req)
	if s, ok := c16Alone[string(in)]; ok {
		return s
	}
	c.Cur = func() []string { return []string{"single file " + f.String()} }
	cmd := exec.Command(os.Args[0], "-c16alone")
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	if err != nil {
		if e, ok := err.(*exec.ExitError); !ok || e.ExitCode() == 3 {
			c.Broken("-c16alone: %v", err)
		}
		c.Fail("a request for one file fails: %v %s", err, clipS(string(out), 300))
	}
	c16Alone[string(in)] = string(out)
	return string(out)
}

func c16AloneRequest(name string, f schema.File) *generate.CodeGeneratorRequest {
	return &generate.CodeGeneratorRequest{FileToGenerate: []string{name}, ProtoFile: []*generate.FileDescriptorProto{f.Proto()}}
}

// c16Again generates the file alone, here and now.
func c16Again(c *fw.Ctx, name string, f schema.File) string {
	f.Name = name
	res, err := generate.Generate(c16AloneRequest(name, f))
	if err != nil || len(res.GetFile()) != 1 {
		c.Fail("a request for one file gives %d files, error %v", len(res.GetFile()), err)
	}
	return res.File[0].GetContent()
}

// c16Check runs one request several times and compares with the oracle.
func c16Check(c *fw.Ctx, base map[string]string, key []string, req *generate.CodeGeneratorRequest, pf []string, runs int) {
	c.Cur = func() []string {
		return []string{"files in request: " + strings.Join(key, " | "), fmt.Sprintf("file_to_generate: %q", req.FileToGenerate)}
	}
	before := proto.Clone(req).(*generate.CodeGeneratorRequest)
	want := map[string]string{} // output name -> content
	for i, n := range pf {
		for _, g := range req.FileToGenerate {
			if g == n {
				want[c16OutName(n)] = base[key[i]]
			}
		}
	}
	var first *generate.CodeGeneratorResponse
	for run := 0; run < runs; run++ {
		res, err := generate.Generate(req)
		if !proto.Equal(before, req) {
			c.Fail("Generate modified the request")
		}
		if err != nil {
			missing := false
			for _, g := range req.FileToGenerate {
				has := false
				for _, n := range pf {
					has = has || n == g
				}
				missing = missing || !has
			}
			if missing {
				c.Count("rejected_missing_file", 1)
				return
			}
			c.Fail("Generate fails: %v", err)
		}
		if res.GetError() != "" {
			c.Fail("the response carries the error %q", res.GetError())
		}
		got := map[string]bool{}
		for _, f := range res.File {
			n := f.GetName()
			if got[n] {
				c.Fail("two outputs named %q", n)
			}
			got[n] = true
			w, ok := want[n]
			if !ok {
				c.Fail("unrequested or misnamed output %q", n)
			}
			if f.GetContent() != w {
				c.Fail("output %q differs from generating that file alone:\n%s\n--- alone:\n%s", n, clipS(f.GetContent(), 1200), clipS(w, 1200))
			}
			if f.InsertionPoint != nil {
				c.Fail("output %q has an insertion point", n)
			}
		}
		for n := range want {
			if !got[n] {
				c.Fail("no output %q", n)
			}
		}
		if run == 0 {
			first = res
		} else if !proto.Equal(first, res) {
			c.Fail("run %d gives a different response to the same request", run+1)
		}
	}
	c.Evaluations++
	if len(want) > 0 {
		c.Nontrivial++
	}
	if c.WantSample() && len(want) > 1 {
		c.Sample(strings.Join(c.Cur(), "; "))
	}
}

func c16Job(first int) func(c *fw.Ctx) {
	return func(c *fw.Ctx) {
		contents := c16Contents()
		base := map[string]string{}
		protos := map[string]*generate.FileDescriptorProto{}
		keyOf := func(n string, v int) string { return fmt.Sprintf("%s#%d", n, v) }
		for _, n := range c16Names {
			for v, f := range contents {
				base[keyOf(n, v)] = c16Baseline(c, n, f)
				f.Name = n
				protos[keyOf(n, v)] = f.Proto()
			}
		}
		maxFiles, maxReq := 3, 3
		names := c16Names
		if !c.Thorough() {
			names = names[:8]
		}
		if first >= len(names) {
			return
		}
		var pf, key []string
		requests := func() {
			alphabet := append(append([]string{}, pf...), "missing.proto")
			if len(pf) > 0 && c16OutName(pf[0]) != pf[0] {
				alphabet = append(alphabet, c16OutName(pf[0]))
			}
			limit := maxReq
			if len(pf) == 3 && !c.Thorough() {
				limit = 2
			}
			var ftg []string
			var rec func()
			rec = func() {
				if !c.Step() {
					return
				}
				req := &generate.CodeGeneratorRequest{FileToGenerate: append([]string(nil), ftg...)}
				for _, k := range key {
					req.ProtoFile = append(req.ProtoFile, protos[k])
				}
				c16Check(c, base, key, req, pf, 2+len(pf))
				if len(ftg) == limit {
					return
				}
				for _, a := range alphabet {
					ftg = append(ftg, a)
					rec()
					ftg = ftg[:len(ftg)-1]
				}
			}
			rec()
			// All requested, with the attributes a request can carry.
			for v := 0; v < 4; v++ {
				req := &generate.CodeGeneratorRequest{FileToGenerate: append([]string(nil), pf...)}
				for _, k := range key {
					req.ProtoFile = append(req.ProtoFile, protos[k])
				}
				switch v {
				case 1:
					p := "paths=source_relative,Ma.proto=x"
					req.Parameter = &p
				case 2:
					major := int32(3)
					req.CompilerVersion = &generate.Version{Major: &major}
				case 3:
					// Dependencies between the files.
					req.ProtoFile = nil
					for i, k := range key {
						d := proto.Clone(protos[k]).(*generate.FileDescriptorProto)
						d.Dependency = append([]string(nil), pf[:i]...)
						req.ProtoFile = append(req.ProtoFile, d)
					}
				}
				c16Check(c, base, key, req, pf, 2)
			}
		}
		var pick func()
		pick = func() {
			requests()
			if len(pf) == maxFiles {
				return
			}
			for i, n := range names {
				if len(pf) == 0 && i != first {
					continue
				}
				dup := false
				for _, p := range pf {
					dup = dup || p == n || c16OutName(p) == c16OutName(n)
				}
				if dup {
					continue
				}
				for v := range contents {
					if len(pf) == 2 && !c.Thorough() && v != (i+len(key[0])+len(key[1]))%len(contents) {
						continue
					}
					pf, key = append(pf, n), append(key, keyOf(n, v))
					pick()
					pf, key = pf[:len(pf)-1], key[:len(key)-1]
				}
			}
		}
		pick()
		// The baselines still hold after all that.
		for _, n := range c16Names {
			for v, f := range contents {
				if c16Again(c, n, f) != base[keyOf(n, v)] {
					c.Fail("generating %s alone gives a different result than before", keyOf(n, v))
				}
			}
		}
	}
}

func init() {
	register(&fw.Prop{ID: "C16", Level: "exploration",
		Rule:  "an evaluation is one code generation request, run several times; non-trivial: it requests at least one file that it contains",
		Notes: []string{"requests list each file once, as protoc guarantees", "a request for a file it does not contain may be rejected or the file ignored", "map iteration order inside the generator is Go's; every request is repeated to expose it"},
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			for i, n := range c16Names {
				jobs = append(jobs, fw.Job{Name: "first file " + n, Run: c16Job(i)})
			}
			for p := 0; p < 8; p++ {
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("many files %d", p), Run: c16Many(p, 8)})
				jobs = append(jobs, fw.Job{Name: fmt.Sprintf("file names %d", p), Run: c16NamesJob(p, 8)})
			}
			return jobs
		}})
}

// c16Many goes up in the number of files of a request, of files that are
// requested, and of messages in a file; the files alternate between contents
// that share names.
func c16Many(part, parts int) func(c *fw.Ctx) {
	return func(c *fw.Ctx) {
		contents := c16Contents()
		base := map[string]string{}
		var pf, key []string
		var protos []*generate.FileDescriptorProto
		grow := func(n int) {
			for i := len(pf); i < n; i++ {
				name := fmt.Sprintf("d%d/f%d.proto", i%7, i)
				f := contents[i%len(contents)]
				k := fmt.Sprintf("%s#%d", name, i%len(contents))
				base[k] = c16Baseline(c, name, f)
				f.Name = name
				pf, key, protos = append(pf, name), append(key, k), append(protos, f.Proto())
			}
		}
		var sizes []int
		for n := 1; n <= 20; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)
		if c.Thorough() {
			for n := 21; n <= 140; n++ {
				sizes = append(sizes, n)
			}
			sizes = append(sizes, 511, 512, 513, 1023, 1024, 1025)
		}
		n := 0
		mine := func() bool { n++; return n%parts == part && c.Step() }
		for _, size := range sizes {
			grow(size)
			req := &generate.CodeGeneratorRequest{ProtoFile: protos[:size]}
			for _, pick := range []func(i int) bool{
				func(i int) bool { return true },
				func(i int) bool { return i == size-1 },
				func(i int) bool { return i == 0 },
				func(i int) bool { return i%2 == 0 },
				func(i int) bool { return i > 0 },
				func(i int) bool { return i < size-1 },
			} {
				for dir := 0; dir < 2; dir++ {
					req.FileToGenerate = nil
					for i := 0; i < size; i++ {
						j := i
						if dir == 1 {
							j = size - 1 - i
						}
						if pick(j) {
							req.FileToGenerate = append(req.FileToGenerate, pf[j])
						}
					}
					if mine() {
						c16Check(c, base, key[:size], req, pf[:size], 2)
						c.Count("many_files", 1)
					}
				}
			}
		}
		// Many messages, between two files that share their names.
		for _, size := range sizes {
			var msgs []schema.Message
			for i := 0; i < size; i++ {
				msgs = append(msgs, schema.Message{Name: fmt.Sprintf("M%d", i), Fields: []schema.Field{
					{Name: "a", Num: 1 + i, Kind: ref.Int32},
					{Name: "l", Num: 3000, Kind: ref.RepMsg, Target: fmt.Sprintf("M%d", (i*7+1)%size)}}})
			}
			if !mine() {
				continue
			}
			fs := []schema.File{{Package: "p", Msgs: msgs}, {Package: "p", Msgs: msgs[:1+size/2]}, {Package: "q", Msgs: msgs}}
			fs[1].Msgs = append([]schema.Message(nil), fs[1].Msgs...)
			for i := range fs[1].Msgs {
				fs[1].Msgs[i].Fields = fs[1].Msgs[i].Fields[:1]
			}
			for _, order := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 0, 2}} {
				mb := map[string]string{}
				var mp, mk []string
				req := &generate.CodeGeneratorRequest{}
				for i, o := range order {
					name := fmt.Sprintf("x%d.proto", i)
					k := fmt.Sprintf("%s with %d messages", name, len(fs[o].Msgs))
					mb[k] = c16Baseline(c, name, fs[o])
					f := fs[o]
					f.Name = name
					mp, mk = append(mp, name), append(mk, k)
					req.ProtoFile = append(req.ProtoFile, f.Proto())
				}
				req.FileToGenerate = mp
				c16Check(c, mb, mk, req, mp, 3)
				c.Count("many_messages", 1)
			}
		}
	}
}

// c16FileNames are all the canonical virtual paths of up to max tokens, with
// and without the suffix.
func c16FileNames(max int) []string {
	tokens := []string{"a", "A", "/", ".", "_", " ", "-", ".proto", ".zeropb.go", "é"}
	var out []string
	seen := map[string]bool{}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		for _, x := range []string{s, s + ".proto"} {
			ok := x != "" && !seen[x]
			for _, part := range strings.Split(x, "/") {
				ok = ok && part != "" && part != "." && part != ".."
			}
			if ok {
				seen[x] = true
				out = append(out, x)
			}
		}
		if n == 0 {
			return
		}
		for _, t := range tokens {
			rec(s+t, n-1)
		}
	}
	rec("", max)
	return out
}

// c16NamesJob requests files of all names, alone and two by two.
func c16NamesJob(part, parts int) func(c *fw.Ctx) {
	return func(c *fw.Ctx) {
		c.Cur = func() []string { return nil }
		body := func(name, msg string) *generate.FileDescriptorProto {
			f := schema.File{Name: name, Package: "p", Msgs: []schema.Message{{Name: msg, Fields: []schema.Field{{Name: "a", Num: 1, Kind: ref.Int32}}}}}
			return f.Proto()
		}
		check := func(names ...string) {
			c.Cur = func() []string { return []string{fmt.Sprintf("file_to_generate: %q", names)} }
			req := &generate.CodeGeneratorRequest{FileToGenerate: names}
			for i, n := range names {
				req.ProtoFile = append(req.ProtoFile, body(n, fmt.Sprintf("M%d", i)))
			}
			// A file that is not requested, and has a name like the first.
			req.ProtoFile = append(req.ProtoFile, body("x"+names[0], "Other"))
			res, err := generate.Generate(req)
			if err != nil || res.GetError() != "" {
				c.Fail("Generate fails: %v %s", err, res.GetError())
			}
			if len(res.File) != len(names) {
				c.Fail("%d outputs for %d requested files", len(res.File), len(names))
			}
			for i, n := range names {
				found := false
				for _, f := range res.File {
					if f.GetName() == c16OutName(n) && strings.Contains(f.GetContent(), fmt.Sprintf("type M%d struct", i)) {
						found = true
					}
				}
				if !found {
					c.Fail("no output %q with the contents of %q (outputs: %q)", c16OutName(n), n, []string{res.File[0].GetName(), res.File[len(names)-1].GetName()})
				}
			}
			c.Evaluations++
			c.Nontrivial++
			c.Count("file_names", 1)
		}
		one, two := 4, 2
		if c.Thorough() {
			one, two = 5, 3
		}
		for i, n := range c16FileNames(one) {
			if i%parts != part {
				continue
			}
			if !c.Step() {
				return
			}
			check(n)
		}
		pairs := c16FileNames(two)
		if len(pairs) > 600 {
			pairs = pairs[:600]
		}
		for i, n := range pairs {
			if i%parts != part {
				continue
			}
			for _, m := range pairs {
				if c16OutName(n) == c16OutName(m) {
					continue
				}
				if !c.Step() {
					return
				}
				check(n, m)
			}
		}
	}
}
