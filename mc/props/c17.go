package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/schema"
)

// ExecLimited limits the size of files that may be written and executes args.
func ExecLimited(n string, args []string) {
	lim, _ := strconv.ParseUint(n, 10, 64)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: lim})
	syscall.Exec(args[0], args, os.Environ())
	os.Exit(99)
}

func c17Bin(name string) string { return filepath.Join(os.Getenv("VERIF_OUT"), "bin", name) }

const (
	plugZero = "protoc-gen-zeropb"
	plugText = "protoc-gen-text"
)

type c17Result struct {
	code        int // -1: killed by a signal
	out, stderr []byte
}

func exitCode(c *fw.Ctx, err error) int {
	if err == nil {
		return 0
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode()
	}
	c.Broken("cannot run the plugin: %v", err)
	return 0
}

// wait runs cmd with a limit.
func c17Wait(c *fw.Ctx, cmd *exec.Cmd) int {
	if err := cmd.Start(); err != nil {
		c.Broken("start: %v", err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	start := time.Now()
	err := cmd.Wait()
	t.Stop()
	if time.Since(start) > 55*time.Second {
		c.Fail("the plugin does not terminate")
	}
	return exitCode(c, err)
}

func c17Run(c *fw.Ctx, plugin string, in []byte) c17Result {
	cmd := exec.Command(c17Bin(plugin))
	var o, e bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), &o, &e
	return c17Result{code: c17Wait(c, cmd), out: o.Bytes(), stderr: e.Bytes()}
}

// c17Expect says what the code generation plugin has to do with the input: res
// is nil if it has to fail.
func c17Expect(in []byte) (res *generate.CodeGeneratorResponse) {
	var req generate.CodeGeneratorRequest
	if proto.Unmarshal(in, &req) != nil {
		return nil
	}
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()
	r, err := generate.Generate(&req)
	if err != nil {
		return nil
	}
	if _, err := proto.Marshal(r); err != nil {
		return nil
	}
	return r
}

func c17Zero(c *fw.Ctx, in []byte) {
	want := c17Expect(in)
	c17Judge(c, c17Run(c, plugZero, in), want)
}

func c17Judge(c *fw.Ctx, r c17Result, want *generate.CodeGeneratorResponse) {
	c.Evaluations++
	if want == nil {
		c.Count("rejected", 1)
		if r.code == 0 {
			c.Fail("%s accepts the request with exit status 0 (stdout %d bytes, stderr %q)", plugZero, len(r.out), clipS(string(r.stderr), 300))
		}
		if len(r.out) != 0 {
			c.Fail("%s fails with status %d but writes %d bytes to stdout", plugZero, r.code, len(r.out))
		}
		return
	}
	c.Nontrivial++
	if c.WantSample() && c.Cur != nil {
		c.Sample(clipS(strings.Join(c.Cur(), "; "), 300))
	}
	if r.code != 0 {
		c.Fail("%s fails with status %d on a valid request: %s", plugZero, r.code, clipS(string(r.stderr), 500))
	}
	var got generate.CodeGeneratorResponse
	if err := proto.Unmarshal(r.out, &got); err != nil {
		c.Fail("%s writes something that is not a response: %v", plugZero, err)
	}
	if !proto.Equal(&got, want) {
		c.Fail("%s writes %s, expected %s", plugZero, clipS(got.String(), 800), clipS(want.String(), 800))
	}
	wb, _ := proto.Marshal(want)
	if len(wb) != len(r.out) {
		c.Fail("%s writes %d bytes, the response has %d", plugZero, len(r.out), len(wb))
	}
}

// c17Text checks the text plugin.
func c17Text(c *fw.Ctx, in []byte, faithful bool) {
	var req generate.CodeGeneratorRequest
	bad := proto.Unmarshal(in, &req) != nil
	r := c17Run(c, plugText, in)
	c.Evaluations++
	if bad {
		c.Count("rejected", 1)
		if r.code == 0 {
			c.Fail("%s exits with status 0 on a malformed request", plugText)
		}
		return
	}
	c.Nontrivial++
	if r.code != 0 {
		c.Fail("%s fails with status %d on a valid request: %s", plugText, r.code, clipS(string(r.stderr), 300))
	}
	if !faithful {
		return
	}
	txt := r.stderr
	if len(r.out) > 0 {
		if len(txt) > 0 {
			c.Fail("%s writes to both stdout and stderr", plugText)
		}
		txt = r.out
	}
	var back generate.CodeGeneratorRequest
	if err := proto.UnmarshalText(string(txt), &back); err != nil {
		c.Fail("%s prints unparsable text: %v\n%s", plugText, err, clipS(string(txt), 600))
	}
	if !proto.Equal(&back, &req) {
		c.Fail("%s prints %s for the request %s", plugText, clipS(string(txt), 600), clipS(req.String(), 600))
	}
}

// c17Requests are representative valid requests.
func c17Requests() []*generate.CodeGeneratorRequest {
	var out []*generate.CodeGeneratorRequest
	add := func(ftg []string, fs ...*schema.File) {
		r := &generate.CodeGeneratorRequest{FileToGenerate: ftg}
		for _, f := range fs {
			r.ProtoFile = append(r.ProtoFile, f.Proto())
		}
		out = append(out, r)
	}
	small := &schema.File{Name: "s.proto", Package: "s", Msgs: []schema.Message{{Name: "M", Fields: []schema.Field{{Name: "a", Num: 1, Kind: ref.Int32}}}}}
	mid := &schema.File{Name: "m.proto", Package: "m", Msgs: []schema.Message{{Name: "M", Fields: []schema.Field{{Name: "a", Num: 1, Kind: ref.String}, {Name: "l", Num: 16, Kind: ref.RepMsg, Target: "N"}}}, {Name: "N", Fields: []schema.Field{{Name: "m", Num: 300, Kind: ref.Msg, Target: "M"}, {Name: "e", Num: 2, Kind: ref.Enum}}}}}
	add(nil)
	add([]string{"s.proto"}, small)
	add([]string{"m.proto"}, mid)
	add([]string{"m.proto", "s.proto"}, small, mid)
	add([]string{"s.proto"}, mid, small)
	add(nil, small, mid)
	add([]string{"absent.proto"}, small)
	return out
}

func mustMarshal(c *fw.Ctx, m proto.Message) []byte {
	b, err := proto.Marshal(m)
	if err != nil {
		c.Broken("marshal: %v", err)
	}
	return b
}

// c17Paths calls f with requests that each have one field of the descriptor
// schema set, for every path up to the depth.
func c17Paths(depth int, f func(path string, req *generate.CodeGeneratorRequest)) {
	root := &generate.CodeGeneratorRequest{}
	var rec func(v reflect.Value, path string, d int)
	rec = func(v reflect.Value, path string, d int) {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			if strings.HasPrefix(sf.Name, "XXX_") {
				continue
			}
			fv := v.Field(i)
			p := path + "." + sf.Name
			strs := []string{"", "x", "a\"b\\c'\n\t\x00\x7f*/ //\r`", "\u00e9\u4e16\U0001f600"}
			set := func(x reflect.Value) {
				fv.Set(x)
				f(p, root)
				fv.Set(reflect.Zero(fv.Type()))
			}
			switch x := reflect.New(fv.Type()).Interface().(type) {
			case **string:
				for _, s := range strs {
					s := s
					set(reflect.ValueOf(&s))
				}
			case *[]string:
				set(reflect.ValueOf(strs))
				set(reflect.ValueOf(strs[2:3]))
			case **bool:
				for _, b := range []bool{false, true} {
					b := b
					set(reflect.ValueOf(&b))
				}
			case **int32:
				for _, n := range []int32{0, 1, -1, 1<<31 - 1, -1 << 31} {
					n := n
					set(reflect.ValueOf(&n))
				}
			case **int64:
				for _, n := range []int64{0, -1, -1 << 63} {
					n := n
					set(reflect.ValueOf(&n))
				}
			case **uint64:
				for _, n := range []uint64{0, 1<<64 - 1} {
					n := n
					set(reflect.ValueOf(&n))
				}
			case **float64:
				for _, n := range []float64{0, -1.5, 1e300} {
					n := n
					set(reflect.ValueOf(&n))
				}
			case *[]int32:
				set(reflect.ValueOf([]int32{0, -1, 7}))
			case *[]byte:
				set(reflect.ValueOf([]byte("\x00\xff\x80'\"\\")))
			default:
				_ = x
				ft := fv.Type()
				switch {
				case ft.Kind() == reflect.Ptr && ft.Elem().Kind() == reflect.Struct:
					if d == 0 {
						continue
					}
					n := reflect.New(ft.Elem())
					fv.Set(n)
					f(p, root)
					rec(n.Elem(), p, d-1)
					fv.Set(reflect.Zero(ft))
				case ft.Kind() == reflect.Slice && ft.Elem().Kind() == reflect.Ptr && ft.Elem().Elem().Kind() == reflect.Struct:
					if d == 0 {
						continue
					}
					n := reflect.New(ft.Elem().Elem())
					fv.Set(reflect.Append(reflect.Zero(ft), n))
					f(p, root)
					rec(n.Elem(), p, d-1)
					fv.Set(reflect.Zero(ft))
				case ft.Kind() == reflect.Ptr && ft.Elem().Kind() == reflect.Int32: // enum
					for e := 1; e <= 3; e++ {
						n := reflect.New(ft.Elem())
						n.Elem().SetInt(int64(e))
						set(n)
					}
				default:
					panic("c17Paths: " + p + " " + ft.String())
				}
			}
		}
	}
	rec(reflect.ValueOf(root).Elem(), "request", depth)
}

// resetStdin makes a descriptor that delivers data and then a read error.
func resetStdin(c *fw.Ctx, data []byte) *os.File {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		c.Broken("socketpair: %v", err)
	}
	a, b := fds[0], fds[1]
	// Unread data at the closing end turns the close into a reset, which the
	// peer sees after the data.
	syscall.Write(b, []byte{0})
	for len(data) > 0 {
		n, err := syscall.Write(a, data)
		if err != nil {
			c.Broken("socket write: %v", err)
		}
		data = data[n:]
	}
	syscall.Close(a)
	return os.NewFile(uintptr(b), "reset")
}

func c17Fault(c *fw.Ctx, plugin, what string, stdin *os.File, in []byte, stdout, stderr *os.File, wantEmpty *bytes.Buffer) {
	cmd := exec.Command(c17Bin(plugin))
	if stdin != nil {
		cmd.Stdin = stdin
	} else {
		cmd.Stdin = bytes.NewReader(in)
	}
	if stdout != nil {
		cmd.Stdout = stdout
	} else if wantEmpty != nil {
		cmd.Stdout = wantEmpty
	}
	if stderr != nil {
		cmd.Stderr = stderr
	}
	if err := cmd.Start(); err != nil {
		c.Broken("start: %v", err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	c.Evaluations++
	c.Nontrivial++
	c.Count("io_faults", 1)
	code := 0
	if cmd.ProcessState.Success() {
		code = 0
	} else {
		code = 1
	}
	_ = err
	if code == 0 {
		c.Fail("%s exits with status 0 although %s", plugin, what)
	}
	if wantEmpty != nil && wantEmpty.Len() > 0 {
		c.Fail("%s writes %d bytes of response although %s", plugin, wantEmpty.Len(), what)
	}
}

func init() {
	register(&fw.Prop{ID: "C17", Level: "fault_enumeration",
		Rule:  "an evaluation is one run of a plugin executable on one input under one fault; non-trivial: the input is accepted or an I/O fault occurs",
		Notes: []string{"golang/protobuf decides which requests are malformed and parses the answers", "a response that failed half way through being written cannot be unwritten; such runs must exit non-zero", "closed descriptors are not a fault: the Go runtime replaces them with /dev/null"},
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			job := func(name string, run func(c *fw.Ctx)) { jobs = append(jobs, fw.Job{Name: name, Run: run}) }
			const parts = 16
			part := func(name string, run func(c *fw.Ctx, mine func() bool)) {
				for p := 0; p < parts; p++ {
					p := p
					job(fmt.Sprintf("%s %d", name, p), func(c *fw.Ctx) {
						n := 0
						run(c, func() bool { n++; return n%parts == p && c.Step() })
					})
				}
			}
			cur := func(c *fw.Ctx, what string, in []byte) {
				c.Cur = func() []string { return []string{what, fmt.Sprintf("stdin %x", in)} }
			}
			part("valid requests", func(c *fw.Ctx, mine func() bool) {
				all := c17Requests()
				for _, f := range schema.Families(false) {
					if len(f.Msgs) < 60 || c.Thorough() {
						all = append(all, &generate.CodeGeneratorRequest{FileToGenerate: []string{f.Name}, ProtoFile: []*generate.FileDescriptorProto{f.Proto()}})
					}
				}
				for i, r := range all {
					if mine() {
						in := mustMarshal(c, r)
						cur(c, fmt.Sprintf("request %d", i), in)
						c17Zero(c, in)
						c17Text(c, in, true)
					}
				}
			})
			part("descriptor fields", func(c *fw.Ctx, mine func() bool) {
				depth := 4
				if c.Thorough() {
					depth = 5
				}
				c17Paths(depth, func(path string, req *generate.CodeGeneratorRequest) {
					if !mine() {
						return
					}
					in, err := proto.Marshal(req)
					if err != nil {
						return // lacks required fields
					}
					cur(c, path, in)
					c17Text(c, in, true)
					req2 := proto.Clone(req).(*generate.CodeGeneratorRequest)
					if len(req2.ProtoFile) > 0 {
						if req2.ProtoFile[0].Name == nil {
							req2.ProtoFile[0].Name = proto.String("f.proto")
						}
						req2.FileToGenerate = []string{req2.ProtoFile[0].GetName()}
						in = mustMarshal(c, req2)
						cur(c, path, in)
					}
					c17Zero(c, in)
					c.Count("descriptor_paths", 1)
				})
			})
			reqs := c17Requests()[1:5]
			part("truncations", func(c *fw.Ctx, mine func() bool) {
				for i, r := range reqs {
					in := mustMarshal(c, r)
					for n := 0; n <= len(in); n++ {
						if mine() {
							cur(c, fmt.Sprintf("request %d cut to %d of %d bytes", i, n, len(in)), in[:n])
							c17Zero(c, in[:n])
							c17Text(c, in[:n], false)
							c.Count("truncations", 1)
						}
					}
				}
			})
			part("corruptions", func(c *fw.Ctx, mine func() bool) {
				for i, r := range reqs {
					in := mustMarshal(c, r)
					for n := range in {
						for x := 1; x < 256; x++ {
							if (i > 0 || !c.Thorough()) && x&(x-1) != 0 && x != 0x7f && x != 0xff && (i > 0 || x%8 != 0) {
								continue
							}
							if !mine() {
								continue
							}
							b := append([]byte(nil), in...)
							b[n] ^= byte(x)
							cur(c, fmt.Sprintf("request %d, byte %d ^= %#x", i, n, x), b)
							c17Zero(c, b)
							if x&(x-1) == 0 {
								c17Text(c, b, false)
							}
							c.Count("corruptions", 1)
						}
					}
				}
			})
			part("garbage", func(c *fw.Ctx, mine func() bool) {
				alpha := []byte{0x00, 0x07, 0x0a, 0x12, 0x7a, 0x80, 0xff, 0x01, 0x05}
				max := 3
				if c.Thorough() {
					max = 4
				}
				var rec func(b []byte)
				rec = func(b []byte) {
					if mine() {
						cur(c, "garbage", b)
						c17Zero(c, b)
						c17Text(c, b, false)
						c.Count("garbage", 1)
					}
					if len(b) < max {
						for _, x := range alpha {
							rec(append(b[:len(b):len(b)], x))
						}
					}
				}
				rec(nil)
			})
			part("write limits", func(c *fw.Ctx, mine func() bool) {
				for i, r := range reqs[:2] {
					in := mustMarshal(c, r)
					full := c17Expect(in)
					if full == nil {
						c.Fail("Generate fails on a valid request")
					}
					size := proto.Size(full)
					for lim := 0; lim <= size; lim++ {
						if !c.Thorough() && lim%7 != i && lim > 4 && lim < size-4 {
							continue
						}
						if !mine() {
							continue
						}
						cur(c, fmt.Sprintf("request %d, output limited to %d of %d bytes", i, lim, size), in)
						c17Limit(c, in, full, lim, size)
					}
				}
			})
			part("read errors", func(c *fw.Ctx, mine func() bool) {
				for i, r := range reqs {
					in := mustMarshal(c, r)
					for n := 0; n <= len(in); n++ {
						for _, pl := range []string{plugZero, plugText} {
							if !mine() {
								continue
							}
							cur(c, fmt.Sprintf("%s: request %d, read error after %d of %d bytes", pl, i, n, len(in)), in)
							f := resetStdin(c, in[:n])
							var out *bytes.Buffer
							if pl == plugZero {
								out = &bytes.Buffer{}
							}
							c17Fault(c, pl, "reading its input failed", f, nil, nil, nil, out)
							f.Close()
						}
					}
				}
			})
			job("descriptor faults", func(c *fw.Ctx) {
				in := mustMarshal(c, reqs[1])
				open := func(p string, flag int) *os.File {
					f, err := os.OpenFile(p, flag, 0)
					if err != nil {
						c.Broken("%v", err)
					}
					return f
				}
				for _, pl := range []string{plugZero, plugText} {
					var out *bytes.Buffer
					if pl == plugZero {
						out = &bytes.Buffer{}
					}
					cur(c, pl+": stdin is a directory", nil)
					f := open("/", os.O_RDONLY)
					c17Fault(c, pl, "its input is a directory", f, nil, nil, nil, out)
					f.Close()
					cur(c, pl+": stdin is write-only", nil)
					f = open("/dev/null", os.O_WRONLY)
					c17Fault(c, pl, "its input cannot be read", f, nil, nil, nil, out)
					f.Close()
				}
				for _, pl := range []string{plugZero, plugText} {
					for _, how := range []string{"full", "read-only", "closed pipe"} {
						cur(c, pl+": output is "+how, in)
						var f *os.File
						switch how {
						case "full":
							f = open("/dev/full", os.O_WRONLY)
						case "read-only":
							f = open("/dev/null", os.O_RDONLY)
						default:
							r, w, err := os.Pipe()
							if err != nil {
								c.Broken("%v", err)
							}
							r.Close()
							f = w
						}
						if pl == plugZero {
							c17Fault(c, pl, "its output is "+how, nil, in, f, nil, nil)
						} else {
							// The text may go to either stream.
							c17Fault(c, pl, "its output is "+how, nil, in, f, f, nil)
						}
						f.Close()
					}
				}
			})
			part("split reads", func(c *fw.Ctx, mine func() bool) {
				for i, r := range reqs {
					in := mustMarshal(c, r)
					want := c17Expect(in)
					for n := 0; n <= len(in); n++ {
						if (i > 0 && n%5 != 0 && !c.Thorough()) || !mine() {
							continue
						}
						cur(c, fmt.Sprintf("request %d arriving in two pieces split at %d", i, n), in)
						cmd := exec.Command(c17Bin(plugZero))
						var o, e bytes.Buffer
						cmd.Stdout, cmd.Stderr = &o, &e
						w, err := cmd.StdinPipe()
						if err != nil {
							c.Broken("%v", err)
						}
						go deliver(w, [][]byte{in[:n], in[n:]})
						code := c17Wait(c, cmd)
						c17Judge(c, c17Result{code: code, out: o.Bytes(), stderr: e.Bytes()}, want)
						c.Count("split_reads", 1)
					}
				}
			})
			part("trickle", func(c *fw.Ctx, mine func() bool) {
				for i, r := range reqs {
					in := mustMarshal(c, r)
					want := c17Expect(in)
					for _, size := range []int{1, 2, 3, 5, 7, 16, 64} {
						if !mine() {
							continue
						}
						cur(c, fmt.Sprintf("request %d arriving %d bytes at a time", i, size), in)
						var pieces [][]byte
						for b := in; len(b) > 0; {
							n := min(size, len(b))
							pieces, b = append(pieces, b[:n]), b[n:]
						}
						cmd := exec.Command(c17Bin(plugZero))
						var o, e bytes.Buffer
						cmd.Stdout, cmd.Stderr = &o, &e
						w, err := cmd.StdinPipe()
						if err != nil {
							c.Broken("%v", err)
						}
						go deliver(w, pieces)
						code := c17Wait(c, cmd)
						c17Judge(c, c17Result{code: code, out: o.Bytes(), stderr: e.Bytes()}, want)
						c.Count("trickled", 1)
					}
				}
			})
			part("text characters", func(c *fw.Ctx, mine func() bool) {
				try := func(t string) {
					if !mine() {
						return
					}
					u := t + "x"
					req := &generate.CodeGeneratorRequest{Parameter: &t, FileToGenerate: []string{t, u}}
					in := mustMarshal(c, req)
					cur(c, fmt.Sprintf("parameter and file names %q and %q", t, u), in)
					c17Text(c, in, true)
					c.Count("texts", 1)
				}
				for b := 0; b < 256; b++ {
					try(string([]byte{byte(b)}))
				}
				special := []string{"%", "s", "d", "v", "\\", "\"", "'", "\n", "\r", "\t", "{", "}", "<", ">", "[", "]", ":", ";", ",", "#", " ", "/", "*", "0", "7", "x", "\x00", "\x7f", "\u00e9", "\xff"}
				for _, a := range special {
					for _, b := range special {
						try(a + b)
					}
				}
			})
			part("request sizes", func(c *fw.Ctx, mine func() bool) {
				top := 23
				if c.Thorough() {
					top = 26
				}
				for k := 9; k <= top; k++ {
					for d := -2; d <= 2; d++ {
						if !mine() {
							continue
						}
						n := 1<<k + d
						in := mustMarshal(c, c17Sized(c, n))
						c.Cur = func() []string { return []string{fmt.Sprintf("a request of %d bytes", n)} }
						c17Zero(c, in)
						c17Text(c, in, true)
						c.Count("request_sizes", 1)
						// A cut within the long field, or right before the file that
						// follows it, is malformed or a different request.
						if d == 0 {
							for _, cut := range []int{1, 2, n / 2} {
								c.Cur = func() []string { return []string{fmt.Sprintf("a request of %d bytes without its last %d", n, cut)} }
								c17Zero(c, in[:n-cut])
								c17Text(c, in[:n-cut], false)
							}
						}
					}
				}
			})
			part("response sizes", func(c *fw.Ctx, mine func() bool) {
				counts := []int{1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025}
				if c.Thorough() {
					counts = append(counts, 2047, 2048, 2049, 4097)
				}
				for _, n := range counts {
					for shape := 0; shape < 2; shape++ {
						if !mine() {
							continue
						}
						req := c17Many(shape, n)
						in := mustMarshal(c, req)
						c.Cur = func() []string {
							return []string{fmt.Sprintf("a request for %d %s", n, []string{"files", "messages in a file"}[shape])}
						}
						c17Zero(c, in)
						c17Text(c, in, true)
						c.Count("response_sizes", 1)
						full := c17Expect(in)
						if full == nil {
							c.Fail("Generate fails on a valid request")
						}
						size := proto.Size(full)
						for _, lim := range []int{1, 511, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, size - 4096, size - 1, size} {
							if lim < 0 || lim > size {
								continue
							}
							c17Limit(c, in, full, lim, size)
						}
					}
				}
			})
			return jobs
		}})
}

// pending says how many bytes wait in the pipe.
func pending(fd uintptr) int {
	var n int32
	syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541b /* FIONREAD */, uintptr(unsafe.Pointer(&n)))
	return int(n)
}

// deliver writes each piece after the reader has consumed the one before.
func deliver(w io.WriteCloser, pieces [][]byte) {
	defer w.Close()
	f, ok := w.(interface{ Fd() uintptr })
	fd := ^uintptr(0)
	if ok {
		fd = f.Fd()
	}
	for _, p := range pieces {
		if _, err := w.Write(p); err != nil {
			return
		}
		for i := 0; ok && i < 100000 && pending(fd) > 0; i++ {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

// c17Sized makes a request of n bytes, followed by the file that matters.
func c17Sized(c *fw.Ctx, n int) *generate.CodeGeneratorRequest {
	f := &schema.File{Name: "m.proto", Package: "m", Msgs: []schema.Message{{Name: "M", Fields: []schema.Field{{Name: "a", Num: 1, Kind: ref.String}}}}}
	g := &schema.File{Name: "s.proto", Package: "s"}
	for fill := max(0, n-300); fill < n; fill++ {
		p := f.Proto()
		text := strings.Repeat("x", fill)
		p.SourceCodeInfo = &generate.SourceCodeInfo{Location: []*generate.SourceCodeInfo_Location{{LeadingComments: &text}}}
		r := &generate.CodeGeneratorRequest{FileToGenerate: []string{"m.proto", "s.proto"}, ProtoFile: []*generate.FileDescriptorProto{p, g.Proto()}}
		if s := proto.Size(r); s == n {
			return r
		} else if s < n-1 && fill+(n-s)-1 > fill {
			fill += n - s - 2
		}
	}
	// The length prefixes can skip a size.
	p := f.Proto()
	text := strings.Repeat("x", n)
	p.SourceCodeInfo = &generate.SourceCodeInfo{Location: []*generate.SourceCodeInfo_Location{{LeadingComments: &text}}}
	return &generate.CodeGeneratorRequest{FileToGenerate: []string{"m.proto", "s.proto"}, ProtoFile: []*generate.FileDescriptorProto{p, g.Proto()}}
}

// c17Many requests many files or a file with many messages.
func c17Many(shape, n int) *generate.CodeGeneratorRequest {
	r := &generate.CodeGeneratorRequest{}
	fields := []schema.Field{{Name: "a", Num: 1, Kind: ref.Int32}, {Name: "b", Num: 16, Kind: ref.RepMsg, Target: "M0"}}
	one := &schema.File{Name: "m.proto", Package: "m"}
	for i := 0; i < n; i++ {
		if shape == 0 {
			f := &schema.File{Name: fmt.Sprintf("d%d/f%d.proto", i%3, i), Package: fmt.Sprintf("p%d", i), Msgs: []schema.Message{{Name: "M0", Fields: fields}}}
			r.FileToGenerate = append(r.FileToGenerate, f.Name)
			r.ProtoFile = append(r.ProtoFile, f.Proto())
		} else {
			one.Msgs = append(one.Msgs, schema.Message{Name: fmt.Sprintf("M%d", i), Fields: fields[:1+i%2]})
		}
	}
	if shape == 1 {
		r.FileToGenerate = []string{"m.proto"}
		r.ProtoFile = append(r.ProtoFile, one.Proto())
	}
	return r
}

// c17Limit runs the plugin with room for lim bytes of its size-byte answer.
func c17Limit(c *fw.Ctx, in []byte, full *generate.CodeGeneratorResponse, lim, size int) {
	f, err := os.CreateTemp(os.Getenv("VERIF_OUT"), "limit")
	if err != nil {
		c.Broken("%v", err)
	}
	cmd := exec.Command(os.Args[0], "-fsize", strconv.Itoa(lim), c17Bin(plugZero))
	cmd.Stdin, cmd.Stdout = bytes.NewReader(in), f
	code := c17Wait(c, cmd)
	f.Seek(0, 0)
	got, _ := io.ReadAll(f)
	f.Close()
	os.Remove(f.Name())
	c.Evaluations++
	c.Nontrivial++
	c.Count("write_limits", 1)
	if lim < size && code == 0 {
		c.Fail("%s exits with status 0 although only %d of %d bytes could be written", plugZero, len(got), size)
	}
	if lim >= size {
		c17Judge(c, c17Result{code: code, out: got}, full)
	}
}
