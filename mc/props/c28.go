//go:build sched

package props

import (
	"fmt"
	"strings"

	"github.com/danhhz/zeropb/generate"

	"verifmc/fw"
	"verifmc/ref"
	"verifmc/sched"
	"verifmc/schema"
)

// c28Token is part of (nearly) every name in a request and differs between
// runs, so that nothing about the names can be known from an earlier run.
func c28Token(run int) string { return fmt.Sprintf("q%07dz", run) }

var c28Run int

// c28Requests are small requests that between them use all of the generator.
func c28Requests() (names []string, reqs []func(t string) *generate.CodeGeneratorRequest) {
	add := func(name string, mk func(t string) []schema.File) {
		names = append(names, name)
		reqs = append(reqs, func(t string) *generate.CodeGeneratorRequest {
			r := &generate.CodeGeneratorRequest{}
			for _, f := range mk(t) {
				r.ProtoFile = append(r.ProtoFile, f.Proto())
				r.FileToGenerate = append(r.FileToGenerate, f.Name)
			}
			return r
		})
	}
	one := func(f schema.File) []schema.File { return []schema.File{f} }
	add("no message", func(t string) []schema.File { return one(schema.File{Name: "a/b-c" + t + ".proto"}) })
	add("scalar", func(t string) []schema.File {
		return one(schema.File{Name: "a" + t + ".proto", Package: "p.q" + t, Msgs: []schema.Message{{Name: "A" + t, Fields: []schema.Field{{Name: "a_b" + t, Num: 1, Kind: ref.Int32}}}}})
	})
	add("colliding", func(t string) []schema.File {
		return one(schema.File{Name: "b" + t + ".proto", Package: "go", Msgs: []schema.Message{{Name: "B" + t, Fields: []schema.Field{{Name: "encode", Num: 200, Kind: ref.String}}}}})
	})
	add("nested", func(t string) []schema.File {
		return one(schema.File{Name: "c" + t + ".proto", Package: "p", Msgs: []schema.Message{{Name: "A" + t, Fields: []schema.Field{{Name: "x" + t, Num: 3, Kind: ref.Msg, Target: "A" + t}}}}})
	})
	add("repeated", func(t string) []schema.File {
		return one(schema.File{Name: "a" + t + ".proto", Package: "p" + t, Msgs: []schema.Message{{Name: "A" + t, Fields: []schema.Field{{Name: "l" + t, Num: 2, Kind: ref.RepMsg, Target: "A" + t}, {Name: "r" + t, Num: 70000, Kind: ref.Uint64, Rep: true}}}}})
	})
	add("two files", func(t string) []schema.File {
		return []schema.File{{Name: "a" + t + ".proto"}, {Name: "b" + t + ".proto", Msgs: []schema.Message{{Name: "A" + t}}}}
	})
	return
}

// c28Out is what a request's response says.
func c28Out(req *generate.CodeGeneratorRequest, t string) (o []ref.V) {
	defer func() {
		for i := range o {
			o[i].S = strings.ReplaceAll(o[i].S, t, "~")
		}
	}()
	res, err := generate.Generate(req)
	if err != nil {
		return []ref.V{{S: "error: " + err.Error()}}
	}
	for _, f := range res.File {
		o = append(o, ref.V{S: f.GetName()}, ref.V{S: f.GetContent()})
	}
	return append(o, ref.V{S: "error: " + res.GetError()})
}

// c28Text is a request written out without the instrumented code.
func c28Text(req *generate.CodeGeneratorRequest, t string) func() []ref.V {
	return func() (o []ref.V) {
		defer func() {
			for i := range o {
				o[i].S = strings.ReplaceAll(o[i].S, t, "~")
			}
		}()
		for _, f := range req.ProtoFile {
			o = append(o, ref.V{S: *f.Name})
			for _, m := range f.MessageType {
				o = append(o, ref.V{S: *m.Name, U: uint64(len(m.Field))})
				for _, x := range m.Field {
					o = append(o, ref.V{S: *x.Name, U: uint64(*x.Number)})
				}
			}
		}
		for _, n := range req.FileToGenerate {
			o = append(o, ref.V{S: n})
		}
		return o
	}
}

type c28Stringer string

func (s c28Stringer) String() string { return string(s) }

// c28Trees writes to two trees of their own.
func c28Trees(variant int) *sched.Scenario {
	return &sched.Scenario{Name: fmt.Sprintf("trees %d", variant), Make: func() []sched.Thread {
		var ts []sched.Thread
		for i := 0; i < 2; i++ {
			i := i
			var b strings.Builder
			st := generate.NewStringTree(&b, []string{" ", "\t"}[i])
			ts = append(ts, sched.Thread{Name: "write to a tree", Run: func() []ref.V {
				in := generate.StringTreeIndent(i)
				switch variant {
				case 0:
					st.Write(in.Next(), "text", int32(-7+i*70000))
					st.Write([]byte{byte('a' + i)}, in)
				case 1:
					st.Write(int32(5+i), c28Stringer([]string{"one", "two"}[i]), in.Next().Next(), "x")
				}
				return []ref.V{{S: b.String()}, errV(st.Error())}
			}, After: func() []ref.V { return []ref.V{{S: b.String()}} }})
		}
		return ts
	}}
}

func init() {
	register(&fw.Prop{ID: "C28", Level: "exploration", FreshProcess: true,
		Rule: "every schedule of two (some: three) code generations at the generator's statements with at most the stated number of preemptions; each schedule must give every request the answer that it gets alone, leave the requests as they were and produce no race-detector report; non-trivial: at least one preemption inside the generator",
		Notes: []string{
			"scheduling points are the statement starts of the package generate, inserted by a build overlay; code of dependencies runs atomically",
			"memory is sequentially consistent within a schedule; unsynchronised conflicting accesses are caught by the race detector, from which the scheduler's hand-overs are hidden",
		},
		Jobs: func(tier string) []fw.Job {
			var jobs []fw.Job
			add := func(s *sched.Scenario, deep bool) {
				jobs = append(jobs, fw.Job{Name: s.Name, Run: func(c *fw.Ctx) {
					bound := 1
					if deep {
						bound = 2
					}
					sched.Explore(c, s, bound)
					c.Count("scenarios", 1)
					c.Count(fmt.Sprintf("scenarios_with_%d_preemptions", bound), 1)
					if c.WantSample() {
						c.Sample(s.Name)
					}
				}})
			}
			add(c28Trees(0), true)
			add(c28Trees(1), true)
			names, reqs := c28Requests()
			thread := func(name string, req *generate.CodeGeneratorRequest, t string) sched.Thread {
				return sched.Thread{Name: "generate " + name, Run: func() []ref.V { return c28Out(req, t) }, After: c28Text(req, t)}
			}
			scenario := func(name string, shared bool, l ...int) *sched.Scenario {
				return &sched.Scenario{Name: name, Make: func() (ts []sched.Thread) {
					c28Run++
					t := c28Token(c28Run)
					req := reqs[l[0]](t)
					for k, i := range l {
						if k > 0 && !shared {
							req = reqs[i](t)
						}
						ts = append(ts, thread(names[i], req, t))
					}
					return ts
				}}
			}
			var all []*sched.Scenario
			for i := range reqs {
				s := scenario(fmt.Sprintf("one request (%s), generated twice", names[i]), true, i, i)
				add(s, tier == "thorough" || names[i] == "no message")
				all = append(all, s)
				for j := i; j < len(reqs); j++ {
					s := scenario(fmt.Sprintf("two requests: %s, %s", names[i], names[j]), false, i, j)
					add(s, tier == "thorough" || names[j] == "no message")
					all = append(all, s)
				}
			}
			add(scenario("three requests", false, 0, 0, 0), tier == "thorough")
			// The first thing that a process does.
			for _, s := range append(all, c28Trees(0), c28Trees(1)) {
				s := s
				points, step := 150, 8
				if tier == "thorough" {
					points, step = 1300, 1
				}
				for k := 1; k <= points; k++ {
					k := k * step
					jobs = append(jobs, fw.Job{Name: fmt.Sprintf("new process, %s, %d", s.Name, k), Run: func(c *fw.Ctx) {
						sched.Cold(c, s, k)
						c.Count("schedules_that_begin_a_process", 1)
					}})
				}
			}
			return jobs
		}})
}
