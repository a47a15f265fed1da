package props

import (
	"fmt"

	"verifmc/ex"
	"verifmc/fw"
	"verifmc/ref"
	"verifmc/zt"
)

// The write-history state space shared by C01, C02 and C03: each property
// evaluates its own oracle on every transition.

type checkFn func(s *zt.Schema) func(c *fw.Ctx, m *zt.Msg, r *ex.Ref)

// numbering gives the fields tags of one, two and three bytes in different
// roles.
var numberings = [][4]int{
	{1, 2, 3, 4},
	{16, 1, 2048, 15},
	{5, 2047, 16, 1},
}

func writeConfigs(c *fw.Ctx, k1 ref.Kind, check checkFn, mirror bool) []*ex.Config {
	var out []*ex.Config
	add := func(name string, s *zt.Schema, nvals []int, reps []int, maxApp, slack int) {
		cf := &ex.Config{Name: name, Schema: s, Slack: slack, Check: check(s)}
		for i, f := range s.Fields {
			if f.Kind == ref.RepMsg {
				for _, x := range []string{"", "\x08\x01", "\x12\x03abc"}[:nvals[i]] {
					cf.Ops = append(cf.Ops, ex.AppendOp(s, i, x, maxApp))
				}
				continue
			}
			for _, v := range vals(f.Kind, nvals[i]) {
				cf.Ops = append(cf.Ops, ex.SetOp(s, i, v))
			}
		}
		out = append(out, cf)
	}
	for _, k2 := range singular {
		for ni, num := range numberings {
			if ni > 0 && !c.Thorough() && int(k1+k2)%2 != ni-1 {
				continue
			}
			slack := 0
			if (int(k1)+int(k2)+ni)%2 == 1 {
				slack = 600
			}
			// Four singular fields: closed under all setters.
			s := zt.NewSchema(zt.Field{Num: num[0], Kind: k1}, zt.Field{Num: num[1], Kind: k2}, zt.Field{Num: num[2], Kind: ref.Bytes}, zt.Field{Num: num[3], Kind: ref.Uint64})
			nv := []int{3, 3, 2, 2}
			if c.Thorough() {
				nv = []int{3, 3, 3, 3}
			}
			add(fmt.Sprintf("setters %s,%s,bytes,uint64 nums %v slack %d", k1, k2, num, slack), s, nv, nil, 0, slack)
			// With appends.
			s = zt.NewSchema(zt.Field{Num: num[0], Kind: k1}, zt.Field{Num: num[1], Kind: k2}, zt.Field{Num: num[2], Kind: ref.RepMsg})
			maxApp := 3
			if c.Thorough() {
				maxApp = 4
			}
			add(fmt.Sprintf("setters %s,%s + appends nums %v slack %d", k1, k2, num, slack), s, []int{3, 3, 2}, nil, maxApp, slack)
		}
	}
	// Two repeated fields and all values of the kind.
	s := zt.NewSchema(zt.Field{Num: 2, Kind: k1}, zt.Field{Num: 1, Kind: ref.RepMsg}, zt.Field{Num: 3, Kind: ref.RepMsg})
	add(fmt.Sprintf("%s + two repeated", k1), s, []int{6, 2, 2}, nil, 4, 0)
	s = zt.NewSchema(zt.Field{Num: 1, Kind: k1}, zt.Field{Num: 2, Kind: k1}, zt.Field{Num: 3, Kind: k1})
	add(fmt.Sprintf("three %s, all values", k1), s, []int{6, 6, 6}, nil, 0, 0)
	return out
}

func writeJobs(tier string, check checkFn) []fw.Job {
	var jobs []fw.Job
	for _, k := range singular {
		k := k
		jobs = append(jobs, fw.Job{Name: "writes-" + k.String(), Run: func(c *fw.Ctx) {
			for _, cf := range writeConfigs(c, k, check, false) {
				ex.Explore(c, cf)
				c.Count("configs", 1)
			}
		}})
		jobs = append(jobs, fw.Job{Name: "golden-" + k.String(), Run: func(c *fw.Ctx) { goldenJob(c, k, check) }})
	}
	return append(append(append(jobs, wideWriteJobs(tier, check)...), appendSizeJobs(check)...), pairWriteJobs(check)...)
}

func init() {
	register(&fw.Prop{ID: "C01", Level: "model_checking", Jobs: func(tier string) []fw.Job {
		return writeJobs(tier, func(s *zt.Schema) func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
			return func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) { ex.CheckRead(c, s, m, r) }
		})
	}})
	register(&fw.Prop{ID: "C02", Level: "model_checking", Jobs: func(tier string) []fw.Job {
		return writeJobs(tier, func(s *zt.Schema) func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
			var scratch []ref.Occ
			return func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) { ex.CheckWire(c, s, m, r, &scratch) }
		})
	}})
	register(&fw.Prop{ID: "C03", Level: "model_checking", Jobs: func(tier string) []fw.Job {
		return writeJobs(tier, func(s *zt.Schema) func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) {
			return func(c *fw.Ctx, m *zt.Msg, r *ex.Ref) { ex.CheckMinimal(c, s, m, r) }
		})
	}})
}
