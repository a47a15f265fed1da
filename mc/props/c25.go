package props

import (
	"strings"

	"verifmc/fw"
)

// c25Jobs picks jobs of the other checks to run on the 32 bit build: those in
// which lengths, offsets, numbers and values decide.
func c25Jobs(tier string) []fw.Job {
	var jobs []fw.Job
	take := func(id string, keep func(name string) bool) {
		for _, p := range All {
			if p.ID != id {
				continue
			}
			for _, j := range p.Jobs(tier) {
				// The sweeps do not get near 2^31; one oracle is enough for them.
				if tier != "thorough" && (strings.HasPrefix(j.Name, "pair") || id != "C14" && (strings.Contains(j.Name, "ladder-every") || strings.HasPrefix(j.Name, "shifted-"))) {
					continue
				}
				if keep == nil || keep(j.Name) {
					j.Name = id + " " + j.Name
					jobs = append(jobs, j)
				}
			}
		}
	}
	prefix := func(l ...string) func(string) bool {
		return func(n string) bool {
			for _, p := range l {
				if strings.HasPrefix(n, p) {
					return true
				}
			}
			return false
		}
	}
	if tier == "thorough" {
		take("C05", nil)
		take("C01", nil)
		take("C08", nil)
	} else {
		take("C05", func(n string) bool { return !prefix("full", "critical")(n) })
		take("C08", prefix("size-", "golden"))
		take("C01", prefix("golden"))
	}
	for _, id := range []string{"C04", "C06", "C12", "C14", "C18", "C20", "C21"} {
		take(id, nil)
	}
	return jobs
}

func init() {
	register(&fw.Prop{ID: "C25", Level: "exploration", Jobs: c25Jobs,
		Rule:  "the input and history spaces of C04, C06, C12, C14, C18, C20, C21 and of the parts of C01, C05 and C08 that concern sizes, offsets and extreme lengths, on a build for a 32 bit platform; non-trivial as defined there",
		Notes: []string{"GOARCH=386 executed natively; the reference model computes with 64 bit integers throughout"}})
}
