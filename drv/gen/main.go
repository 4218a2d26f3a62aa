// Driver for what the tool generates: C10-C13, C15, C16 and C20.
//
// Declarations are composed from their features up to stated bounds, given to the real search,
// analysis, type check and generator, compiled, and executed for every combination of their
// argument values against PostgreSQL (or a fake database that injects every fault).  An
// independent reference statement, written from the declaration's meaning, decides the outcome.
package main

import (
	"os"
	"regexp"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/vfdrv/vf"
)

func main() {
	r := vf.Start()
	r.Level = "model_checking"
	switch r.Prop {
	case "C10":
		c10(r)
	case "C11":
		r.Assumption("SQL semantics are those of PostgreSQL 16, which executes the reference statements as well")
		execute(r, c11Cases(r), "")
	case "C12":
		r.Assumption("SQL semantics are those of PostgreSQL 16, which executes the reference statements as well")
		execute(r, c12Cases(r), "")
	case "C13":
		r.Level = "fault_enumeration"
		execute(r, c13Cases(r), "")
	case "C15":
		verdicts(r, c15Cases(r), bt(c15Types+vfTypes))
		legal := append(append(c11Cases(r), c12Cases(r)...), c13Cases(r)...)
		verdicts(r, legal, typesSrc(""))
	case "C16":
		c16(r)
	case "C20":
		c20(r)
	default:
		r.Fatal("no such property here: %s", r.Prop)
	}
	r.Finish()
}

const nworkers = 8

// execute takes the cases through the tool, the compiler and their jobs.
func execute(r *vf.Run, cases []*Case, extra string) *Pipe {
	dsn, dsns := setupDB(r, nworkers)
	p := newPipe(r, dsn, typesSrc(extra))
	for _, c := range filtered(r, cases) {
		p.Add(c)
	}
	r.Add("declarations", len(p.cases))
	runPipe(r, p, dsns)
	return p
}

// runPipe takes the pipe's cases through check, build and execution.
func runPipe(r *vf.Run, p *Pipe, dsns []string) {
	p.Check()
	p.Build()
	var jobs []*Job
	byName := map[string]*Case{}
	errs := map[string]int{}
	for _, c := range p.cases {
		byName[c.Name] = c
		switch {
		case c.Panic != "":
			r.Violation(c.Key, "the tool panics: %s\n%s", c.Panic, c.decl())
		case c.Want == "accept" && c.Err != nil:
			r.Violation(c.Key, "legal, but rejected: %s\n%s", clip(plain(c.ErrText), 500), c.decl())
		case c.Want == "reject" && c.Err == nil:
			r.Violation(c.Key, "illegal, but accepted:\n%s\n%s", c.decl(), p.methodText(c))
		case c.Err != nil:
			r.Add("rejected", 1)
			errs[c.Err.Error()]++
			if os.Getenv("VF_REJECTED") != "" {
				println("REJECTED " + c.Key + ": " + clip(c.Err.Error(), 300))
			}
		case c.Broken != "":
			r.Add("accepted", 1)
			r.Violation(c.Key, "the generated code is not usable: %s\n%s", clip(c.Broken, 600), c.decl())
		default:
			r.Add("accepted", 1)
			if c.Job != nil {
				c.Job.Name = c.Name
				jobs = append(jobs, c.Job)
			}
		}
	}
	// the long ones first
	sort.SliceStable(jobs, func(i, k int) bool { return size(jobs[i]) > size(jobs[k]) })
	for _, res := range p.Run(dsns, jobs, r.Left()) {
		c := byName[res.Name]
		r.Add("executions", res.Runs)
		if res.Scen > 0 {
			r.Add("fault_schedules", res.Scen)
		}
		if res.Runs < res.Total && res.NBad == 0 && (c.Job.MaxRuns == 0 || res.Runs < c.Job.MaxRuns) {
			r.Cap("deadline reached in executions")
		}
		for _, o := range res.Outcomes {
			r.Outcome(c.Job.Mode + o)
		}
		if res.Sample != "" {
			r.Sample(map[string]string{"declaration": clip(c.decl(), 400), "execution": clip(res.Sample, 300)})
		}
		if res.NBad > 0 {
			r.Violation(c.Key, "%d of %d executions are wrong; %s\n%s\n%s", res.NBad, res.Runs, res.Bad[0], c.decl(), p.methodText(c))
		}
	}
}

// verdicts compares the tool's verdict on each case with the expected one.
func verdicts(r *vf.Run, cases []*Case, types string) {
	if setDSN == "" {
		setDSN, _ = setupDB(r, 0)
	}
	p := newPipe(r, setDSN, types)
	p.perFile, p.perPkg = 200, 2000
	for _, c := range filtered(r, cases) {
		p.Add(c)
	}
	r.Add("declarations", len(p.cases))
	p.Check()
	for _, c := range p.cases {
		got := "accept"
		if c.Err != nil {
			got = "reject"
		}
		switch {
		case c.Panic != "":
			r.Violation(c.Key, "the tool panics: %s\n%s", c.Panic, c.decl())
		case c.Want == "":
			r.Add("no_verdict_claimed", 1)
		case c.Want == "accept" && got == "reject":
			r.Violation(c.Key, "legal, but rejected: %s\n%s", clip(plain(c.ErrText), 500), c.decl())
		case c.Want == "reject" && got == "accept":
			r.Violation(c.Key, "illegal, but accepted:\n%s", c.decl())
		default:
			r.Add("agreed_"+got, 1)
		}
		if c.Want != "" {
			r.Outcome(got + strings.SplitN(c.Key, "/", 2)[0])
			if len(c.Key)%7 == 3 {
				r.Sample(map[string]string{"declaration": clip(c.decl(), 300), "expected": c.Want, "verdict": got})
			}
		}
	}
}

var setDSN string

var rxEsc = regexp.MustCompile("\x1b\\[[0-9;]*m")

func plain(s string) string { return rxEsc.ReplaceAllString(s, "") }

// filtered leaves out what VF_ONLY does not name.
func filtered(r *vf.Run, cases []*Case) (out []*Case) {
	only := os.Getenv("VF_ONLY")
	seen := map[string]bool{}
	for _, c := range cases {
		if only != "" && !strings.Contains(c.Key, only) {
			continue
		}
		if seen[c.Key] {
			r.Fatal("two cases are called %s", c.Key)
		}
		seen[c.Key] = true
		out = append(out, c)
	}
	return out
}

func size(j *Job) int {
	n := 1
	for _, p := range j.Params {
		n *= len(p.Vals)
	}
	return n
}
