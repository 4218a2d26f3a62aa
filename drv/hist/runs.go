package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/command"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

// runStep is one run of the tool on a module with the given files.
type runStep struct {
	Name  string
	Files map[string]string
	Input []string // the files given to the tool (none: all)
	Cfg   int
}

type runResult struct {
	Err string
	Out map[string]string
}

// runTool does the runs of a history in this process.
func (c *child) runTool(j *job, bad func(string, ...any)) (out []runResult) {
	for _, s := range j.Runs {
		if err := os.RemoveAll(j.Dir); err != nil {
			bad("HARNESS %v", err)
		}
		for n, t := range s.Files {
			f := filepath.Join(j.Dir, n)
			os.MkdirAll(filepath.Dir(f), 0o755)
			if err := os.WriteFile(f, []byte(t), 0o644); err != nil {
				bad("HARNESS %v", err)
			}
		}
		cfg := config.DefaultConfig
		cfgs[s.Cfg].set(&cfg, "vfh/")
		cfg.DatabaseDSN.Value = c.DSN
		cfg.WorkingDirectory.Value = j.Dir
		cfg.Recursive.Value = true
		for _, f := range s.Input {
			if err := cfg.InputFiles.Set(filepath.Join(j.Dir, f)); err != nil {
				bad("HARNESS %v", err)
			}
		}
		var res runResult
		res.Out = map[string]string{}
		cmd, err := command.New(cfg)
		if err == nil {
			err = cmd.Run()
		}
		if err != nil {
			res.Err = strings.ReplaceAll(err.Error(), j.Dir, "")
		}
		filepath.Walk(j.Dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				rel, _ := filepath.Rel(j.Dir, p)
				if b, err := os.ReadFile(p); err == nil && s.Files[rel] != string(b) {
					res.Out[rel] = string(b)
				}
			}
			return nil
		})
		out = append(out, res)
	}
	os.Chdir("/")
	return out
}

func (d *driver) runs() {
	r := d.r
	repo := os.Getenv("VERIF_REPO")
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		r.Fatal("%v", err)
	}
	gosum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		r.Fatal("%v", err)
	}
	_, reqs, _ := strings.Cut(string(gomod), "\n")
	mod := map[string]string{"go.mod": "module vfh\n" + reqs + "\nrequire github.com/frk/gosql v0.0.0\nreplace github.com/frk/gosql => " + repo + "\n", "go.sum": string(gosum)}
	// the module: the packages of the other histories, a file for every few declarations
	build := func(perFile int, reverse bool, edit func(string) string) map[string]string {
		files := map[string]string{}
		for k, v := range mod {
			files[k] = v
		}
		for _, p := range []string{"m", "x/m", "qa", "qb"} {
			for n, s := range sources[p] {
				if p == "qa" {
					s = strings.Replace(s, ")\n", ")\n"+moreQA, 1)
				}
				files[p+"/"+n] = edit(s)
			}
		}
		for _, p := range []string{"m", "qa", "qb"} {
			var ds []decl
			for _, dc := range decls[:matrixFrom] {
				if dc.pkg == p && d.st.Base[d.byName[p+"."+dc.name].String()].Err == "" {
					ds = append(ds, dc)
				}
			}
			if reverse {
				for a, b := 0, len(ds)-1; a < b; a, b = a+1, b-1 {
					ds[a], ds[b] = ds[b], ds[a]
				}
			}
			for i := 0; i < len(ds); i += perFile {
				var b strings.Builder
				uses := ""
				for _, x := range strings.Split(pkgImports[p], "\n") {
					if i := strings.IndexByte(x, '"'); i >= 0 {
						switch {
						case strings.Contains(x, "x/m"):
							uses += "var _ xm.Text\n"
						case strings.Contains(x, "qa"):
							uses += "var _ qa.Sub\n"
						default:
							uses += "var _ m.Arg\n"
						}
					}
				}
				fmt.Fprintf(&b, "package %s\n\n"+declImports+uses, p, pkgImports[p])
				for _, dc := range ds[i:min(len(ds), i+perFile)] {
					fmt.Fprintf(&b, "type %s struct {\n%s\n}\n\n", dc.name, dc.body)
				}
				files[fmt.Sprintf("%s/f%02d.go", p, i/perFile)] = b.String()
			}
		}
		return files
	}
	same := func(s string) string { return s }
	sub := func(pairs ...string) func(string) string { return strings.NewReplacer(pairs...).Replace }
	q := "`"
	states := []runStep{
		{Name: "plain", Files: build(8, false, same)},
		{Name: "reversed", Files: build(8, true, same)},
		{Name: "fields", Files: build(8, false, sub("Email   string    "+q+"sql:\"email\" json:\"mail\"", "Mail []byte "+q+"sql:\"email\" json:\"mm\"", "Age   int    "+q+"sql:\"age,nullempty\"", "Years int64 "+q+"sql:\"age\""))},
		{Name: "badtag", Files: build(8, false, sub("sql:\"age,nullempty\"", "sql:\"a-ge\""))},
		{Name: "badcol", Files: build(8, false, sub("sql:\"age,nullempty\"", "sql:\"nocol\""))},
		{Name: "hook", Files: build(8, false, sub("func (*User) AfterScan() {}", "", "func (*Post) AfterScan() {}", ""))},
		{Name: "plain", Files: build(8, false, same), Cfg: 1},
		{Name: "plain", Files: build(8, false, same), Cfg: 5},
		{Name: "plain", Files: build(8, false, same), Cfg: 7},
	}
	if !r.Thorough() {
		states = append(states[:5:5], states[6], states[8])
	}
	run := func(w int, steps ...runStep) []runResult {
		j := &job{Runs: steps, Dir: filepath.Join(vf.Work(), fmt.Sprintf("run%d", w)), Give: true}
		rep := d.process([]*job{j})[0]
		if rep.Bad != "" {
			r.Fatal("runs: %s", rep.Bad)
		}
		return rep.Runs
	}
	show := func(x runResult) string { b, _ := json.Marshal(x); return string(b) }
	alone := make([]runResult, len(states))
	vf.Par(nworkers, len(states), func(w, i int) { alone[i] = run(w, states[i])[0] })
	for i, s := range states {
		if bad := strings.HasPrefix(s.Name, "bad"); bad != (alone[i].Err != "") || !bad && len(alone[i].Out) < 5 {
			r.Violation("runs/"+s.Name, "a run over declarations that are each %s alone: error %q, %d files", map[bool]string{false: "accepted", true: "accepted, but for one,"}[bad], alone[i].Err, len(alone[i].Out))
			return
		}
	}
	compare := func(key string, want, got runResult) {
		if a, b := show(want), show(got); a != b {
			msg := fmt.Sprintf("error %q, alone %q", got.Err, want.Err)
			var fs []string
			for f := range want.Out {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				if want.Out[f] != got.Out[f] {
					msg += "\n" + f + ": " + firstDiff(want.Out[f], got.Out[f])
				}
			}
			for f := range got.Out {
				if _, ok := want.Out[f]; !ok {
					msg += "\n" + f + " is additional"
				}
			}
			r.Violation(key, "%s\n%s", key, msg)
		}
	}
	var hist [][]int
	for a := range states {
		for b := range states {
			hist = append(hist, []int{a, b})
			if r.Thorough() {
				for c := range states {
					hist = append(hist, []int{a, b, c})
				}
			}
		}
	}
	vf.Par(nworkers, len(hist), func(w, i int) {
		if r.Expired("runs") {
			return
		}
		var steps []runStep
		key := "runs/"
		for _, k := range hist[i] {
			steps = append(steps, states[k])
			key += states[k].Name + "-" + cfgs[states[k].Cfg].name + ","
		}
		for k, res := range run(w, steps...) {
			compare(fmt.Sprintf("%s:%d", key, k), alone[hist[i][k]], res)
		}
		r.Add("tool_runs", len(steps))
	})
	// every subset of the files of one package, and the same declarations split in smaller files
	var files []string
	for f := range alone[0].Out {
		if strings.HasPrefix(f, "qa/") {
			files = append(files, strings.Replace(f, "_gosql.go", ".go", 1))
		}
	}
	files = append(files, "qb/f00.go", "m/f00.go")
	sort.Strings(files)
	n := len(files)
	if n > r.Pick(5, 8) {
		n = r.Pick(5, 8)
		files = append(files[:n-3], "qa/f04.go", "qb/f00.go", "m/f00.go")
	}
	vf.Par(nworkers, 1<<n-1, func(w, i int) {
		if r.Expired("runs") {
			return
		}
		s := states[0]
		want := runResult{Out: map[string]string{}}
		for k, f := range files[:n] {
			if (i+1)>>k&1 == 1 {
				s.Input = append(s.Input, f)
				o := strings.Replace(f, ".go", "_gosql.go", 1)
				want.Out[o] = alone[0].Out[o]
			}
		}
		compare("runs/subset/"+strings.Join(s.Input, ","), want, run(w, s)[0])
		r.Add("tool_runs", 1)
	})
}
