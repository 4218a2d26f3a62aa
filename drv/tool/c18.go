package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/vfdrv/vf"
)

// C18: what a run writes.
//
// A state is the contents of three input files in two packages and of their outputs.  The run
// transition is taken from every state by the built command; the model says what it may change.

const recT = "type T struct {\n\tID int `sql:\"id\"`\n\tNum int `sql:\"num\"`\n}\n\n"

func decl(kind, name, rec string) string {
	switch kind {
	case "delete":
		return "type " + name + " struct {\n\tRel *" + rec + " `rel:\"t\"`\n\tWhere struct {\n\t\tID int `sql:\"id\"`\n\t}\n}\n\n"
	}
	return "type " + name + " struct {\n\tRel *" + rec + " `rel:\"t\"`\n}\n\n"
}

// bads are declarations that must be rejected.
var bads = []struct{ name, src string }{
	{"unknown relation", "type SelectBad struct {\n\tRel *T `rel:\"nosuch\"`\n}\n\n"},
	{"unknown column", "type badT struct {\n\tX int `sql:\"nosuch\"`\n}\n\ntype SelectBad struct {\n\tRel *badT `rel:\"t\"`\n}\n\n"},
	{"incompatible type", "type badT struct {\n\tX []bool `sql:\"num\"`\n}\n\ntype InsertBad struct {\n\tRel *badT `rel:\"t\"`\n}\n\n"},
	{"no relation field", "type SelectBad struct{}\n\n"},
	{"conflicting fields", "type SelectBad struct {\n\tRel []*T `rel:\"t\"`\n\tLimit int\n\tlimit int\n}\n\n"},
	{"unknown where column", "type SelectBad struct {\n\tRel *T `rel:\"t\"`\n\tWhere struct {\n\t\tX int `sql:\"nosuch\"`\n\t}\n}\n\n"},
	{"bad predicate", "type SelectBad struct {\n\tRel *T `rel:\"t\"`\n\tWhere struct {\n\t\tX int `sql:\"id nonsense\"`\n\t}\n}\n\n"},
	{"delete without where", "type DeleteBad struct {\n\tRel *T `rel:\"t\"`\n}\n\n"},
	{"filter without constructor", "type FilterBad struct {\n\t_ T `rel:\"t\"`\n}\n\n"},
	{"undefined Go type", "type SelectBad struct {\n\tRel *Undefined `rel:\"t\"`\n}\n\n"},
}

// inputs are the three files; targets by version.
var inFiles = []struct {
	path, pkg string
	versions  map[string][]string // nil value: rejected
	order     []string
}{
	{"a/x.go", "a", map[string][]string{"none": {}, "one": {"SelectX"}, "two": {"SelectX", "InsertX"}, "bad": nil}, []string{"none", "one", "two", "bad"}},
	{"a/y.go", "a", map[string][]string{"none": {}, "one": {"DeleteY", "SelectY", "UpdateY", "SelectYY"}, "bad": nil}, []string{"none", "one", "bad"}},
	{"b/z.go", "bpkg", map[string][]string{"none": {}, "one": {"SelectZ", "DeleteZ"}, "bad": nil}, []string{"one", "none", "bad"}},
}

func inSrc(pkg string, targets []string, bad string, at int) string {
	s := "package " + pkg + "\n\n"
	for i, t := range targets {
		if bad != "" && i == at {
			s += bad
		}
		s += decl(strings.ToLower(t)[:6], t, "T")
	}
	if bad != "" && at >= len(targets) {
		s += bad
	}
	return s
}

func outPath(in string) string { return strings.TrimSuffix(in, ".go") + "_gosql.go" }

// checkRun judges one run: before and after, the expected outcome and the expected targets by output.
func (d *driver) checkRun(key string, before, after tree, ok bool, out string, legal bool, want map[string][]string, pkgs map[string]string) bool {
	r := d.r
	good := true
	fail := func(sub, f string, a ...any) {
		good = false
		r.Violation(key+sub, f+"\nThe run said: %s", append(a, out)...)
	}
	if !legal {
		if ok {
			fail("", "the run succeeds although a declaration is illegal")
		}
		if ds := diff(before, after); len(ds) > 0 {
			fail("/changes", "the run rejects a declaration but: %v", ds)
		}
		return good
	}
	if !ok {
		fail("", "the run fails")
		return false
	}
	for p, ts := range want {
		src, have := after[p]
		if !have {
			fail("/"+p, "no output at %s", p)
			continue
		}
		got, bad := receivers(src, pkgs[p])
		if bad != "" || fmt.Sprint(got) != fmt.Sprint(ts) {
			fail("/"+p, "the output %s has methods of %v, want %v; %s", p, got, ts, bad)
		}
	}
	for _, x := range diff(before, after) {
		p := strings.SplitN(x, " ", 2)[0]
		if want[p] == nil {
			fail("/"+p, "the run: %s", x)
		}
	}
	return good
}

func (d *driver) c18() {
	r := d.r
	r.Level = "fault_enumeration"
	root := filepath.Join(vf.Work(), "c18")
	base := d.base()
	base["a/types.go"] = "package a\n\n" + recT
	base["b/types.go"] = "package bpkg\n\n" + recT
	base["c/other.go"] = "package c\n\nvar X = 1\n"
	base["a/notes.txt"] = "SelectX\n"
	base["a/x_gosql.go.bak"] = "keep\n"
	base["a/x_gosql.txt"] = "keep\n"
	base["x_gosql.go"] = "package top\n"
	d.must(os.MkdirAll(root, 0o755))
	run := func(w int, t tree, args ...string) (tree, bool, string) {
		dir := filepath.Join(root, fmt.Sprintf("w%d", w))
		d.must(t.write(dir))
		ok, out := d.exec(dir, nil, append([]string{"-db", d.dsn}, args...)...)
		after, err := readTree(dir)
		d.must(err)
		return after, ok, out
	}
	pkgs := map[string]string{}
	for _, f := range inFiles {
		pkgs[outPath(f.path)] = f.pkg
	}
	// the outputs of the versions, each from a run of its own with nothing else
	outs := map[string]string{} // path/version
	for _, f := range inFiles {
		for v, ts := range f.versions {
			if len(ts) == 0 {
				continue
			}
			t := base.clone()
			t[f.path] = inSrc(f.pkg, ts, "", 0)
			after, ok, out := run(0, t, "-r")
			key := "alone/" + f.path + "/" + v
			if !d.checkRun(key, t, after, ok, out, true, map[string][]string{outPath(f.path): ts}, pkgs) {
				continue
			}
			outs[f.path+"/"+v] = after[outPath(f.path)]
		}
	}
	if r.NViol() > 0 {
		return
	}
	runs := 0
	// 1. every state
	type st struct{ in, out [3]string }
	var states []st
	xo := []string{"absent", "one", "two", "partial", "empty"}
	yo := []string{"absent", "one", "partial"}
	zo := []string{"absent", "one"}
	for _, x := range inFiles[0].order {
		for _, y := range inFiles[1].order {
			for _, z := range inFiles[2].order {
				for _, a := range xo {
					for _, b := range yo {
						for _, c := range zo {
							if !r.Thorough() {
								if z != "one" && (a == "two" || b == "partial" || a == "empty" || a == "partial" || z == "bad" && c == "one") {
									continue
								}
								if c == "one" && (b == "one" || a == "two") {
									continue
								}
								if b == "partial" && a != "absent" && a != "one" {
									continue
								}
							}
							states = append(states, st{[3]string{x, y, z}, [3]string{a, b, c}})
						}
					}
				}
			}
		}
	}
	make1 := func(s st, bad string) (t tree, legal bool, want map[string][]string) {
		t = base.clone()
		legal = true
		want = map[string][]string{}
		for i, f := range inFiles {
			v := s.in[i]
			if v == "bad" {
				legal = false
				t[f.path] = inSrc(f.pkg, f.versions["one"], bad, 1)
			} else {
				t[f.path] = inSrc(f.pkg, f.versions[v], "", 0)
				if len(f.versions[v]) > 0 {
					want[outPath(f.path)] = f.versions[v]
				}
			}
			o := outPath(f.path)
			switch s.out[i] {
			case "absent":
			case "partial":
				src := outs[f.path+"/one"]
				t[o] = src[:len(src)*2/3]
			case "empty":
				t[o] = ""
			default:
				t[o] = outs[f.path+"/"+s.out[i]]
			}
		}
		return t, legal, want
	}
	vf.Par(nworkers, len(states), func(w, i int) {
		if r.Expired("states") {
			return
		}
		s := states[i]
		t, legal, want := make1(s, bads[i%len(bads)].src)
		after, ok, out := run(w, t, "-r")
		key := fmt.Sprintf("state/inputs %v outputs %v", s.in, s.out)
		r.Outcome(fmt.Sprint(legal, len(want), s.out))
		if !d.checkRun(key, t, after, ok, out, legal, want, pkgs) || !legal {
			return
		}
		for j, f := range inFiles {
			if v := s.in[j]; len(f.versions[v]) > 0 && after[outPath(f.path)] != outs[f.path+"/"+v] {
				r.Violation(key+"/"+f.path, "the output of %s differs from that of the same file in another state:\n%s\n--- other\n%s", f.path, after[outPath(f.path)], outs[f.path+"/"+v])
			}
		}
	})
	runs += len(states)
	r.Add("states", len(states))
	r.Sample(map[string]any{"inputs": states[len(states)/2].in, "outputs": states[len(states)/2].out})
	// 2. every rejected declaration at every place
	type pl struct{ bad, file, at, outs, rec int }
	var pls []pl
	for b := range bads {
		for f := range inFiles {
			for at := 0; at <= len(inFiles[f].versions["one"]); at++ {
				for o := 0; o < 2; o++ {
					if o == 1 && !r.Thorough() && (at != 0 || b > 3) {
						continue
					}
					for rec := 0; rec < 2; rec++ {
						pls = append(pls, pl{b, f, at, o, rec})
					}
				}
			}
		}
	}
	vf.Par(nworkers, len(pls), func(w, i int) {
		if r.Expired("placements") {
			return
		}
		p := pls[i]
		o := "absent"
		if p.outs == 1 {
			o = "one"
		}
		t, _, _ := make1(st{[3]string{"one", "one", "one"}, [3]string{o, o, o}}, "")
		f := inFiles[p.file]
		t[f.path] = inSrc(f.pkg, f.versions["one"], bads[p.bad].src, p.at)
		args := []string{"-r"}
		want := map[string][]string{}
		legal := false
		if p.rec == 0 {
			// the other package alone is unaffected
			args = []string{"-wd", "b"}
			if f.pkg != "a" {
				args = []string{"-wd", "a"}
			}
			legal = true
			for _, g := range inFiles {
				if g.pkg != f.pkg {
					want[outPath(g.path)] = g.versions["one"]
				}
			}
		}
		after, ok, out := run(w, t, args...)
		d.checkRun(fmt.Sprintf("rejected/%s in %s at %d/outputs %s/%v", bads[p.bad].name, f.path, p.at, o, args), t, after, ok, out, legal, want, pkgs)
	})
	runs += len(pls)
	r.Add("rejections", len(pls))
	d.c18formats(base, run, &runs)
	d.c18faults(base, make1v{func(i, o [3]string) tree { t, _, _ := make1(st{i, o}, ""); return t }}, outs, run, &runs)
	r.Coverage["transitions"] = runs
	r.Coverage["conformance_replays"] = runs
	r.Coverage["scope"] = "the run transition of the built command from every state of three input files (no, one, more or rejected targets) and their outputs (absent, of this or another version, cut off, empty); every kind of rejected declaration at every place; every output name format over the name forms; a failing write at every 32nd byte of every output, and outputs that cannot be opened"
	r.Assumption("a run that fails while writing may already have replaced other outputs and may remove the output it could not write")
}

type make1v struct {
	f func(i, o [3]string) tree
}

func (d *driver) c18formats(base tree, run func(int, tree, ...string) (tree, bool, string), runs *int) {
	r := d.r
	formats := []string{"%s_gosql.go", "%s_gosql", "gen_%s.go", "gen_%s", "_x.go", "_x", "x", "%s_%s", "pre%spost.go", "%s.gen.go", "%s", "%s.go", ".go", "%s_y", "zz_%s.go.go", "%s.go.txt"}
	type ft struct {
		name  string
		files map[string][]string
		plain map[string]string
	}
	ts := []ft{
		{"two", map[string][]string{"a/x.go": {"SelectX"}, "a/y.v2.go": {"InsertY", "SelectY"}}, nil},
		{"name that looks like an output", map[string][]string{"a/x.go": {"SelectX"}, "a/x_gosql.go": {"SelectXX"}}, nil},
		{"name that looks like an output, other package", map[string][]string{"a/x.go": {"SelectX"}, "b/x_gosql.go": {"SelectXX"}}, nil},
		{"double extension", map[string][]string{"a/x.go.go": {"SelectX"}, "a/x.go": {"SelectXX"}}, nil},
		{"chain", map[string][]string{"a/x.go": {"SelectX"}, "a/x_x.go": {"SelectXX"}, "a/x_x_x.go": {"SelectXXX"}}, nil},
		{"same names", map[string][]string{"a/x.go": {"SelectX"}, "b/x.go": {"SelectX", "InsertX"}}, nil},
	}
	type job struct {
		t ft
		f string
		c bool
	}
	var jobs []job
	for _, t := range ts {
		for _, f := range formats {
			jobs = append(jobs, job{t, f, false}, job{t, f, true})
		}
	}
	vf.Par(nworkers, len(jobs), func(w, i int) {
		j := jobs[i]
		t := base.clone()
		in := map[string]bool{}
		want, pkgs := map[string][]string{}, map[string]string{}
		legal := strings.Count(j.f, "%s") <= 1
		for p, tg := range j.t.files {
			pkg := map[string]string{"a": "a", "b": "bpkg"}[filepath.Dir(p)]
			t[p] = inSrc(pkg, tg, "", 0)
			in[p] = true
		}
		for p, tg := range j.t.files {
			f := j.f
			if !strings.Contains(f, "%s") {
				f = "%s" + f
			}
			o := strings.Replace(f, "%s", strings.TrimSuffix(filepath.Base(p), ".go"), 1)
			if !strings.HasSuffix(o, ".go") {
				o += ".go"
			}
			o = filepath.Join(filepath.Dir(p), o)
			if in[o] || want[o] != nil {
				legal = false // would overwrite an input or another output
			}
			want[o] = tg
			pkgs[o] = map[string]string{"a": "a", "b": "bpkg"}[filepath.Dir(p)]
		}
		args := []string{"-r", "-o", j.f}
		if j.c {
			t["conf.json"] = fmt.Sprintf(`{"output_file_name_format": %q}`, j.f)
			args = []string{"-r", "-config", "conf.json"}
		}
		after, ok, out := run(w, t, args...)
		r.Outcome(fmt.Sprint("format ", legal))
		d.checkRun(fmt.Sprintf("format/%s/%s/file %v", j.f, j.t.name, j.c), t, after, ok, out, legal, want, pkgs)
	})
	*runs += len(jobs)
	r.Add("format_runs", len(jobs))
}

// c18faults makes the writing fail.
func (d *driver) c18faults(base tree, mk make1v, outs map[string]string, run func(int, tree, ...string) (tree, bool, string), runs *int) {
	r := d.r
	one := [3]string{"one", "one", "one"}
	// judge a run that may fail: every output is absent, as before, or complete
	judge := func(key string, before, after tree, ok bool, out string) {
		for i, f := range inFiles {
			o := outPath(f.path)
			full := outs[f.path+"/one"]
			got, have := after[o]
			old, had := before[o]
			switch {
			case have && got == full:
			case have && had && got == old && !ok:
			case !have && !ok:
			default:
				r.Violation(key+"/"+f.path, "output %d, %s, is neither absent, nor as before, nor complete (run ok: %v): %q\n%s", i, o, ok, got, out)
			}
		}
		for _, x := range diff(before, after) {
			p := strings.SplitN(x, " ", 2)[0]
			isOut := false
			for _, f := range inFiles {
				isOut = isOut || outPath(f.path) == p
			}
			if !isOut {
				r.Violation(key+"/"+p, "the failing run: %s\n%s", x, out)
			}
		}
	}
	type job struct {
		name string
		t    tree
		fail bool
		env  []string
	}
	var jobs []job
	for i, f := range inFiles {
		for _, prev := range [][3]string{{"absent", "absent", "absent"}, one} {
			for _, kind := range []string{"directory", "full directory", "dangling link", "link loop", "full device"} {
				t := mk.f(one, prev)
				o := outPath(f.path)
				delete(t, o)
				switch kind {
				case "directory":
					t[o] = "\x00dir"
				case "full directory":
					t[o+"/keep"] = "x"
				case "dangling link":
					t[o] = "\x00->missing/dir/x.go"
				case "link loop":
					t[o] = "\x00->" + filepath.Base(o)
				case "full device":
					t[o] = "\x00->/dev/full"
				}
				jobs = append(jobs, job{fmt.Sprintf("fault/output %d/%s/%s", i, kind, prev), t, true, nil})
			}
		}
	}
	// file size limits, from none to all of the largest output
	self, err := os.Executable()
	d.must(err)
	shim := filepath.Join(vf.Work(), "shim")
	d.must(os.MkdirAll(shim, 0o755))
	gobin, err := exec.LookPath("go")
	d.must(err)
	d.must(os.WriteFile(filepath.Join(shim, "go"), []byte("#!/bin/sh\nulimit -S -f unlimited 2>/dev/null\n"+gobin+" \"$@\"\nrc=$?\nprlimit --pid $PPID --fsize=$VF_FSIZE: || exit 99\nexit $rc\n"), 0o755))
	sizes := []int{}
	max := 0
	for _, f := range inFiles {
		n := len(outs[f.path+"/one"])
		sizes = append(sizes, n-1, n, n+1)
		if n > max {
			max = n
		}
	}
	step := 32
	if r.Thorough() {
		step = 4
	}
	for n := 0; n < max; n += step {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 1)
	sort.Ints(sizes)
	for _, prev := range [][3]string{{"absent", "absent", "absent"}, {"two", "absent", "partial"}} {
		last := -1
		for _, n := range sizes {
			if n == last || prev[0] == "two" && !r.Thorough() && n%96 != 0 {
				continue
			}
			last = n
			jobs = append(jobs, job{fmt.Sprintf("fault/file size limit %d/%v", n, prev), mk.f(one, prev), n < max, []string{"VF_TOOL_CHILD=1", fmt.Sprintf("VF_FSIZE=%d", n), "PATH=" + shim + ":" + os.Getenv("PATH")}})
		}
	}
	failed := make([]bool, len(jobs))
	vf.Par(nworkers, len(jobs), func(w, i int) {
		if r.Expired("faults") {
			return
		}
		j := jobs[i]
		dir := filepath.Join(vf.Work(), "c18", fmt.Sprintf("w%d", w))
		d.must(j.t.write(dir))
		bin := d.bin
		if j.env != nil {
			bin = self
		}
		dd := &driver{r: r, bin: bin, dsn: d.dsn}
		ok, out := dd.exec(dir, j.env, "-db", d.dsn, "-r")
		after, err := readTree(dir)
		d.must(err)
		failed[i] = !ok
		if j.env == nil {
			// the obstacle itself is not judged
			for _, f := range inFiles {
				o := outPath(f.path)
				if c := j.t[o]; strings.HasPrefix(c, "\x00") {
					delete(j.t, o)
					if g, have := after[o]; have && g == c {
						delete(after, o)
					}
				}
			}
		}
		judge(j.name, j.t, after, ok, out)
		if !j.fail && !ok {
			r.Violation(j.name, "the run fails although nothing is in its way: %s", out)
		}
	})
	n := 0
	for _, f := range failed {
		if f {
			n++
		}
	}
	if n < len(jobs)/2 {
		r.Fatal("only %d of %d faults took effect", n, len(jobs))
	}
	*runs += len(jobs)
	r.Add("fault_points", len(jobs))
	r.Add("faults_that_failed_the_run", n)
	// code that cannot be formatted, and failures before anything is generated
	type bad struct {
		name, conf string
		dsn        string
	}
	var bs []bad
	for _, m := range []string{"1x", "a b", "a-b", "", "func", "x(", "}"} {
		bs = append(bs, bad{"method name " + m, fmt.Sprintf(`{"method_name": %q}`, m), d.dsn})
	}
	bs = append(bs, bad{"missing converter function", `{"filter_value_converters": [{"type": "time.Time", "func": "example.com/m/a.Missing"}]}`, d.dsn},
		bad{"missing converter package", `{"filter_value_converters": [{"type": "time.Time", "func": "example.com/m/missing.F"}]}`, d.dsn},
		bad{"no database", `{}`, "host=/nonexistent"}, bad{"missing argument type", `{"method_argument_type": "example.com/m/a.Missing"}`, d.dsn})
	for _, prev := range [][3]string{{"absent", "absent", "absent"}, one} {
		for _, b := range bs {
			t := mk.f(one, prev)
			t["conf.json"] = b.conf
			dir := filepath.Join(vf.Work(), "c18", "w0")
			d.must(t.write(dir))
			ok, out := d.exec(dir, nil, "-db", b.dsn, "-r", "-config", "conf.json")
			after, err := readTree(dir)
			d.must(err)
			if ok {
				// accepted: then the outputs must be well formed
				for _, f := range inFiles {
					if _, bad := receivers(after[outPath(f.path)], f.pkg); bad != "" {
						r.Violation("broken/"+b.name+"/"+f.path, "the run succeeds but the output of %s %s", f.path, bad)
					}
				}
			} else if ds := diff(t, after); len(ds) > 0 {
				r.Violation("broken/"+b.name+"/"+fmt.Sprint(prev), "the run fails before its outputs are complete, but: %v\n%s", ds, out)
			}
		}
	}
	*runs += 2 * len(bs)
}
