package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/search"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

// C19: which types a run processes.

// item is a piece of a source file; # is replaced by a suffix that makes its names unique.
type item struct {
	name string
	src  string
	want []string
	core bool // in the sequences of three
}

func items() []item {
	st := " struct {\n\tRel []*T `rel:\"t\"`\n}\n"
	ty := func(n string) string { return "type " + n + "#" + st }
	sp := func(n string) string { return "\t" + n + "#" + strings.ReplaceAll(st, "\n", "\n\t") + "\n" }
	w := func(n ...string) []string { return n }
	return []item{
		{"plain", ty("SelectA"), w("SelectA"), true},
		{"doc", "// SelectA is described.\n" + ty("SelectA"), w("SelectA"), false},
		{"ignore", "//gosql:ignore\n" + ty("InsertA"), nil, true},
		{"ignore spaced", "// gosql:ignore\n" + ty("UpdateA"), nil, false},
		{"ignore block", "/* gosql:ignore */\n" + ty("DeleteA"), nil, false},
		{"ignore block lines", "/*\n  Text.\n\n  gosql:ignore\n*/\n" + ty("DeleteA"), nil, false},
		{"ignore last line", "// Described\n// in lines.\n//\n//gosql:ignore\n" + ty("FilterA"), nil, true},
		{"ignore first line", "//gosql:ignore\n// Described\n" + ty("selectA"), nil, false},
		{"ignore middle line", "// Described\n//gosql:ignore\n// more\n" + ty("selectA"), nil, false},
		{"detached ignore", "//gosql:ignore\n\n" + ty("InsertA"), w("InsertA"), true},
		{"ignore after", ty("UpdateA") + "//gosql:ignore\n\n", w("UpdateA"), true},
		{"ignore in the body", "type DeleteA# struct {\n\t//gosql:ignore\n\tRel *T `rel:\"t\"`\n}\n", w("DeleteA"), true},
		{"ignore trailing", "type FilterA# struct {\n\tRel *T `rel:\"t\"` //gosql:ignore\n}\n", w("FilterA"), false},
		{"ignore on the closing line", "type FilterA# struct {\n\tRel *T `rel:\"t\"`\n} //gosql:ignore\n", w("FilterA"), false},
		{"other directive", "//gosql:other\n//go:generate echo\n" + ty("SelectA"), w("SelectA"), false},
		{"similar text", "// gosql ignore, ignore gosql, gosql: ignore, sql:ignore\n" + ty("SelectA"), w("SelectA"), false},
		{"group", "type (\n" + sp("SelectA") + sp("insertB") + ")\n", w("SelectA", "insertB"), true},
		{"group of one", "type (\n" + sp("SELECTA") + ")\n", w("SELECTA"), false},
		{"empty group", "type ()\n", nil, false},
		{"group ignored", "//gosql:ignore\ntype (\n" + sp("SelectA") + sp("InsertB") + ")\n", nil, true},
		{"group, first ignored", "type (\n\t//gosql:ignore\n" + sp("SelectA") + sp("InsertB") + sp("FilterC") + ")\n", w("InsertB", "FilterC"), true},
		{"group, middle ignored", "type (\n" + sp("SelectA") + "\t// gosql:ignore\n" + sp("InsertB") + sp("FilterC") + ")\n", w("SelectA", "FilterC"), false},
		{"group, last ignored", "type (\n" + sp("SelectA") + sp("InsertB") + "\t/* gosql:ignore */\n" + sp("FilterC") + ")\n", w("SelectA", "InsertB"), true},
		{"group with a detached ignore", "type (\n\t//gosql:ignore\n\n" + sp("SelectA") + ")\n", w("SelectA"), false},
		{"group with others", "type (\n" + sp("Other") + sp("SelectA") + "\tOtherInt# int\n" + sp("InsertB") + ")\n", w("SelectA", "InsertB"), false},
		{"two groups", "type (\n" + sp("SelectA") + ")\n\n//gosql:ignore\ntype (\n" + sp("SelectB") + ")\n\ntype (\n" + sp("SelectC") + ")\n", w("SelectA", "SelectC"), false},
		{"other struct", ty("Other") + ty("XSelect") + ty("Selec") + ty("Ins") + ty("_Select"), nil, true},
		{"not structs", "type SelectKind# int\n\ntype InsertFunc# func()\n\ntype FilterIface# interface{ M() }\n\ntype UpdateMap# map[string]T\n\ntype DeleteSlice# []T\n\ntype SelectPtr# *T\n\ntype FilterName# string\n", nil, true},
		{"alias", ty("Other") + "type SelectAlias# = Other#\n", nil, false},
		{"alias of a target", ty("SelectA") + "type SelectAlias# = SelectA#\n\ntype InsertAlias# = *SelectA#\n", w("SelectA"), true},
		{"alias of a struct literal", "type SelectAlias# = struct{ Rel *T `rel:\"t\"` }\n", nil, false},
		{"defined from a struct", ty("Other") + "type SelectA# Other#\n", w("SelectA"), false},
		{"in a function", "func f#() {\n\ttype SelectLocal" + st + "\t_ = SelectLocal{}\n}\n", nil, true},
		{"in a literal", "var v# = func() int {\n\ttype InsertLocal" + st + "\treturn 1\n}\n", nil, false},
		{"not types", "const SelectConst# = 1\n\nvar InsertVar# = struct{ Rel *T }{}\n\nfunc UpdateFunc#() {}\n\nfunc (x *T) DeleteMethod#() {}\n\nvar (\n\tFilterV# T\n)\n", nil, true},
		{"directive in code", "var s# = \"//gosql:ignore\"\n\n" + ty("SelectA"), w("SelectA"), false},
		{"directive of the previous", "//gosql:ignore\nvar s# int\n\n" + ty("SelectA"), w("SelectA"), false},
		{"empty struct", "type SelectEmpty# struct{}\n", w("SelectEmpty"), false},
	}
}

func caseForms(word string) (out []string) {
	n := len(word)
	for m := 0; m < 1<<n; m++ {
		b := []byte(strings.ToLower(word))
		for i := range b {
			if m>>i&1 == 1 {
				b[i] -= 'a' - 'A'
			}
		}
		out = append(out, string(b))
	}
	return out
}

const typeT = "type T struct {\n\tID int `sql:\"id\"`\n\tNum int `sql:\"num\"`\n}\n"

func (d *driver) c19() {
	r := d.r
	r.Level = "model_checking"
	root := filepath.Join(vf.Work(), "c19")
	t := d.base()
	want := map[string][]string{} // by file
	its := items()
	nf := 0
	addFile := func(path, pkg string, seq []item) {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", pkg)
		var ws []string
		for k, it := range seq {
			suf := fmt.Sprintf("%d_%d", nf, k)
			b.WriteString(strings.ReplaceAll(it.src, "#", suf) + "\n")
			for _, w := range it.want {
				ws = append(ws, w+suf)
			}
		}
		nf++
		t[path] = b.String()
		if len(ws) > 0 {
			want[path] = ws
		}
	}
	// every sequence of up to two items, and of three of the core ones
	t["seq/t.go"] = "package seq\n\n" + typeT
	var names = map[string]string{}
	add := func(seq ...item) {
		p := fmt.Sprintf("seq/f%05d.go", nf)
		addFile(p, "seq", seq)
		var n []string
		for _, it := range seq {
			n = append(n, it.name)
		}
		names[p] = strings.Join(n, " / ")
	}
	add()
	for _, a := range its {
		add(a)
		for _, b := range its {
			add(a, b)
			for _, c := range its {
				if r.Thorough() || a.core && b.core && c.core {
					if r.Thorough() && !(a.core && c.core) {
						continue
					}
					add(a, b, c)
				}
			}
		}
	}
	// every letter case of every prefix
	t["names/t.go"] = "package names\n\n" + typeT
	for wi, w := range []string{"Select", "Insert", "Update", "Delete", "Filter"} {
		for fi, f := range caseForms(w) {
			p := fmt.Sprintf("names/n%d_%02d.go", wi, fi)
			t[p] = "package names\n\n"
			for _, suf := range []string{"", "X", "_", "9", "s", "é"} {
				if f+suf == "select" {
					continue // a keyword
				}
				t[p] += "type " + f + suf + " struct{}\n\n"
				want[p] = append(want[p], f+suf)
			}
			names[p] = f
		}
		for k := 0; k < len(w); k++ {
			// a letter missing, changed or in front
			p := fmt.Sprintf("names/x%d_%d.go", wi, k)
			t[p] = fmt.Sprintf("package names\n\ntype %s%s struct{}\n\ntype %sx%s struct{}\n\ntype %s_%s struct{}\n", w[:k], w[k+1:], w[:k], w[k+1:], w[:k], w[k:])
			names[p] = fmt.Sprintf("%s with letter %d wrong", w, k)
		}
		p := fmt.Sprintf("names/y%d.go", wi)
		t[p] = fmt.Sprintf("package names\n\ntype X%s struct{}\n\ntype _%s struct{}\n\ntype Re%s struct{}\n", w, w, strings.ToLower(w))
	}
	root2 := filepath.Join(root, "forms")
	d.must(t.write(root2))
	d.must(os.Chdir(root2))
	pkgs, err := search.Search(root2, true, nil)
	if err != nil {
		r.Violation("form/search", "search of a directory of well-formed files: %v", err)
		return
	}
	got := map[string][]string{}
	for _, p := range pkgs {
		for _, f := range p.Files {
			rel, _ := filepath.Rel(root2, f.Path)
			if _, dup := got[rel]; dup {
				r.Violation("form/"+names[rel]+"/twice", "file %s is returned twice", rel)
			}
			for _, m := range f.Matches {
				got[rel] = append(got[rel], m.Named.Obj().Name())
				pos := p.Fset.Position(m.Pos)
				if pos.Filename != f.Path || m.Named.Obj().Pkg().Path() != p.Path || f.Package != p || p.Path != "example.com/m/"+filepath.Dir(rel) || p.Name != filepath.Dir(rel) {
					r.Violation("form/"+names[rel]+"/package", "type %s of %s is returned with position %s, package %s %s", m.Named.Obj().Name(), rel, pos, p.Name, p.Path)
				}
			}
		}
	}
	for p := range t {
		if !strings.HasSuffix(p, ".go") {
			continue
		}
		r.Outcome(fmt.Sprint(len(want[p]), len(t[p])%7))
		if fmt.Sprint(got[p]) != fmt.Sprint(want[p]) {
			r.Violation("form/"+names[p], "types processed: %v, want %v\n%s", got[p], want[p], t[p])
		}
	}
	r.Add("source_files", len(t))
	r.Sample(map[string]any{"file": t["seq/f00300.go"], "want": want["seq/f00300.go"]})
	d.c19filters(root)
	d.c19runs(root)
	r.Coverage["states"] = nf
	r.Coverage["transitions"] = len(t)
	r.Coverage["scope"] = "every file of up to two items (and three of the core ones) of the item alphabet, every letter case of every prefix with six continuations and every one-letter change; every selection of up to two listed files and two patterns for every file of the tree; runs of the built command for every working directory, recursion setting and selection"
	r.Assumption("directories the go tool itself leaves out (testdata, vendor, names starting with _ or .), files excluded by build constraints, _test.go files and generic types are left open")
}

// selTree is the tree for selections: path to package name and targets.
var selFiles = []struct {
	path, pkg string
	targets   []string
	ignored   bool
}{
	{"a.go", "top", []string{"SelectA", "InsertA"}, false},
	{"b.go", "top", []string{"UpdateB"}, false},
	{"ab.go", "top", []string{"insertAB", "SELECTAB"}, false},
	{"types.go", "top", nil, false},
	{"sub/a.go", "subpkg", []string{"SelectA"}, false},
	{"sub/b.go", "subpkg", []string{"DeleteB"}, true},
	{"sub/deep/a.go", "main", []string{"SelectDeep", "SelectA", "InsertDeep"}, false},
	{"other/b.go", "top", []string{"SelectA"}, false},
	{"none/x.go", "none", nil, false},
}

func selSrc(pkg string, targets []string, ignored bool, n int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\ntype rec%d struct {\n\tID int `sql:\"id\"`\n\tNum int `sql:\"num\"`\n}\n\n", pkg, n)
	for _, t := range targets {
		switch strings.ToLower(t)[:6] {
		case "delete":
			fmt.Fprintf(&b, "type %s struct {\n\tRel *rec%d `rel:\"t\"`\n\tWhere struct {\n\t\tID int `sql:\"id\"`\n\t}\n}\n\n", t, n)
		default:
			fmt.Fprintf(&b, "type %s struct {\n\tRel *rec%d `rel:\"t\"`\n}\n\n", t, n)
		}
	}
	if ignored {
		fmt.Fprintf(&b, "//gosql:ignore\ntype SelectIgnored struct {\n\tRel *rec%d `rel:\"nosuchtable\"`\n}\n\n", n)
	}
	if pkg == "main" {
		b.WriteString("func main() {}\n")
	}
	return b.String()
}

// c19filters checks the file selection as a function of paths.
func (d *driver) c19filters(root string) {
	r := d.r
	dir := filepath.Join(root, "sel")
	d.must(os.MkdirAll(dir, 0o755))
	d.must(os.Chdir(dir))
	files := []string{"", "a.go", "./b.go", "sub/a.go", "sub/../ab.go", filepath.Join(dir, "sub/b.go"), "missing.go", "sub", "A.GO", "a", ".go"}
	rxs := []string{"", `a\.go$`, `/b\.go$`, `/sub/`, `^a\.go$`, `(?i)A\.GO$`, `sub/deep`, `.*`, `b\.g`, `[^b]\.go$`, `other|deep`}
	n := 0
	for _, f1 := range files {
		for _, f2 := range files {
			for _, x1 := range rxs {
				for _, x2 := range rxs {
					c := config.DefaultConfig
					c.DatabaseDSN.Value = d.dsn
					var cs []*regexp.Regexp
					for _, f := range []string{f1, f2} {
						if f != "" {
							c.InputFiles.Value = append(c.InputFiles.Value, f)
						}
					}
					for _, x := range []string{x1, x2} {
						if x != "" {
							c.InputFileRegexps.Value = append(c.InputFileRegexps.Value, x)
							cs = append(cs, regexp.MustCompile(x))
						}
					}
					key := fmt.Sprintf("select/%s,%s/%s,%s", strings.ReplaceAll(f1, dir, ""), strings.ReplaceAll(f2, dir, ""), x1, x2)
					if err := c.Validate(); err != nil {
						r.Violation(key, "well-formed selection reported: %v", err)
						continue
					}
					sel := c.FileFilterFunc()
					all := f1 == "" && f2 == "" && len(cs) == 0
					for _, f := range selFiles {
						p := filepath.Join(dir, f.path)
						want := all
						for _, x := range []string{f1, f2} {
							if x != "" && (filepath.IsAbs(x) && filepath.Clean(x) == p || filepath.Join(dir, x) == p) {
								want = true
							}
						}
						for _, x := range cs {
							want = want || x.MatchString(p)
						}
						n++
						if g := sel == nil || sel(p); g != want {
							r.Violation(key+"/"+f.path, "file %s with files %q and patterns %q: selected %v, want %v", f.path, c.InputFiles.Value, c.InputFileRegexps.Value, g, want)
						}
					}
				}
			}
		}
		if r.Expired("selections") {
			return
		}
	}
	r.Add("selections", n)
}

// c19runs runs the built command.
func (d *driver) c19runs(root string) {
	r := d.r
	dir := filepath.Join(root, "runs")
	t := d.base()
	for i, f := range selFiles {
		t[f.path] = selSrc(f.pkg, f.targets, f.ignored, i)
	}
	t["README"] = "type SelectDoc struct{}\n"
	type job struct {
		wd      string
		rec     bool
		how     int // of the working directory
		fs, rxs []string
	}
	var sels [][2][]string
	list := []string{"a.go", "b.go", "./ab.go", "sub/a.go", "sub/deep/a.go", "@/sub/b.go", "types.go", "../other/b.go"}
	rxs := []string{`a\.go$`, `/b\.go$`, `/sub/`, `deep`, `other`, `nothing`}
	sels = append(sels, [2][]string{})
	for i, f := range list {
		sels = append(sels, [2][]string{{f}, nil})
		for _, f2 := range list[i+1:] {
			sels = append(sels, [2][]string{{f, f2}, nil})
		}
		for _, x := range rxs {
			sels = append(sels, [2][]string{{f}, {x}})
		}
	}
	for i, x := range rxs {
		sels = append(sels, [2][]string{nil, {x}})
		for _, x2 := range rxs[i+1:] {
			sels = append(sels, [2][]string{nil, {x, x2}})
		}
	}
	var jobs []job
	for _, wd := range []string{".", "sub", "sub/deep", "other", "none"} {
		for _, rec := range []bool{false, true} {
			for how := 0; how < 5; how++ {
				for i, s := range sels {
					if how > 2 && wd != "." {
						continue // the go tool finds no module there
					}
					if how > 0 && i > how/3 && !r.Thorough() {
						continue
					}
					if wd != "." && len(s[0])+len(s[1]) > 1 && !r.Thorough() {
						continue
					}
					jobs = append(jobs, job{wd, rec, how, s[0], s[1]})
				}
			}
		}
	}
	vf.Par(nworkers, len(jobs), func(w, i int) {
		if r.Expired("runs") {
			return
		}
		j := jobs[i]
		top := filepath.Join(dir, fmt.Sprintf("w%d", w))
		d.must(t.write(top))
		wd := filepath.Join(top, j.wd)
		args := []string{"-db", d.dsn}
		cwd := wd
		switch j.how {
		case 1:
			cwd = top
			args = append(args, "-wd", wd)
		case 2:
			cwd = filepath.Join(top, "sub")
			rel, _ := filepath.Rel(cwd, wd)
			args = append(args, "-wd", rel)
		case 3, 4: // through a symbolic link
			cwd = filepath.Join(dir, fmt.Sprintf("link%d", w))
			os.Remove(cwd)
			d.must(os.Symlink(wd, cwd))
			if j.how == 4 {
				args = append(args, "-wd", cwd)
				cwd = top
			}
		}
		if j.rec {
			args = append(args, "-r")
		}
		abs := map[string]bool{}
		for _, f := range j.fs {
			f = strings.Replace(f, "@", top, 1)
			args = append(args, "-f", f)
			if !filepath.IsAbs(f) {
				f = filepath.Join(wd, f)
			}
			abs[f] = true
		}
		var cs []*regexp.Regexp
		for _, x := range j.rxs {
			args = append(args, "-rx", x)
			cs = append(cs, regexp.MustCompile(x))
		}
		key := fmt.Sprintf("run/wd %s/%d/r %v/f %v/rx %v", j.wd, j.how, j.rec, j.fs, j.rxs)
		ok, out := d.exec(cwd, nil, args...)
		if !ok {
			r.Violation(key, "the run fails: %s\n%q in %s", out, args, cwd)
			return
		}
		after, err := readTree(top)
		d.must(err)
		want := map[string][]string{}
		for _, f := range selFiles {
			p := filepath.Join(top, f.path)
			in := filepath.Dir(p) == wd || j.rec && strings.HasPrefix(p, wd+"/")
			sel := len(abs) == 0 && len(cs) == 0 || abs[p]
			for _, x := range cs {
				sel = sel || x.MatchString(p)
			}
			if in && sel && len(f.targets) > 0 {
				o := strings.TrimSuffix(f.path, ".go") + "_gosql.go"
				want[o] = f.targets
				got, bad := receivers(after[o], f.pkg)
				if after[o] == "" {
					r.Violation(key+"/"+f.path, "the selected file %s is not processed\n%q", f.path, args)
				} else if bad != "" || fmt.Sprint(got) != fmt.Sprint(f.targets) {
					r.Violation(key+"/"+f.path, "the output of %s has methods of %v, want %v; %s\n%q", f.path, got, f.targets, bad, args)
				}
			}
		}
		var extra []string
		for _, x := range diff(t, after) {
			if p := strings.TrimSuffix(x, " created"); want[p] == nil {
				extra = append(extra, x)
			}
		}
		r.Outcome(fmt.Sprint(len(want), " files"))
		if len(extra) > 0 {
			sort.Strings(extra)
			r.Violation(key, "files that are not outputs of the selection: %v\n%q", extra, args)
		}
	})
	r.Add("runs", len(jobs))
	r.Add("conformance_replays", len(jobs))
}
