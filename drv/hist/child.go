package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/generator"
	"github.com/frk/gosql/internal/postgres"
)

// event is one declaration processed under one configuration.
type event struct {
	Decl, Cfg int
}

func (e event) String() string {
	d := decls[e.Decl]
	return d.pkg + "." + d.name + "/" + cfgs[e.Cfg].name
}

// base is what processing an event alone in a new process gives.
type base struct {
	Err     string   // the analysis' or check's error
	Text    string   // the file
	Decls   []string // its declarations, references to imported packages by path
	Imports []string
}

// job is a history: the steps are (phase, slot) pairs over events in a universe of their own.
type job struct {
	ID    int
	Slots []event
	Steps string // e.g. A0C0W0A1C1W1; J0: the file of all slots from the given one on
	Map   uint64 // the start of map iterations, 0: random
	Fresh bool   // with a catalog of its own
	Runs  []runStep
	Dir   string
	Give  bool   // return what was observed
}

type reply struct {
	ID    int
	Bad   string
	Given *base
	Runs  []runResult
	Steps int
	Stats map[string]int
}

type setup struct {
	Exports map[string]string
	DSN     string
	Base    map[string]base // by event
}

type child struct {
	setup
	fset  *token.FileSet
	std   types.Importer
	files map[string][]*ast.File
	nuniv int
	db    *postgres.DB
}

var rxUniv = regexp.MustCompile(`vfh\d+x/`)
var rxApp = regexp.MustCompile(`&application_name=h\d+`)

func norm(s string) string { return rxApp.ReplaceAllString(rxUniv.ReplaceAllString(s, "vfh/"), "") }

func sourceFiles() map[string]map[string]string {
	all := map[string]map[string]string{}
	for p, fs := range sources {
		all[p] = map[string]string{}
		for n, s := range fs {
			all[p][n] = s
		}
		name := p[strings.LastIndexByte(p, '/')+1:]
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n"+declImports, name, pkgImports[p])
		for _, d := range decls {
			if d.pkg == p {
				fmt.Fprintf(&b, "type %s struct {\n%s\n}\n\n", d.name, d.body)
			}
		}
		if p == "qa" {
			b.WriteString(moreQA)
		}
		all[p]["decls.go"] = b.String()
	}
	return all
}

func runChild() {
	debug.SetGCPercent(400)
	c := &child{fset: token.NewFileSet(), files: map[string][]*ast.File{}}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	fail := func(f string, a ...any) {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
		os.Exit(3)
	}
	if err := dec.Decode(&c.setup); err != nil {
		fail("setup: %v", err)
	}
	c.std = importer.ForCompiler(c.fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := c.Exports[p]
		if !ok {
			return nil, fmt.Errorf("no export data of %s", p)
		}
		return os.Open(f)
	})
	for p, fs := range sourceFiles() {
		var names []string
		for n := range fs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f, err := parser.ParseFile(c.fset, "/vfh/"+p+"/"+n, fs[n], parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fail("parse: %v", err)
			}
			c.files[p] = append(c.files[p], f)
		}
	}
	var err error
	if c.db, err = postgres.Open(c.DSN); err != nil {
		fail("open: %v", err)
	}
	for {
		var j job
		if err := dec.Decode(&j); err == io.EOF {
			break
		} else if err != nil {
			fail("job: %v", err)
		}
		rep := c.run(&j)
		if err := enc.Encode(rep); err != nil {
			fail("reply: %v", err)
		}
		if err := out.Flush(); err != nil {
			fail("reply: %v", err)
		}
	}
	os.Exit(0)
}

// universe is a new copy of the packages.
type universe struct {
	c    *child
	id   string
	pkgs map[string]*types.Package
	err  error
}

func (u *universe) Import(path string) (*types.Package, error) {
	p, ok := strings.CutPrefix(path, "vfh/")
	if !ok {
		return u.c.std.Import(path)
	}
	if k := u.pkgs[p]; k != nil {
		return k, nil
	}
	conf := types.Config{Importer: u}
	k, err := conf.Check(u.id+p, u.c.fset, u.c.files[p], nil)
	if err != nil {
		return nil, err
	}
	u.pkgs[p] = k
	return k, nil
}

type slot struct {
	info *analysis.Info
	targ *postgres.TargetInfo
	err  string
}

func (c *child) run(j *job) (rep reply) {
	rep.ID = j.ID
	rep.Stats = map[string]int{}
	bad := func(f string, a ...any) {
		if rep.Bad == "" {
			rep.Bad = fmt.Sprintf(f, a...)
		}
	}
	if len(j.Runs) > 0 {
		rep.Runs = c.runTool(j, bad)
		return rep
	}
	c.nuniv++
	u := &universe{c: c, id: fmt.Sprintf("vfh%06dx/", c.nuniv), pkgs: map[string]*types.Package{}}
	for _, e := range j.Slots {
		if _, err := u.Import("vfh/" + decls[e.Decl].pkg); err != nil {
			bad("HARNESS type check: %v", err)
			return rep
		}
	}
	db := c.db
	if j.Fresh {
		var err error
		if db, err = postgres.Open(fmt.Sprintf("%s&application_name=h%d", c.DSN, c.nuniv)); err != nil {
			bad("HARNESS open: %v", err)
			return rep
		}
		defer db.Close()
	}
	slots := make([]slot, len(j.Slots))
	if !strings.HasPrefix(j.Steps, "M") {
		setMapRand(j.Map)
	}
	defer setMapRand(0)
	for i := 0; i+1 < len(j.Steps) && rep.Bad == ""; i += 2 {
		n := int(j.Steps[i+1] - '0')
		e, s := j.Slots[n], &slots[n]
		rep.Steps++
		func() {
			defer func() {
				if x := recover(); x != nil {
					bad("%c of %v panics: %v", j.Steps[i], e, x)
				}
			}()
			cfg := config.DefaultConfig
			cfgs[e.Cfg].set(&cfg, u.id)
			if err := analysis.AnalyzeFilterValueConverters(cfg); err != nil {
				bad("HARNESS converters: %v", err)
			}
			if j.Steps[i] == 'M' {
				c.maps(u, db, e, cfg, int(j.Map), &rep, bad)
				return
			}
			exp, judged := c.Base[e.String()]
			if !judged && !j.Give {
				bad("HARNESS no baseline of %v", e)
			}
			step := func(err error) {
				if err == nil {
					return
				}
				s.err = norm(err.Error())
				if judged && s.err != exp.Err {
					bad("%c of %v fails with %q\n-- alone: %q", j.Steps[i], e, s.err, exp.Err)
				}
				if j.Give {
					rep.Given = &base{Err: s.err}
				}
				rep.Stats["errors"]++
			}
			pkg := u.pkgs[decls[e.Decl].pkg]
			switch j.Steps[i] {
			case 'A':
				obj := pkg.Scope().Lookup(decls[e.Decl].name)
				info, err := analysis.Run(c.fset, obj.Type().(*types.Named), obj.Pos(), cfg)
				s.info = info
				step(err)
			case 'C':
				if s.err != "" {
					return
				}
				targ, err := postgres.Check(db, s.info.Struct, s.info)
				s.targ = targ
				step(err)
				if err == nil && judged && exp.Err != "" {
					bad("%v is accepted\n-- alone: %q", e, exp.Err)
				}
			case 'W':
				if s.err != "" {
					return
				}
				text, err := write(pkg.Name(), []*postgres.TargetInfo{s.targ}, cfg)
				if err != nil {
					bad("HARNESS %v: %v", e, err)
				}
				if judged && text != exp.Text {
					bad("the code of %v differs:\n%s", e, firstDiff(exp.Text, text))
				}
				if j.Give {
					d, im, err := parts(text)
					if err != nil {
						bad("HARNESS %v: %v", e, err)
					}
					rep.Given = &base{Text: text, Decls: d, Imports: im}
				}
				rep.Stats["texts"]++
			case 'J':
				var targs []*postgres.TargetInfo
				var want, wantIm []string
				for k := n; k < len(slots); k++ {
					if slots[k].err == "" {
						targs = append(targs, slots[k].targ)
						b := c.Base[j.Slots[k].String()]
						want = append(want, b.Decls...)
						wantIm = append(wantIm, b.Imports...)
					}
				}
				text, err := write(pkg.Name(), targs, cfg)
				if err != nil {
					bad("the file does not parse: %v\n%s", err, text)
					return
				}
				got, gotIm, err := parts(text)
				if err != nil {
					bad("the file does not parse: %v", err)
					return
				}
				if a, b := strings.Join(want, "\n"), strings.Join(got, "\n"); a != b {
					bad("the file's declarations are not those of its declarations in source order:\n%s", firstDiff(a, b))
				}
				if a, b := strings.Join(uniq(wantIm), "\n"), strings.Join(gotIm, "\n"); a != b {
					bad("the file's imports:\n%s", firstDiff(a, b))
				}
				rep.Stats["files"]++
			}
		}()
	}
	return rep
}

func uniq(s []string) (out []string) {
	sort.Strings(s)
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return
}

func write(pkg string, targs []*postgres.TargetInfo, cfg config.Config) (string, error) {
	var b bytes.Buffer
	if err := generator.Write(&b, pkg, targs, cfg); err != nil {
		return "", err
	}
	bs, err := format.Source(b.Bytes())
	if err != nil {
		return b.String(), err
	}
	return norm(string(bs)), nil
}

// parts splits a file in its declarations, with the names of imported packages replaced by their paths,
// and its imports.
func parts(text string) (out, imports []string, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", text, 0)
	if err != nil {
		return nil, nil, err
	}
	byName := map[string]string{}
	for _, s := range f.Imports {
		path := strings.Trim(s.Path.Value, `"`)
		name := path[strings.LastIndexByte(path, '/')+1:]
		if s.Name != nil {
			name = s.Name.Name
		}
		if byName[name] != "" {
			return nil, nil, fmt.Errorf("two imports named %s", name)
		}
		byName[name] = path
		imports = append(imports, path)
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if x, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil && byName[id.Name] != "" {
					id.Name = "‹" + byName[id.Name] + "›"
				}
			}
			return true
		})
		var b bytes.Buffer
		if err := printer.Fprint(&b, fset, d); err != nil {
			return nil, nil, err
		}
		out = append(out, b.String())
	}
	return out, uniq(imports), nil
}

func firstDiff(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y string
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d\n- alone: %s\n- here:  %s", i+1, x, y)
		}
	}
	return "(no difference)"
}

// maps processes the event with every start of map iterations.
func (c *child) maps(u *universe, db *postgres.DB, e event, cfg config.Config, n int, rep *reply, bad func(string, ...any)) {
	defer setMapRand(0)
	pkg := u.pkgs[decls[e.Decl].pkg]
	obj := pkg.Scope().Lookup(decls[e.Decl].name)
	var first string
	for k := 0; k < n; k++ {
		setMapRand(mapStart(k) + 1)
		rep.Steps++
		got := ""
		info, err := analysis.Run(c.fset, obj.Type().(*types.Named), obj.Pos(), cfg)
		if err == nil {
			var targ *postgres.TargetInfo
			if targ, err = postgres.Check(db, info.Struct, info); err == nil {
				rep.Stats["texts"]++
				if got, err = write(pkg.Name(), []*postgres.TargetInfo{targ}, cfg); err != nil {
					bad("HARNESS %v: %v", e, err)
				}
			}
		}
		if err != nil {
			got = "error: " + norm(err.Error())
			rep.Stats["errors"]++
		}
		if k == 0 {
			first = got
		} else if got != first {
			bad("%v with map iterations starting at %d:\n%s", decls[e.Decl].body, mapStart(k), firstDiff(first, got))
			return
		}
	}
}
