package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/generator"
	"github.com/frk/gosql/internal/postgres"
	"github.com/frk/gosql/internal/search"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

// Case is one declaration given to the tool.
type Case struct {
	Key   string // stable name in reports
	Body  string // the struct's fields (or, with Raw, the whole declaration with @ for the name)
	Raw   bool
	Kind  string // Select, Insert, Update, Delete, Filter
	Init  string // wires q to the sink s
	Group string // cases of one group go to the same package (and configuration)
	Extra string // further declarations of the package
	Want  string // accept, reject or "" (either)
	Job   *Job
	Cfg   *Cfg

	named func(name string) // called with the declaration's name

	Name     string
	pkg      *pkg
	file     *file
	Err      error
	ErrText  string
	Panic    string
	info     *postgres.TargetInfo
	Text     string // the code generated for this declaration alone (if asked for)
	Broken   string // why its code is not usable
	accepted bool
}

// Cfg is a configuration variant.
type Cfg struct {
	Name string
	Set  func(*config.Config)
	Exec string // how the method is called

	Files map[string]string // further files of the module
	pkg   string            // the package the configuration was last used for
}

type Val struct {
	Go   json.RawMessage              `json:"go,omitempty"`
	Recs []map[string]json.RawMessage `json:"recs"`
	SQL  string                       `json:"sql"`
	Subs []map[string]string          `json:"subs,omitempty"`
	Zero bool                         `json:"zero,omitempty"`
}

type Param struct {
	Path string `json:"path"`
	Vals []Val  `json:"vals"`
}

type Leaf struct {
	Path string `json:"path"`
	Kind string `json:"kind"`
}

type Job struct {
	Name     string   `json:"name"`
	Mode     string   `json:"mode"`
	Params   []Param  `json:"params"`
	Out      string   `json:"out"`
	Leaves   []Leaf   `json:"leaves"`
	Cmp      string   `json:"cmp"`
	Ref      []string `json:"ref"`
	Each     int      `json:"each"`
	Tables   []string `json:"tables"`
	Count    string   `json:"count"`
	Keep     []string `json:"keep"`
	After    string   `json:"after"`
	Stateful string   `json:"stateful"`
	MaxRuns  int      `json:"max_runs"`
	Repeat   int      `json:"repeat"`
	// fields of the records at KeepOut that the method must not touch
	KeepLeaves []Leaf      `json:"keep_leaves"`
	KeepOut    string      `json:"keep_out"`
	Fault      *FaultSpec  `json:"fault,omitempty"`
	Matrix     *MatrixSpec `json:"matrix,omitempty"`
	Filter     *FilterSpec `json:"filter,omitempty"`
	Live       *LiveSpec   `json:"live,omitempty"`
}

// LiveSpec: see runner/live.go.
type LiveSpec struct {
	Filter string `json:"filter"`
	Args   []any  `json:"args"`
	Empty  bool   `json:"empty"`
}

// MatrixSpec: see runner/matrix.go.
type MatrixSpec struct {
	Kind    string   `json:"kind"`
	Table   string   `json:"table"`
	PG      string   `json:"pg"`
	Cast    string   `json:"cast"`
	Text    bool     `json:"text"`
	Samples []string `json:"samples"`
	Null    bool     `json:"null"`
	Op      string   `json:"op"`
	Array   bool     `json:"array"`
	Path    string   `json:"path"`
	Num     bool     `json:"num"`
	List    bool     `json:"list"`
}

type Result struct {
	Name     string   `json:"name"`
	Runs     int      `json:"runs"`
	Total    int      `json:"total"`
	Bad      []string `json:"bad"`
	NBad     int      `json:"nbad"`
	Outcomes []string `json:"outcomes"`
	Sample   string   `json:"sample"`
	Scen     int      `json:"scen"`
}

// FaultSpec: see runner/fault.go.
type FaultSpec struct {
	Kind     string   `json:"kind"`
	Rows     [][]any  `json:"rows"`
	Expect   []string `json:"expect"`
	BadCol   int      `json:"bad_col"`
	Handler  string   `json:"handler"`
	Query    string   `json:"query"`
	MinRows  int      `json:"min_rows"`
	MaxRows  int      `json:"max_rows"`
	Ctx      bool     `json:"ctx"`
	CtxField bool     `json:"ctx_field"` // the context is a field of the query
}

type pkg struct {
	name  string
	group string
	cfg   *Cfg
	files []*file
}

type file struct {
	pkg   *pkg
	base  string
	cases []*Case
}

// Pipe runs the tool on the declarations and compiles what it generates.
type Pipe struct {
	r     *vf.Run
	dir   string
	dsn   string
	types string // source of the record types (every package has its own copy)
	pkgs  []*pkg
	nfile int
	cases []*Case

	perFile, perPkg int

	imports, uses string // further imports of the declarations, and their uses
}

var npipe int

func newPipe(r *vf.Run, dsn, types string) *Pipe {
	npipe++
	p := &Pipe{r: r, dsn: dsn, types: types, dir: filepath.Join(vf.Work(), fmt.Sprintf("vfx%d", npipe)), perFile: 20, perPkg: 120}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		r.Fatal("go.mod: %v", err)
	}
	mod := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(gomod), "module vfx")
	mod += "\nrequire github.com/frk/gosql v0.0.0\nreplace github.com/frk/gosql => " + repo + "\n"
	p.write("go.mod", mod)
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		r.Fatal("go.sum: %v", err)
	}
	p.write("go.sum", string(sum))
	src := filepath.Join(os.Getenv("VERIF_DIR"), "drv/gen/runner")
	for _, f := range []string{"main.go", "fault.go", "matrix.go", "filt.go", "live.go", "vfrt/vfrt.go"} {
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			r.Fatal("%v", err)
		}
		p.write(f, string(b))
	}
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "drv/pgsql/values.go"))
	if err != nil {
		r.Fatal("%v", err)
	}
	p.write("values.go", string(b))
	p.write("ext/ext.go", bt(extSrc))
	p.write("ext2/ext/ext.go", bt(ext2Src))
	// packages whose names are not the last segments of their paths
	for path, name := range map[string]string{"conv/v2": "conv", "go-conv": "cv", "misc/util": "other", "x/gosql": "gosql", "x/filter": "fltr", "x/v3": "x", "y/v3": "v3", "x/type": "typ", "x/1st": "first", "x/conv": "f"} {
		p.write(path+"/p.go", "package "+name+"\n\nfunc Fn(v any) (any, error) { return v, nil }\n")
	}
	return p
}

func (p *Pipe) write(name, text string) {
	f := filepath.Join(p.dir, name)
	os.MkdirAll(filepath.Dir(f), 0o755)
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		p.r.Fatal("%v", err)
	}
}

func (p *Pipe) Add(c *Case) *Case {
	c.Name = fmt.Sprintf("%sQ%d", c.Kind, len(p.cases))
	p.cases = append(p.cases, c)
	var k *pkg
	n := 0
	for i := len(p.pkgs) - 1; i >= 0; i-- {
		if p.pkgs[i].group == c.Group && p.pkgs[i].cfg == c.Cfg {
			k = p.pkgs[i]
			break
		}
	}
	if k != nil {
		for _, f := range k.files {
			n += len(f.cases)
		}
	}
	if k == nil || n >= p.perPkg {
		k = &pkg{name: fmt.Sprintf("q%02d", len(p.pkgs)), group: c.Group, cfg: c.Cfg}
		p.pkgs = append(p.pkgs, k)
	}
	var f *file
	if l := len(k.files); l > 0 && len(k.files[l-1].cases) < p.perFile {
		f = k.files[l-1]
	} else {
		f = p.newFile(k)
	}
	c.pkg, c.file = k, f
	f.cases = append(f.cases, c)
	return c
}

func (p *Pipe) newFile(k *pkg) *file {
	p.nfile++
	f := &file{pkg: k, base: fmt.Sprintf("f%03d", p.nfile)}
	k.files = append(k.files, f)
	return f
}

func (c *Case) decl() string {
	if c.Raw {
		return strings.ReplaceAll(c.Body, "@", c.Name) + "\n"
	}
	return "type " + c.Name + " struct {\n" + c.Body + "\n}\n"
}

const declHead = `import (
	"context"
	"database/sql"
	"encoding/json"
	"math/big"
	"net"
	"time"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	"vfx/ext"
	ext2 "vfx/ext2/ext"
	"vfx/vfrt"
)

var (
	_ context.Context
	_ *sql.DB
	_ time.Time
	_ net.IP
	_ big.Int
	_ json.RawMessage
	_ gosql.Conn
	_ filter.Constructor
	_ ext.Rec
	_ ext2.Rec
	_ *vfrt.Sink
)

`

func (p *Pipe) head() string {
	h := strings.Replace(declHead, "\n)\n\nvar (\n", "\n"+p.imports+")\n\nvar (\n", 1)
	return strings.TrimSuffix(h, ")\n\n") + p.uses + ")\n\n"
}

func (p *Pipe) writeDecls(f *file) {
	var b strings.Builder
	b.WriteString("package " + f.pkg.name + "\n\n" + p.head())
	for _, c := range f.cases {
		b.WriteString(c.decl() + "\n")
		if c.Extra != "" {
			b.WriteString(strings.ReplaceAll(c.Extra, "@", c.Name) + "\n")
		}
	}
	p.write(f.pkg.name+"/"+f.base+".go", b.String())
}

func (p *Pipe) config(k *pkg) config.Config {
	cfg := config.DefaultConfig
	if k.cfg != nil && k.cfg.Set != nil {
		k.cfg.pkg = k.name
		k.cfg.Set(&cfg)
	}
	return cfg
}

// Check writes the declarations and runs search, analysis and type check on them.
func (p *Pipe) Check() {
	for _, k := range p.pkgs {
		p.write(k.name+"/types.go", "package "+k.name+"\n\n"+p.head()+p.types)
		for _, f := range k.files {
			p.writeDecls(f)
		}
	}
	if out, err := p.gocmd("vet-decls", "build", "-gcflags=vfx/...=-e", "./..."); err != nil && !strings.Contains(out, "main.go") {
		p.r.Fatal("the declarations do not compile: %s", clip(out, 4000))
	}
	pkgs, err := search.Search(p.dir, true, nil)
	if err != nil {
		p.r.Fatal("search: %v", err)
	}
	db, err := postgres.Open(p.dsn)
	if err != nil {
		p.r.Fatal("open: %v", err)
	}
	defer db.Close()
	byName := map[string]*Case{}
	for _, c := range p.cases {
		byName[c.Name] = c
	}
	seen := 0
	for _, sp := range pkgs {
		for _, sf := range sp.Files {
			for _, m := range sf.Matches {
				c := byName[m.Named.Obj().Name()]
				if c == nil {
					continue
				}
				seen++
				cfg := p.config(c.pkg)
				func() {
					defer func() {
						if x := recover(); x != nil {
							c.Panic = fmt.Sprintf("%v %s", x, panicSite())
						}
					}()
					analysis.AnalyzeFilterValueConverters(cfg)
					info, err := analysis.Run(sp.Fset, m.Named, m.Pos, cfg)
					if err == nil {
						c.info, err = postgres.Check(db, info.Struct, info)
					}
					if err != nil {
						c.Err = err
						c.ErrText = err.Error()
						return
					}
					c.accepted = true
				}()
			}
		}
	}
	if seen != len(p.cases) {
		p.r.Fatal("search found %d of %d declarations", seen, len(p.cases))
	}
}

func panicSite() string {
	pc := make([]uintptr, 40)
	fr := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	for {
		f, more := fr.Next()
		if strings.Contains(f.File, "/internal/") && !strings.Contains(f.File, "vfdrv") && !strings.Contains(f.File, "/runtime/") {
			return fmt.Sprintf("in %s", filepath.Base(f.Function))
		}
		if !more {
			return ""
		}
	}
}

// genText generates the file for the given cases.
func (p *Pipe) genText(k *pkg, cases []*Case) (text string, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v %s", x, panicSite())
		}
	}()
	var targets []*postgres.TargetInfo
	for _, c := range cases {
		targets = append(targets, c.info)
	}
	analysis.AnalyzeFilterValueConverters(p.config(k))
	var b bytes.Buffer
	if err := generator.Write(&b, k.name, targets, p.config(k)); err != nil {
		return "", err
	}
	if _, err := parser.ParseFile(token.NewFileSet(), "", b.Bytes(), parser.ParseComments); err != nil {
		return b.String(), fmt.Errorf("not Go: %v", err)
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		return b.String(), fmt.Errorf("format: %v", err)
	}
	return string(out), nil
}

func (f *file) live() (out []*Case) {
	for _, c := range f.cases {
		if c.accepted && c.Broken == "" {
			out = append(out, c)
		}
	}
	return out
}

// genFile generates and writes the code of the file's accepted cases; without any it leaves no file.
func (p *Pipe) genFile(f *file) error {
	gen := f.pkg.name + "/" + f.base + "_gosql.go"
	reg := f.pkg.name + "/" + f.base + "_reg.go"
	os.Remove(filepath.Join(p.dir, gen))
	os.Remove(filepath.Join(p.dir, reg))
	cases := f.live()
	if len(cases) == 0 {
		return nil
	}
	text, err := p.genText(f.pkg, cases)
	if err != nil {
		return err
	}
	p.write(gen, text)
	var b strings.Builder
	b.WriteString("package " + f.pkg.name + "\n\n" + strings.Replace(p.head(), "import (", "import (\n\t\"reflect\"", 1) + "var _ reflect.Type\n\nfunc init() {\n")
	call := "Exec(e.Conn)"
	if f.pkg.cfg != nil && f.pkg.cfg.Exec != "" {
		call = f.pkg.cfg.Exec
	}
	for _, c := range cases {
		if c.Kind == "Filter" {
			continue
		}
		fmt.Fprintf(&b, "\tvfrt.Register(%q, vfrt.Entry{New: func(s *vfrt.Sink) any { q := new(%s); _ = s; %s; return q }, Exec: func(q any, e *vfrt.Env) error { return q.(*%s).%s }})\n", c.Name, c.Name, c.Init, c.Name, call)
	}
	b.WriteString("}\n")
	for _, c := range cases {
		if c.Kind == "Filter" && c.Init != "" {
			b.WriteString(strings.ReplaceAll(c.Init, "@", c.Name) + "\n")
		}
	}
	p.write(reg, b.String())
	return nil
}

func (p *Pipe) gocmd(what string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = p.dir
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// Build generates all code and compiles the runner; a declaration whose code does not compile is
// marked broken and left out.
func (p *Pipe) Build() {
	broken := func(c *Case, why string) { c.Broken = why }
	for _, k := range p.pkgs {
		for _, f := range append([]*file(nil), k.files...) {
			if err := p.genFile(f); err == nil {
				continue
			} else if len(f.live()) == 1 {
				broken(f.live()[0], err.Error())
				p.genFile(f)
				continue
			}
			p.split(f)
		}
	}
	var imp strings.Builder
	imp.WriteString("package main\n\nimport (\n")
	for _, k := range p.pkgs {
		fmt.Fprintf(&imp, "\t_ \"vfx/%s\"\n", k.name)
	}
	imp.WriteString(")\n")
	p.write("imports.go", imp.String())
	rx := regexp.MustCompile(`(?m)^(q\d+)/(f\d+)(_gosql|_reg)?\.go:\d+:\d+: (.*)$`)
	for round := 0; ; round++ {
		out, err := p.gocmd("build", "build", "-gcflags=vfx/...=-e", "-o", "runner.bin", ".")
		if err == nil {
			return
		}
		fail := map[string]string{}
		for _, m := range rx.FindAllStringSubmatch(out, -1) {
			key := m[1] + "/" + m[2]
			if fail[key] == "" || strings.Contains(m[3], "gosql") && len(fail[key]) < 400 {
				fail[key] += m[4] + "; "
			}
		}
		if len(fail) == 0 || round > 6 {
			p.r.Fatal("build: %s", clip(out, 4000))
		}
		for _, k := range p.pkgs {
			for _, f := range append([]*file(nil), k.files...) {
				why := fail[k.name+"/"+f.base]
				if why == "" {
					continue
				}
				if l := f.live(); len(l) == 1 {
					broken(l[0], "the generated code does not compile: "+why)
					p.genFile(f)
				} else {
					p.split(f)
				}
			}
		}
	}
}

// split gives each case of the file its own.
func (p *Pipe) split(f *file) {
	cases := f.cases
	if len(f.live()) > 1 {
		p.r.Add("files_split", 1)
	}
	f.cases = nil
	os.Remove(filepath.Join(p.dir, f.pkg.name, f.base+"_gosql.go"))
	os.Remove(filepath.Join(p.dir, f.pkg.name, f.base+"_reg.go"))
	os.Remove(filepath.Join(p.dir, f.pkg.name, f.base+".go"))
	for _, c := range cases {
		n := p.newFile(f.pkg)
		n.cases = []*Case{c}
		c.file = n
		p.writeDecls(n)
		if err := p.genFile(n); err != nil {
			c.Broken = err.Error()
			p.genFile(n)
		}
	}
}

// Run executes the jobs in the runner.
func (p *Pipe) Run(dsns []string, jobs []*Job, deadline float64) []*Result {
	in, err := json.Marshal(map[string]any{"dsns": dsns, "jobs": jobs, "deadline": deadline})
	if err != nil {
		p.r.Fatal("jobs: %v", err)
	}
	cmd := exec.Command(filepath.Join(p.dir, "runner.bin"))
	cmd.Dir = p.dir
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		if what, fn := vf.CrashSite(errb.String()); fn != "" {
			p.r.Violation("crash/"+fn, "%s in %s\n%s", what, fn, clip(errb.String(), 6000))
		}
		p.r.Fatal("runner: %v\n%s", err, clip(errb.String(), 6000))
	}
	var res []*Result
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		p.r.Fatal("runner output: %v %s", err, clip(out.String(), 500))
	}
	sort.SliceStable(res, func(i, j int) bool { return false })
	return res
}

// methodText is the part of the generated file that belongs to the case.
func (p *Pipe) methodText(c *Case) string {
	b, _ := os.ReadFile(filepath.Join(p.dir, c.pkg.name, c.file.base+"_gosql.go"))
	s := string(b)
	i := strings.Index(s, "*"+c.Name+") ")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "\n}\n"); j > 0 {
		s = s[:j+2]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
