// Driver for C17: configuration.
//
// The model is three lines: the flag's value if given, else the file's, else the default.  Every
// combination of bounded flag and file alternatives of every option, alone and together with every
// other option, is replayed on the real Config; so is every small directory layout, and every
// bounded value of the options that are checked for form.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/frk/gosql/internal/command"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

// falt is one way of giving an option by flag.
type falt struct {
	name string
	args []string
	val  string // canonical effective value
}

// jalt is one way of giving an option in the file.
type jalt struct {
	name string
	json string // "" absent
	val  string
	set  bool
}

type option struct {
	name, flag, key string
	def             string
	get             func(c *config.Config) string
	flags           []falt
	file            []jalt
	badFlags        [][]string
	badFile         []string
}

func q(s string) string { b, _ := json.Marshal(s); return string(b) }

func str(name, flag, key, def string, get func(c *config.Config) config.String) *option {
	o := &option{name: name, flag: flag, key: key, def: q(def), get: func(c *config.Config) string { return q(get(c).Value) }}
	o.flags = []falt{{name: "absent"}}
	if flag != "" {
		o.flags = append(o.flags,
			falt{"a", []string{"-" + flag, "fa"}, q("fa")},
			falt{"eq", []string{"-" + flag + "=f=b"}, q("f=b")},
			falt{"empty", []string{"-" + flag + "="}, q("")},
			falt{"default", []string{"--" + flag, def}, q(def)},
			falt{"twice", []string{"-" + flag, "f1", "-" + flag, "f2"}, q("f2")},
		)
	}
	o.file = []jalt{{name: "absent"}, {"v", q("jv"), q("jv"), true}, {"null", "null", "", false}, {"empty", `""`, q(""), true},
		{"uni", `"\u00e9 \"x"`, q("é \"x"), true}, {"default", q(def), q(def), true}}
	o.badFile = []string{"1", "true", "{}", "[]", `["x"]`, "0.5", "false"}
	return o
}

func boolean(name, flag, key string, get func(c *config.Config) config.Bool) *option {
	o := &option{name: name, flag: flag, key: key, def: "false", get: func(c *config.Config) string { return fmt.Sprint(get(c).Value) }}
	f := func(v string) []string { return []string{"-" + flag + v} }
	o.flags = []falt{{name: "absent"}, {"on", f(""), "true"}, {"false", f("=false"), "false"}, {"true", f("=true"), "true"}, {"0", f("=0"), "false"}, {"1", f("=1"), "true"},
		{"F", f("=F"), "false"}, {"T", f("=T"), "true"}, {"on-off", append(f(""), f("=false")...), "false"}, {"off-on", append(f("=false"), f("")...), "true"}}
	o.badFlags = [][]string{f("=maybe"), f("=2"), f("=on"), f("=tRUE")}
	o.file = []jalt{{name: "absent"}, {"true", "true", "true", true}, {"false", "false", "false", true}, {"null", "null", "", false}}
	o.badFile = []string{"1", "0", `"true"`, `"false"`, `""`, "{}", "[]", "[true]"}
	return o
}

func list(name, flag, key string, get func(c *config.Config) config.StringSlice) *option {
	o := &option{name: name, flag: flag, key: key, def: "[]", get: func(c *config.Config) string { return fmt.Sprintf("%q", get(c).Value) }}
	l := func(s ...string) string { return fmt.Sprintf("%q", s) }
	o.flags = []falt{{name: "absent"}, {"one", []string{"-" + flag, "a.go"}, l("a.go")}, {"two", []string{"-" + flag, "b.go", "-" + flag + "=a.go"}, l("b.go", "a.go")},
		{"comma", []string{"-" + flag, "a,b.go"}, l("a,b.go")}, {"three", []string{"-" + flag, "x", "-" + flag, "x", "-" + flag, "y"}, l("x", "x", "y")}}
	o.file = []jalt{{name: "absent"}, {"one", `["j.go"]`, l("j.go"), true}, {"two", `["k.go","j.go"]`, l("k.go", "j.go"), true}, {"null", "null", "", false}, {"none", "[]", "[]", true}}
	o.badFile = []string{`"j.go"`, "1", "{}", "[1]", `["a",2]`, "true", `[["a"]]`}
	return o
}

func options() []*option {
	gt := &option{name: "MethodArgumentType", flag: "argtype", key: "method_argument_type", def: "github.com/frk/gosql.Conn",
		get: func(c *config.Config) string { return c.MethodArgumentType.String() }}
	f := func(s ...string) (a []string) {
		for _, x := range s {
			a = append(a, "-argtype", x)
		}
		return a
	}
	gt.flags = []falt{{name: "absent"}, {"plain", f("example.com/f/p.T"), "example.com/f/p.T"}, {"ptr", f("*example.com/f/p.T"), "*example.com/f/p.T"},
		{"std", f("*sql.DB"), "*sql.DB"}, {"ptr-plain", f("*x.com/p.U", "y.com/p.T"), "y.com/p.T"}, {"plain-ptr", f("x.com/p.U", "*y.com/p.T"), "*y.com/p.T"},
		{"eq", []string{"-argtype=*a.b/c.d/e.T"}, "*a.b/c.d/e.T"}, {"default", f("github.com/frk/gosql.Conn"), "github.com/frk/gosql.Conn"}}
	gt.badFlags = [][]string{f("NoDot"), f("*"), f("a/b")}
	gt.file = []jalt{{name: "absent"}, {"plain", q("example.com/j/p.T"), "example.com/j/p.T", true}, {"ptr", q("*example.com/j/p.T"), "*example.com/j/p.T", true}, {"null", "null", "", false},
		{"default", q("github.com/frk/gosql.Conn"), "github.com/frk/gosql.Conn", true}}
	gt.badFile = []string{"1", "true", "{}", "[]", `"NoDot"`, `"*"`, `["a.b"]`}

	fv := &option{name: "FilterValueConverters", key: "filter_value_converters", def: "[]", get: func(c *config.Config) string {
		var ss []string
		for _, x := range c.FilterValueConverters {
			ss = append(ss, x.Type.PkgPath+"|"+x.Type.Name+">"+x.Func.PkgPath+"|"+x.Func.Name)
		}
		return fmt.Sprint(ss)
	}}
	fv.flags = []falt{{name: "absent"}}
	fv.file = []jalt{{name: "absent"}, {"one", `[{"type":"time.Time","func":"example.com/x.Conv"}]`, "[time|Time>example.com/x|Conv]", true},
		{"two", `[{"type":"a.b/c.d.T","func":"e/f.g"},{"func":"a.F","type":"bc.T2"}]`, "", true},
		{"none", "[]", "[]", true}, {"null", "null", "", false},
		{"paths", `[{"type":"m.T","func":"x.y/go-conv/v2.F"},{"type":"a~b/c+d/e_f.T","func":"gopkg.in/a-b.v3.F"}]`, "[m|T>x.y/go-conv/v2|F a~b/c+d/e_f|T>gopkg.in/a-b.v3|F]", true}}
	fv.file[2].json = `[{"type":"a.b/c.d.T","func":"ee/f.g"},{"func":"aa.F","type":"bc.T2"}]`
	fv.file[2].val = "[a.b/c.d|T>ee/f|g bc|T2>aa|F]"
	fv.badFile = []string{"1", "true", `"x.y"`, "{}", "[1]", `["a.b"]`, `[{"type":1,"func":"aa.B"}]`, `[{"type":"aa.B","func":["aa.C"]}]`, `[{"type":"NoDot","func":"aa.B"}]`,
		`[{"type":"aa.T","func":"aa.1x"}]`, `[{"type":"*aa.T","func":"aa.F"}]`, `[{"type":"aa.","func":"aa.F"}]`, `[{"type":".T","func":"aa.F"}]`, `[{"type":"aa.T","func":"aa.F"},{"type":"aa.T","func":"bb cc.F"}]`}

	return []*option{
		str("WorkingDirectory", "wd", "working_directory", ".", func(c *config.Config) config.String { return c.WorkingDirectory }),
		boolean("Recursive", "r", "recursive", func(c *config.Config) config.Bool { return c.Recursive }),
		list("InputFiles", "f", "input_files", func(c *config.Config) config.StringSlice { return c.InputFiles }),
		list("InputFileRegexps", "rx", "input_file_regexps", func(c *config.Config) config.StringSlice { return c.InputFileRegexps }),
		str("OutputFileNameFormat", "o", "output_file_name_format", "%s_gosql.go", func(c *config.Config) config.String { return c.OutputFileNameFormat }),
		str("DatabaseDSN", "db", "database_dsn", "", func(c *config.Config) config.String { return c.DatabaseDSN }),
		boolean("QuoteIdentifiers", "qid", "quote_identifiers", func(c *config.Config) config.Bool { return c.QuoteIdentifiers }),
		str("FilterColumnKeyTag", "fcktag", "filter_column_key_tag", "json", func(c *config.Config) config.String { return c.FilterColumnKeyTag }),
		boolean("FilterColumnKeyBase", "fckbase", "filter_column_key_base", func(c *config.Config) config.Bool { return c.FilterColumnKeyBase }),
		str("FilterColumnKeySeparator", "fcksep", "filter_column_key_separator", ".", func(c *config.Config) config.String { return c.FilterColumnKeySeparator }),
		str("MethodName", "", "method_name", "Exec", func(c *config.Config) config.String { return c.MethodName }),
		boolean("MethodWithContext", "with-ctx", "method_with_context", func(c *config.Config) config.Bool { return c.MethodWithContext }),
		gt, fv,
	}
}

// pick is an alternative of one option in one case.
type pick struct {
	o    *option
	f, j int
}

type driver struct {
	r    *vf.Run
	opts []*option
	dir  string
	file string
	n    int
	mu   sync.Mutex
}

// run parses the arguments and the file at d.file and returns the resulting configuration.
func parse(args []string) (c config.Config, err error) {
	os.Args = append([]string{"gosql"}, args...)
	c = config.DefaultConfig
	c.ParseFlags(func() {})
	err = c.ParseFile()
	return c, err
}

func (d *driver) write(b string) {
	if err := os.WriteFile(d.file, []byte(b), 0o644); err != nil {
		d.r.Fatal("%v", err)
	}
}

func (p pick) String() string {
	return p.o.name + ":" + p.o.flags[p.f].name + "/" + p.o.file[p.j].name
}

// check replays one combination; the order of the flags and of the file's keys is that of picks.
func (d *driver) check(picks []pick) {
	var args, keys []string
	want := map[string]string{}
	for _, o := range d.opts {
		want[o.name] = o.def
	}
	for i := range picks {
		p := picks[i]
		args = append(args, p.o.flags[p.f].args...)
		p = picks[len(picks)-1-i]
		j := p.o.file[p.j]
		if j.json != "" {
			keys = append(keys, q(p.o.key)+": "+j.json)
		}
		switch {
		case p.f > 0:
			want[p.o.name] = p.o.flags[p.f].val
		case j.set:
			want[p.o.name] = j.val
		}
	}
	d.write("{" + strings.Join(keys, ",\n") + "}\n")
	c, err := parse(append(args, "-config", d.file))
	d.n++
	key := ""
	for _, p := range picks {
		key += " " + p.String()
	}
	show := func() string { return fmt.Sprintf("flags %q\nfile {%s}", args, strings.Join(keys, ", ")) }
	if err != nil {
		d.r.Violation("combine"+key, "well-formed configuration reported as an error: %v\n%s", err, show())
		return
	}
	d.r.Outcome(fmt.Sprint(want))
	for _, o := range d.opts {
		if got := o.get(&c); got != want[o.name] {
			d.r.Violation("combine"+key+"/"+o.name, "%s is %s, want %s\n%s", o.name, got, want[o.name], show())
		}
	}
}

// flags gives every flag in processes of their own, as the parser ends the process if it finds fault.
func (d *driver) flags() (ok bool) {
	self, err := os.Executable()
	must(d.r, err)
	d.write("{}\n")
	ok = true
	for _, o := range d.opts {
		vf.Par(8, len(o.flags), func(_, i int) {
			args := append(append([]string{}, o.flags[i].args...), "-config="+d.file)
			c := exec.Command(self)
			c.Env = append(os.Environ(), "VF_C17_CHILD="+strings.Join(append(args, ""), "\x01"))
			if out, err := c.CombinedOutput(); err != nil {
				d.mu.Lock()
				defer d.mu.Unlock()
				ok = false
				d.r.Violation("flag/"+o.name+"/"+o.flags[i].name, "the flags %q are not accepted: %v\n%s", args, err, out)
			}
		})
	}
	return ok
}

func (d *driver) combos() {
	r := d.r
	if !d.flags() {
		r.Cap("combinations: flags are not accepted")
		r.Finish()
	}
	for _, o := range d.opts {
		for f := range o.flags {
			for j := range o.file {
				d.check([]pick{{o, f, j}})
			}
		}
	}
	r.Add("combinations_of_one", d.n)
	base := d.n
	for i, a := range d.opts {
		for k, b := range d.opts {
			if i == k {
				continue
			}
			for f := range a.flags {
				for j := range a.file {
					for f2 := range b.flags {
						for j2 := range b.file {
							if !r.Thorough() && (f > 3 || f2 > 3 || j > 3 || j2 > 3 || i > k && (f > 1 || f2 > 1 || j > 2 || j2 > 2)) {
								continue
							}
							d.check([]pick{{a, f, j}, {b, f2, j2}})
						}
					}
				}
			}
			if r.Expired("pairs") {
				return
			}
		}
	}
	r.Add("combinations_of_two", d.n-base)
	base = d.n
	if r.Thorough() {
		for i, a := range d.opts {
			for k := i + 1; k < len(d.opts); k++ {
				for m := k + 1; m < len(d.opts); m++ {
					b, c := d.opts[k], d.opts[m]
					for x := 0; x < 6*6*6; x++ {
						// absent or the first two flags, with or without the file
						f1, f2, f3 := x%6, x/6%6, x/36
						if f1%3 >= len(a.flags) || f2%3 >= len(b.flags) || f3%3 >= len(c.flags) {
							continue
						}
						d.check([]pick{{a, f1 % 3, f1 / 3}, {b, f2 % 3, f2 / 3}, {c, f3 % 3, f3 / 3}})
					}
				}
			}
		}
		r.Add("combinations_of_three", d.n-base)
		base = d.n
	}
	// every subset of the options by flag over a file that sets all, and the reverse
	n := 1 << len(d.opts)
	for mode := 0; mode < 2; mode++ {
		for s := 0; s < n; s++ {
			if !r.Thorough() && s%7 > 1 && s != n-1 {
				// the quick tier takes every subset of size up to two and up to two missing, below
				ones := 0
				for b := 0; b < len(d.opts); b++ {
					ones += s >> b & 1
				}
				if ones > 2 && ones < len(d.opts)-2 {
					continue
				}
			}
			var ps []pick
			for i, o := range d.opts {
				p := pick{o: o}
				in := s>>i&1 == 1
				if mode == 0 {
					p.j = 1
					if in && len(o.flags) > 1 {
						p.f = 1
					}
				} else {
					if len(o.flags) > 1 {
						p.f = 2
					}
					if in {
						p.j = 1
					}
				}
				ps = append(ps, p)
			}
			d.check(ps)
		}
	}
	r.Add("combinations_of_all", d.n-base)
}

// malformed offers every malformed value of every option, alone, next to a valid file or flag of the
// same option, and next to each other option.
func (d *driver) malformed() {
	r := d.r
	self, err := os.Executable()
	if err != nil {
		r.Fatal("%v", err)
	}
	n := 0
	// by file
	for _, o := range d.opts {
		for _, bad := range o.badFile {
			for f := range o.flags {
				d.write("{" + q(o.key) + ": " + bad + "}")
				_, err := parse(append(append([]string{}, o.flags[f].args...), "-config", d.file))
				n++
				if err == nil {
					r.Violation(fmt.Sprintf("malformed file/%s:%s/%s", o.name, o.flags[f].name, bad), "the file's value %s of %s is silently ignored\nflags %q", bad, o.key, o.flags[f].args)
				}
			}
			for _, o2 := range d.opts {
				if o2 == o {
					continue
				}
				for _, first := range []bool{true, false} {
					a, b := q(o.key)+": "+bad, q(o2.key)+": "+o2.file[1].json
					if !first {
						a, b = b, a
					}
					d.write("{" + a + ", " + b + "}")
					_, err := parse([]string{"-config", d.file})
					n++
					if err == nil {
						r.Violation(fmt.Sprintf("malformed file/%s/%s with %s %v", o.name, bad, o2.name, first), "the file's value %s of %s is silently ignored", bad, o.key)
					}
				}
			}
		}
	}
	// files that are not one JSON object
	for _, b := range []string{"", " ", "{", "}", "[]", `"x"`, "1", "true", `{"recursive": true`, `{"recursive": true,}`, `{"recursive" true}`, `{recursive: true}`, "{'recursive': true}",
		`{"recursive": tru}`, `{"recursive": true "quote_identifiers": true}`, `{"recursive": true} x`, `{"recursive": true}{"quote_identifiers": true}`, `{"recursive": true}]`, "// c\n{}", "recursive: true",
		`{"method_name": "a}`, "{\"method_name\": \"a\nb\"}", `{"recursive": true}}`, "\xef\xbb\xbf{}"} {
		d.write(b)
		_, err := parse([]string{"-config", d.file})
		n++
		if err == nil {
			r.Violation(fmt.Sprintf("malformed file %q", b), "a file with the contents %q is silently accepted", b)
		}
	}
	for _, p := range []string{filepath.Join(d.dir, "missing.json"), d.dir, filepath.Join(d.dir, "missing", "x")} {
		if _, err := parse([]string{"-config", p}); err == nil {
			r.Violation("config file "+filepath.Base(p), "the named configuration file %s cannot be read, which is silently ignored", p)
		}
		n++
	}
	// by flag, in a process of its own as the tool exits
	d.write("{}")
	type job struct {
		key  string
		args []string
	}
	var jobs []job
	for _, o := range d.opts {
		for _, bad := range o.badFlags {
			jobs = append(jobs, job{fmt.Sprintf("malformed flag/%s/%s", o.name, strings.Join(bad, " ")), bad})
			for f := 1; f < len(o.flags) && f < 3; f++ {
				jobs = append(jobs, job{fmt.Sprintf("malformed flag/%s/%s after %s", o.name, strings.Join(bad, " "), o.flags[f].name), append(append([]string{}, o.flags[f].args...), bad...)},
					job{fmt.Sprintf("malformed flag/%s/%s before %s", o.name, strings.Join(bad, " "), o.flags[f].name), append(append([]string{}, bad...), o.flags[f].args...)})
			}
		}
		if o.flag != "" && o.def != "false" {
			jobs = append(jobs, job{"flag without value/" + o.name, []string{"-" + o.flag}})
		}
	}
	jobs = append(jobs, job{"unknown flag", []string{"-nosuch"}}, job{"unknown flag with value", []string{"-nosuch=1"}}, job{"unknown flag after others", []string{"-r", "-qid", "-nosuch", "x"}})
	vf.Par(8, len(jobs), func(_, i int) {
		j := jobs[i]
		c := exec.Command(self)
		c.Env = append(os.Environ(), "VF_C17_CHILD="+strings.Join(append(append([]string{"-config=" + d.file}, j.args...), ""), "\x01"))
		out, err := c.CombinedOutput()
		if err == nil || !strings.Contains(err.Error(), "exit status") {
			r.Violation(j.key, "the flags %q are accepted: %v %s", j.args, err, out)
		}
	})
	n += len(jobs)
	r.Add("malformed_values", n)
}

// layouts builds every assignment of contents to three nested directories and parses with every one
// of them as the working directory, given by flag or by being the current one.
func (d *driver) layouts() {
	r := d.r
	kinds := []string{"none", "git", "conf", "json", "git+conf", "git+json", "git+confdir", "git+jsondir", "gitfile", "git+other"}
	n := 0
	root := filepath.Join(d.dir, "lay")
	cwd, _ := os.Getwd()
	defer os.Chdir(cwd)
	explicit := filepath.Join(d.dir, "explicit.json")
	must(r, os.WriteFile(explicit, []byte(`{"method_name": "explicit"}`), 0o644))
	levels := 3
	total := 1
	for i := 0; i < levels; i++ {
		total *= len(kinds)
	}
	for x := 0; x < total; x++ {
		must(r, os.RemoveAll(root))
		ks := make([]string, levels)
		dirs := make([]string, levels)
		p, y := root, x
		for i := 0; i < levels; i++ {
			ks[i] = kinds[y%len(kinds)]
			y /= len(kinds)
			p = filepath.Join(p, fmt.Sprintf("d%d", i))
			dirs[i] = p
			must(r, os.MkdirAll(p, 0o755))
			body := []byte(fmt.Sprintf(`{"method_name": "level%d"}`, i))
			for _, part := range strings.Split(ks[i], "+") {
				switch part {
				case "git":
					must(r, os.Mkdir(filepath.Join(p, ".git"), 0o755))
				case "gitfile":
					must(r, os.WriteFile(filepath.Join(p, ".git"), []byte("gitdir: x\n"), 0o644))
				case "conf":
					must(r, os.WriteFile(filepath.Join(p, ".gosql"), body, 0o644))
				case "json":
					must(r, os.WriteFile(filepath.Join(p, ".gosql.json"), body, 0o644))
				case "confdir":
					must(r, os.Mkdir(filepath.Join(p, ".gosql"), 0o755))
				case "jsondir":
					must(r, os.Mkdir(filepath.Join(p, ".gosql.json"), 0o755))
				case "other":
					must(r, os.WriteFile(filepath.Join(p, "gosql.json"), body, 0o644))
					must(r, os.WriteFile(filepath.Join(p, ".gosql.yaml"), body, 0o644))
					must(r, os.WriteFile(filepath.Join(p, ".gosqlx"), body, 0o644))
				}
			}
		}
		for i := 0; i < levels; i++ {
			want := "Exec"
			open := false // a .git that is a file: whether it marks a project is left open
			for k := i; k >= 0; k-- {
				if ks[k] == "gitfile" {
					open = true
				}
				if strings.HasPrefix(ks[k], "git+") || ks[k] == "git" {
					if ks[k] == "git+conf" || ks[k] == "git+json" {
						want = fmt.Sprintf("level%d", k)
					}
					break
				}
			}
			for mode := 0; mode < 5; mode++ {
				var args []string
				w := want
				must(r, os.Chdir(d.dir))
				switch mode {
				case 0: // absolute flag
					args = []string{"-wd", dirs[i]}
				case 1: // the current directory
					must(r, os.Chdir(dirs[i]))
				case 2: // relative to a directory of the layout
					must(r, os.Chdir(dirs[0]))
					rel, _ := filepath.Rel(dirs[0], dirs[i])
					args = []string{"-wd", rel}
				case 3: // with an explicit file
					args = []string{"-wd", dirs[i], "-config", explicit}
					w = "explicit"
				case 4: // explicit file, relative
					must(r, os.Chdir(dirs[i]))
					rel, _ := filepath.Rel(dirs[i], explicit)
					args = []string{"-config", rel}
					w = "explicit"
				}
				c, err := parse(args)
				n++
				if err != nil {
					r.Violation(fmt.Sprintf("layout/%v/%d/%d", ks, i, mode), "directories %v, working directory number %d: %v", ks, i, err)
					continue
				}
				if open && mode < 3 {
					continue
				}
				r.Outcome("layout " + w)
				if c.MethodName.Value != w {
					r.Violation(fmt.Sprintf("layout/%v/%d/%d", ks, i, mode), "nested directories holding %v, working directory number %d (mode %d): method name is %q, want %q", ks, i, mode, c.MethodName.Value, w)
				}
			}
		}
	}
	must(r, os.RemoveAll(root))
	r.Add("layout_cases", n)
}

func must(r *vf.Run, err error) {
	if err != nil {
		r.Fatal("%v", err)
	}
}

func words(alpha string, n int) (out []string) {
	out = []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, a := range alpha {
				next = append(next, w+string(a))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// validate offers every bounded value of the options that are checked for form.
func (d *driver) validate() {
	r := d.r
	pg := r.StartPG()
	dsn := pg.DSN("postgres")
	root := filepath.Join(d.dir, "mod")
	must(r, os.MkdirAll(root, 0o755))
	must(r, os.WriteFile(filepath.Join(root, "go.mod"), []byte("module example.com/m\n\ngo 1.19\n"), 0o644))
	must(r, os.Mkdir(filepath.Join(root, "odd-dir"), 0o755))
	must(r, os.WriteFile(filepath.Join(root, "odd-dir", "p.go"), []byte("package odd\n\nimport (\n\t\"context\"\n\t\"database/sql\"\n)\n\n"+methods("T", -1, 0)), 0o644))
	types := map[string]bool{}
	var src strings.Builder
	src.WriteString("package m\n\nimport (\n\t\"context\"\n\t\"database/sql\"\n)\n\n")
	src.WriteString(methods("Good", -1, 0) + methods("GoodPtr", -1, 3) + iface("GoodI", -1, 0))
	types["example.com/m.Good"], types["*example.com/m.Good"], types["*example.com/m.GoodPtr"], types["example.com/m.GoodI"], types["*example.com/m.GoodI"] = true, true, true, true, false
	src.WriteString("type Embeds struct{ *sql.DB }\n\ntype EmbedsI struct{ GoodI }\n\ntype EmbedsIface interface {\n\tGoodI\n\tMore()\n}\n\ntype Shadows struct{ *sql.DB }\n\nfunc (Shadows) Exec() {}\n\n")
	types["*example.com/m.Embeds"], types["example.com/m.Embeds"], types["example.com/m.EmbedsI"], types["example.com/m.EmbedsIface"], types["*example.com/m.Shadows"] = true, true, true, true, false
	for i := 0; i < 6; i++ {
		for how := 0; how < 4; how++ {
			t, ti := fmt.Sprintf("B%d%d", i, how), fmt.Sprintf("I%d%d", i, how)
			if how == 3 {
				src.WriteString(methods(t, i, 3+4))
				types["*example.com/m."+t] = false
				continue
			}
			src.WriteString(methods(t, i, how) + iface(ti, i, how))
			types["example.com/m."+t], types["*example.com/m."+t], types["example.com/m."+ti] = false, false, false
		}
	}
	src.WriteString("type Empty struct{}\n\ntype Num int\n\nfunc Fn() {}\n\nvar V Good\n")
	for _, n := range []string{"Empty", "Num", "Fn", "V", "Missing", "good", ""} {
		types["example.com/m."+n] = false
	}
	types["example.com/missing.T"], types["*database/sql.DB"], types["*database/sql.Tx"], types["*database/sql.Conn"], types["*database/sql.Rows"] = false, true, true, false, false
	types["github.com/frk/gosql.Conn"], types["example.com/m/odd-dir.T"], types["/x.T"], types["*.T"] = true, true, false, false
	must(r, os.WriteFile(filepath.Join(root, "m.go"), []byte(src.String()), 0o644))
	must(r, os.Chdir(root))
	n := 0
	base := func() config.Config {
		c := config.DefaultConfig
		c.DatabaseDSN.Value = dsn
		c.WorkingDirectory.Value = root
		return c
	}
	verdict := func(key string, c *config.Config, legal bool, what string) bool {
		n++
		err := c.Validate()
		r.Outcome(fmt.Sprint(legal, strings.SplitN(key, "/", 2)[0]))
		switch {
		case legal && err != nil:
			r.Violation("validate/"+key, "%s is well-formed but reported: %v", what, err)
		case !legal && err == nil:
			r.Violation("validate/"+key, "%s is malformed and silently accepted", what)
		}
		return err == nil && legal
	}
	for _, w := range words("%sda_", 4) {
		c := base()
		c.OutputFileNameFormat.Value = w
		pct := strings.Count(w, "%")
		legal := pct == 0 || pct == 1 && strings.Contains(w, "%s")
		if w == "" {
			continue // would name the input
		}
		if verdict("format/"+w, &c, legal, fmt.Sprintf("output file name format %q", w)) {
			want := w
			if pct == 0 {
				want = "%s" + w
			}
			if c.OutputFileNameFormat.Value != want {
				r.Violation("validate/format/"+w, "output file name format %q becomes %q, want %q", w, c.OutputFileNameFormat.Value, want)
			}
		}
		if n%512 == 0 && r.Expired("formats") {
			return
		}
	}
	rx := regexp.MustCompile(`\A(?:[A-Za-z_][A-Za-z0-9_]*)?\z`)
	for _, w := range words("aZ_0- é\n", 3) {
		c := base()
		c.FilterColumnKeyTag.Value = w
		verdict("tag/"+q(w), &c, rx.MatchString(w), fmt.Sprintf("filter column key tag %q", w))
	}
	for _, w := range words("._%é\n\x00", 2) {
		c := base()
		c.FilterColumnKeySeparator.Value = w
		verdict("sep/"+q(w), &c, len(w) <= 1, fmt.Sprintf("filter column key separator %q", w))
	}
	for _, w := range words(`a*([\`, 3) {
		for pos := 0; pos < 3; pos++ {
			c := base()
			l := []string{"x", "y"}
			l = append(l[:pos:pos], append([]string{w}, l[pos:]...)...)
			c.InputFileRegexps.Value = l
			_, err := regexp.Compile(w)
			verdict(fmt.Sprintf("rx/%q/%d", w, pos), &c, err == nil, fmt.Sprintf("input file regexp %q", w))
		}
	}
	for _, w := range []string{"a.go", "./a.go", "sub/a.go", "../mod/a.go", filepath.Join(root, "a.go"), "sub/../a.go"} {
		for _, w2 := range []string{"", "b.go", "./sub/b.go"} {
			c := base()
			c.InputFiles.Value = []string{w}
			if w2 != "" {
				c.InputFiles.Value = append(c.InputFiles.Value, w2)
			}
			if verdict("f/"+w+","+w2, &c, true, "input file") {
				for i, x := range []string{w, w2}[:len(c.InputFiles.Value)] {
					want := x
					if !filepath.IsAbs(x) {
						want = filepath.Join(root, x)
					}
					if c.InputFiles.Value[i] != want {
						r.Violation("validate/f/"+w+","+w2, "input file %q becomes %q, want %q", x, c.InputFiles.Value[i], want)
					}
				}
			}
		}
	}
	for _, w := range []struct {
		dsn   string
		legal bool
	}{{dsn, true}, {pg.URL("postgres"), true}, {"", false}, {pg.DSN("nosuch"), false}, {"host=/nonexistent sslmode=disable", false}, {"nonsense", false}, {"postgres://%zz", false}} {
		c := base()
		c.DatabaseDSN.Value = w.dsn
		verdict("dsn/"+strings.ReplaceAll(w.dsn, vf.Work(), ""), &c, w.legal, "database DSN "+w.dsn)
	}
	for _, w := range []struct {
		wd    string
		legal bool
	}{{root, true}, {".", true}, {filepath.Join(root, "missing"), false}, {"missing", false}} {
		c := base()
		c.WorkingDirectory.Value = w.wd
		verdict("wd/"+strings.ReplaceAll(w.wd, vf.Work(), ""), &c, w.legal, "working directory "+w.wd)
		_, err := command.New(c)
		if (err == nil) != w.legal {
			r.Violation("validate/wd/new/"+strings.ReplaceAll(w.wd, vf.Work(), ""), "working directory %s: %v", w.wd, err)
		}
		must(r, os.Chdir(root))
	}
	var names []string
	for t := range types {
		names = append(names, t)
	}
	sort.Strings(names)
	for _, t := range names {
		c := base()
		if err := c.MethodArgumentType.Set(t); err != nil {
			if types[t] {
				r.Violation("validate/argtype/"+t, "method argument type %s is well-formed but reported: %v", t, err)
			}
			n++
			continue
		}
		if verdict("argtype/"+t, &c, types[t], "method argument type "+t) {
			if c.MethodArgumentType.String() != t {
				r.Violation("validate/argtype/"+t, "method argument type %s becomes %s", t, c.MethodArgumentType.String())
			}
			want := "m"
			switch {
			case strings.Contains(t, "database/sql"):
				want = "sql"
			case strings.Contains(t, "gosql"):
				want = "gosql"
			case strings.Contains(t, "odd"):
				want = "odd"
			}
			if c.MethodArgumentType.PkgName != want {
				r.Violation("validate/argtype/"+t, "package name of method argument type %s is %q, want %q", t, c.MethodArgumentType.PkgName, want)
			}
		}
	}
	r.Add("validated_values", n)
}

var sigs = [6][2]string{
	{"Exec", "(query string, args ...interface{}) (sql.Result, error)"},
	{"ExecContext", "(ctx context.Context, query string, args ...interface{}) (sql.Result, error)"},
	{"Query", "(query string, args ...interface{}) (*sql.Rows, error)"},
	{"QueryContext", "(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)"},
	{"QueryRow", "(query string, args ...interface{}) *sql.Row"},
	{"QueryRowContext", "(ctx context.Context, query string, args ...interface{}) *sql.Row"},
}

// spoil gives method i of a type whose method bad is missing (how 0), not variadic (1) or has another
// result (2).
func spoil(i, bad, how int) string {
	s := sigs[i][1]
	if i == bad {
		switch how {
		case 0:
			return ""
		case 1:
			return strings.Replace(s, "args ...interface{}", "args []interface{}", 1)
		case 2:
			s = strings.Replace(s, "sql.Result", "*sql.Stmt", 1)
			s = strings.Replace(s, "*sql.Rows", "*sql.Stmt", 1)
			return strings.Replace(s, "*sql.Row", "*sql.Stmt", 1)
		}
	}
	return s
}

func methods(name string, bad, how int) string {
	ptr := how&3 == 3
	if how > 3 {
		how = 0
	}
	s := "type " + name + " struct{}\n\n"
	rc := name
	if ptr {
		rc = "*" + name
	}
	for i := range sigs {
		if g := spoil(i, bad, how); g != "" {
			s += "func (" + rc + ") " + sigs[i][0] + g + " { panic(0) }\n"
		}
	}
	return s + "\n"
}

func iface(name string, bad, how int) string {
	s := "type " + name + " interface {\n"
	for i := range sigs {
		if g := spoil(i, bad, how); g != "" {
			s += "\t" + sigs[i][0] + g + "\n"
		}
	}
	return s + "}\n\n"
}

func main() {
	if s := os.Getenv("VF_C17_CHILD"); s != "" {
		args := strings.Split(s, "\x01")
		if _, err := parse(args[:len(args)-1]); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(0)
	}
	r := vf.Start()
	r.Level = "model_checking"
	d := &driver{r: r, opts: options(), dir: filepath.Join(vf.Work(), "c17")}
	d.file = filepath.Join(d.dir, "conf.json")
	must(r, os.MkdirAll(d.dir, 0o755))
	d.combos()
	r.Sample(map[string]any{"pair": "flag -r=false with recursive:true in the file and -qid absent with quote_identifiers:true", "want": "recursive false, quote_identifiers true"})
	d.malformed()
	d.layouts()
	d.validate()
	states := r.NOutcomes()
	r.Coverage["states"] = states
	r.Coverage["transitions"] = d.n
	r.Coverage["conformance_replays"] = d.n
	r.Coverage["scope"] = "every option alone with all flag and file alternatives, every ordered pair of options (thorough: all alternatives, and triples), every subset of options by flag over a full file and the reverse; every malformed value next to every flag alternative and every other option; every assignment of contents to three nested directories; every bounded output format, key tag, separator, regexp; every argument type form"
	r.Assumption("a flag given with an empty value where an empty value cannot be meant (bool, list, type) is left open, as is a .git that is a file and a directory holding both .gosql and .gosql.json")
	r.Finish()
}
