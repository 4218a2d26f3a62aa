package main

import (
	"fmt"
	"strings"

	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

// C20: for every composition of a filter declaration up to the bounds the column map, the methods
// and the nesting of the generated code are compared, by executing it, with a model of the rules.

// fnode is a field of a record type: a leaf (col) or a struct to be descended into (kids).
type fnode struct {
	name  string
	embed bool
	ptr   bool
	typ   string // Go type of a leaf; name of the struct type of an inner node ("" makes one up)
	col   string // leaf: column; inner node: prefix
	opts  string // further options of the sql tag
	tags  string // further tags
	kids  []*fnode
}

func (n *fnode) tag(key string) (val string, ok bool) {
	for _, t := range strings.Fields(n.tags) {
		if strings.HasPrefix(t, key+`:"`) {
			return strings.TrimSuffix(t[len(key)+2:], `"`), true
		}
	}
	return "", false
}

func (n *fnode) first(key string) string {
	v, _ := n.tag(key)
	v, _, _ = strings.Cut(v, ",")
	return v
}

// mode reports whether the field's own options exclude it from filters and make it NOT NULL.
func (n *fnode) mode() (excluded, notnull bool) {
	for _, o := range strings.Split(n.opts, ",") {
		switch {
		case o == "wo" || o == "xf":
			excluded = true
		case o == "nn":
			notnull = true
		case o != "" && (o[0] == '-' || o[0] == '+'):
			for _, c := range o[1:] {
				switch c {
				case 'r', 'f':
					excluded = o[0] == '-'
				case 'N':
					notnull = o[0] == '-'
				}
			}
		}
	}
	return
}

// keycfg is the configuration of the keys.
type keycfg struct {
	tag, sep string
	base     bool
	qid      bool
}

// filterKey is the public key of the leaf at the end of the path.
func filterKey(path []*fnode, k keycfg) string {
	leaf := path[len(path)-1]
	over, ok := leaf.tag("fck")
	if !ok {
		for i, n := range path[:len(path)-1] {
			if over, ok = n.tag("fck"); ok {
				path = path[i:]
				break
			}
		}
	}
	for _, o := range strings.Split(over, ",") {
		key, val, _ := strings.Cut(o, ":")
		switch {
		case !ok:
		case key == "tag":
			k.tag = val
		case key == "sep":
			k.sep = val
		case key == "base":
			k.base = val == "true"
		}
	}
	if k.base {
		path = path[len(path)-1:]
	}
	var parts []string
	for _, n := range path {
		part := n.name
		if k.tag != "" {
			part = n.first(k.tag)
		}
		switch part {
		case "-":
			return ""
		case "":
		default:
			parts = append(parts, part)
		}
	}
	return strings.Join(parts, k.sep)
}

// fcase is a filter declaration.
type fcase struct {
	key    string
	rel    string // default: filt:f
	relfmt string // the relation field, with % for the record type
	ctor   string // default: F vfrt.RecCtor
	ts     string // text search column
	v2     bool
	nullOK bool // the relation's columns are all nullable (views)
	extra  string
	fields []*fnode
	taken  []string // names that fields of the filter type occupy
	conv   map[string]string
	cfg    *Cfg
	kc     keycfg
	depth  int
	want   string // "" means the declaration is accepted
}

// filtInts are the integer columns.
var filtInts = strings.Fields("c0 c1 c2 c3 p_c0 p_c1 p_q_c0 p_q_c1")

var filtNotNull = map[string]bool{"id": true, "c1": true, "c3": true, "j1": true, "p_c1": true, "p_q_c1": true}
var filtCols = map[string]bool{}

const filtDDL = `CREATE TABLE filt (id int PRIMARY KEY, c0 int, c1 int NOT NULL, c2 int, c3 int NOT NULL, c4 text, j0 jsonb, j1 jsonb NOT NULL, j2 jsonb,
	ts timestamptz, doc tsvector, "group" int, "Mixed" int, p_c0 int, p_c1 int NOT NULL, p_c2 int, p_q_c0 int, p_q_c1 int NOT NULL, p_q_r_c0 int, q_c0 int, r_c0 int);
CREATE VIEW filt_view AS SELECT * FROM filt;
CREATE TABLE sec.filt (id int PRIMARY KEY, c0 int, c1 int NOT NULL);`

func init() {
	for _, c := range strings.Fields("id c0 c1 c2 c3 c4 j0 j1 j2 ts doc group Mixed p_c0 p_c1 p_c2 p_q_c0 p_q_c1 p_q_r_c0 q_c0 r_c0") {
		filtCols[c] = true
	}
}

type FilterSpec struct {
	Map     map[string]FilterCol `json:"map"`
	V2      bool                 `json:"v2"`
	TS      string               `json:"ts"`
	Methods []FilterMethod       `json:"methods"`
	Conv    map[string]string    `json:"conv"`
	Real    bool                 `json:"real"`
	Depth   int                  `json:"depth"`
	Embed   bool                 `json:"embed"`
	Ctor    string               `json:"ctor"`
}

type FilterCol struct {
	Name string `json:"name"`
	Null bool   `json:"null"`
	Conv string `json:"conv"`
}

type FilterMethod struct {
	Name string `json:"name"`
	Col  string `json:"col"`
	Type string `json:"type"`
}

var reservedFilterMethods = map[string]bool{"UnmarshalFQL": true, "UnmarshalSort": true, "TextSearch": true, "AND": true, "OR": true, "And": true, "Or": true, "Init": true}

// build makes the case: its declaration and what the model expects of the generated code.
func (f *fcase) build() *Case {
	rel := f.rel
	if rel == "" {
		rel = "filt:f"
	}
	quali := ""
	if _, a, ok := strings.Cut(rel, ":"); ok {
		quali = a + "."
		if a != strings.ToLower(a) {
			quali = `"` + a + `".`
		}
	}
	var extra strings.Builder
	ntype := 0
	var emit func(name string, kids []*fnode)
	emit = func(name string, kids []*fnode) {
		type sub struct {
			name string
			kids []*fnode
		}
		var later []sub
		fmt.Fprintf(&extra, "type %s struct {\n", name)
		for _, n := range kids {
			typ, sqltag := n.typ, n.col
			if n.kids != nil {
				sqltag = ">" + n.col
				if typ == "" {
					ntype++
					typ = fmt.Sprintf("%sx%d", name, ntype)
					if n.embed {
						typ = name + n.name
					}
					later = append(later, sub{typ, n.kids})
				}
				if n.embed {
					n.name = typ
					if i := strings.LastIndexByte(typ, '.'); i >= 0 {
						n.name = typ[i+1:]
					}
				}
				if n.ptr {
					typ = "*" + typ
				}
			}
			if n.opts != "" {
				sqltag += "," + n.opts
			}
			tags := fmt.Sprintf("sql:%q", sqltag)
			if n.col == "!none" {
				tags = ""
			}
			if n.tags != "" {
				tags += " " + n.tags
			}
			fname := n.name
			if n.embed {
				fname = ""
			}
			fmt.Fprintf(&extra, "\t%s %s `%s`\n", fname, typ, tags)
		}
		extra.WriteString("}\n\n")
		for _, s := range later {
			emit(s.name, s.kids)
		}
	}
	emit("R@", f.fields)

	spec := &FilterSpec{Map: map[string]FilterCol{}, V2: f.v2, Conv: f.conv, Depth: f.depth}
	taken := map[string]bool{}
	for _, t := range f.taken {
		taken[t] = true
	}
	var walk func(path []*fnode, kids []*fnode, pfx string)
	walk = func(path []*fnode, kids []*fnode, pfx string) {
		for _, n := range kids {
			p := append(append([]*fnode(nil), path...), n)
			if n.kids != nil {
				walk(p, n.kids, pfx+n.col)
				continue
			}
			ex := !filtCols[pfx+n.col]
			method := ""
			nn := false
			for _, m := range p {
				var x bool
				x, nn = m.mode()
				ex = ex || x
				method += m.name
			}
			nn = nn || filtNotNull[pfx+n.col] && !f.nullOK
			if ex {
				continue
			}
			col := pfx + n.col
			if f.kc.qid {
				col = `"` + col + `"`
			}
			col = quali + col
			if k := filterKey(p, f.kc); k != "" {
				if _, dup := spec.Map[k]; !dup {
					spec.Map[k] = FilterCol{Name: col, Null: f.v2 && !nn, Conv: f.conv[n.typ]}
				}
			}
			if reservedFilterMethods[method] || taken[method] {
				continue
			}
			taken[method] = true
			spec.Methods = append(spec.Methods, FilterMethod{Name: method, Col: col, Type: methodType(n.typ)})
		}
	}
	walk(nil, f.fields, "")

	relfmt := f.relfmt
	if relfmt == "" {
		relfmt = "_ *%"
	}
	ctor := f.ctor
	if ctor == "" {
		ctor = "F vfrt.RecCtor"
	}
	parts := strings.Fields(ctor)
	spec.Embed = len(parts) == 1
	spec.Ctor = parts[0]
	if i := strings.LastIndexByte(spec.Ctor, '.'); i >= 0 {
		spec.Ctor = spec.Ctor[i+1:]
	}
	spec.Real = strings.HasSuffix(ctor, "filter.Constructor")
	if f.v2 {
		ctor += " `filter:\"v2\"`"
	}
	body := strings.Replace(relfmt, "%", "R@", 1) + " `rel:\"" + rel + "\"`\n"
	if f.ts != "" {
		body += "_ gosql.TextSearch `sql:\"" + f.ts + "\"`\n"
		name := f.ts[strings.LastIndexByte(f.ts, '.')+1:]
		spec.TS = name
		if f.kc.qid {
			spec.TS = `"` + name + `"`
		}
		if i := strings.LastIndexByte(f.ts, '.'); i >= 0 {
			spec.TS = quali + spec.TS
		}
	}
	body += ctor
	c := &Case{Key: f.key, Kind: "Filter", Raw: true, Body: "type @ struct {\n" + body + "\n}\n", Extra: extra.String() + f.extra,
		Cfg: f.cfg, Want: f.want, Job: &Job{Mode: "filter", Filter: spec}}
	if f.cfg != nil {
		c.Group = f.cfg.Name
	}
	var regs strings.Builder
	regs.WriteString("func init() {\n\tvfrt.RegisterFilter(\"@\", vfrt.FilterEntry{\n\tNew: func() any { return new(@) },\n\tMethods: map[string]any{\n")
	for _, m := range spec.Methods {
		fmt.Fprintf(&regs, "\t\t%q: (*@).%s,\n", m.Name, m.Name)
	}
	regs.WriteString("\t},\n\tTypes: map[string]reflect.Type{\n")
	for _, m := range spec.Methods {
		fmt.Fprintf(&regs, "\t\t%q: vfrt.TypeOf[%s](),\n", m.Name, m.Type)
	}
	regs.WriteString("\t},\n\t})\n}\n")
	c.Init = regs.String()
	// the names of types made up from the declaration's name
	c.named = func(name string) {
		sub := func(s string) string { return strings.ReplaceAll(s, "@", name) }
		m := map[string]FilterCol{}
		for k, v := range spec.Map {
			m[sub(k)] = v
		}
		spec.Map, spec.Ctor = m, sub(spec.Ctor)
		for i := range spec.Methods {
			spec.Methods[i].Name = sub(spec.Methods[i].Name)
		}
	}
	return c
}

// methodType is the type of the value a field's method takes: anything for types without a name
// that could be repeated.
func methodType(t string) string {
	if strings.Contains(t, "struct{") || strings.Contains(t, "interface{ ") {
		return "any"
	}
	return strings.TrimPrefix(t, "*")
}

func c20(r *vf.Run) {
	schemaPost = append(schemaPost, filtDDL)
	dsn, dsns := setupDB(r, nworkers)
	p := newPipe(r, dsn, typesSrc("")+bt(c20Types))
	p.perPkg = 400
	keys := map[string]bool{}
	var cases []*Case
	nmap, nmeth := 0, 0
	for _, f := range c20Cases(r) {
		c := f.build()
		if keys[c.Key] {
			continue
		}
		keys[c.Key] = true
		cases = append(cases, c)
	}
	for _, c := range filtered(r, cases) {
		if c.Cfg != nil && c.Cfg.Files != nil {
			for n, t := range c.Cfg.Files {
				p.write(n, t)
			}
		}
		p.Add(c)
		c.named(c.Name)
		nmap += len(c.Job.Filter.Map)
		nmeth += len(c.Job.Filter.Methods)
	}
	r.Add("declarations", len(p.cases))
	r.Add("map_entries", nmap)
	r.Add("methods", nmeth)
	runPipe(r, p, dsns)
	for _, c := range p.cases {
		if c.Err != nil && c.Want != "reject" {
			r.Violation(c.Key, "legal, but rejected: %s\n%s%s", clip(plain(c.ErrText), 500), c.decl(), c.Extra)
		}
	}
}

const c20Types = `
type FStr string
type FInt int
type FStruct struct{ A int }
type FSlice []FInt
type FGen[T any] []T
type FGen2[T, U any] struct{ A T }
type FTree map[string]FTree

func FConvStr(v any) (any, error) { return v, nil }
`

func fleaf(name, col string, more ...string) *fnode {
	n := &fnode{name: name, typ: "int", col: col}
	for _, m := range more {
		if strings.Contains(m, ":\"") {
			n.tags = strings.TrimSpace(n.tags + " " + m)
		} else {
			n.opts = m
		}
	}
	return n
}

func inner(name, pfx string, tags string, kids ...*fnode) *fnode {
	return &fnode{name: name, col: pfx, tags: tags, kids: kids}
}

func keyCfg(k keycfg, set ...func(*config.Config)) *Cfg {
	return &Cfg{Name: fmt.Sprintf("tag=%s,sep=%s,base=%v,qid=%v", k.tag, k.sep, k.base, k.qid), Set: func(c *config.Config) {
		c.FilterColumnKeyTag.Value = k.tag
		c.FilterColumnKeySeparator.Value = k.sep
		c.FilterColumnKeyBase.Value = k.base
		c.QuoteIdentifiers.Value = k.qid
		for _, s := range set {
			s(c)
		}
	}}
}

func c20Cases(r *vf.Run) (out []*fcase) {
	depth := 2
	if r.Thorough() {
		depth = 3
	}
	stdCfg := [2]*Cfg{keyCfg(keycfg{"json", ".", false, true}), keyCfg(keycfg{"json", ".", false, false})}
	add := func(f *fcase) *fcase {
		if f.depth == 0 {
			f.depth = 2
		}
		if f.cfg == nil {
			f.kc = keycfg{"json", ".", false, len(out)%2 == 0}
			f.cfg = stdCfg[len(out)%2]
		}
		out = append(out, f)
		return f
	}
	// 1. keys: every chain of tagged, untagged and excluded levels, under every configuration
	cfgs := map[keycfg]*Cfg{}
	var order []keycfg
	for _, tag := range []string{"json", "", "alt", "none"} {
		for _, sep := range []string{".", "-", ""} {
			for _, base := range []bool{false, true} {
				k := keycfg{tag, sep, base, base}
				if !r.Thorough() && (tag == "alt" && sep != "." || tag == "none" && (sep != "." || base)) {
					continue
				}
				cfgs[k] = keyCfg(k)
				order = append(order, k)
			}
		}
	}
	tagv := func(v string) string {
		switch v {
		case "0":
			return ""
		case "-":
			return `json:"-" alt:"a"`
		case "e":
			return `json:",omitempty" alt:"b"`
		}
		return fmt.Sprintf(`json:"%s,omitempty" alt:"%sa"`, v, v)
	}
	levels := []string{"0", "-", "e", "v"}
	for _, k := range order {
		for d := 0; d <= depth; d++ {
			choices := make([]int, d+1)
			n := 1
			for range choices {
				n *= len(levels)
			}
			for i := 0; i < n; i++ {
				x := i
				name := ""
				for j := range choices {
					choices[j] = x % len(levels)
					x /= len(levels)
					name += levels[choices[j]]
				}
				tv := func(j int) string {
					v := levels[choices[j]]
					if v == "v" {
						v = string(rune('m' + j))
					}
					return tagv(v)
				}
				fields := []*fnode{fleaf("X", "c0", tv(d)), fleaf("Y", "c1", `json:"y" alt:"z"`)}
				if tv(d) == "" {
					fields[0] = fleaf("X", "c0")
				}
				for j := d - 1; j >= 0; j-- {
					in := inner(string(rune('A'+j)), "", tv(j), fields...)
					in.ptr = (i+j)%2 == 0
					in.embed = (i/2+j)%3 == 0
					fields = []*fnode{in}
				}
				add(&fcase{key: fmt.Sprintf("keys/%s/%s", cfgs[k].Name, name), cfg: cfgs[k], kc: k, fields: fields, v2: i%3 == 0})
			}
		}
	}
	// 2. overrides: on every level, alone and in pairs
	overs := []string{"", "tag:alt", "tag:", "sep:_", "sep:", "base:true", "base:false", "tag:alt,sep:/,base:true", "tag:,sep:_", "tag:none", "base:true,tag:", "sep:_,tag:alt"}
	fck := func(o string) string {
		if o == "" {
			return ""
		}
		return fmt.Sprintf(` fck:"%s"`, o)
	}
	k2 := []keycfg{{"json", ".", false, false}, {"json", "-", true, true}, {"", ".", false, false}}
	if r.Thorough() {
		k2 = append(k2, keycfg{"", "-", true, true}, keycfg{"alt", ".", false, false}, keycfg{"json", "", false, false})
	}
	for _, k := range k2 {
		for i0, o0 := range overs {
			for i1, o1 := range overs {
				for i2, o2 := range overs {
					nz := 0
					for _, o := range []string{o0, o1, o2} {
						if o != "" {
							nz++
						}
					}
					if nz == 3 && !r.Thorough() {
						continue
					}
					lx := fleaf("X", "c0", `json:"x,omitempty" alt:"ax"`+fck(o2))
					ly := fleaf("Y", "c1", `json:"y" alt:"ay"`)
					add(&fcase{key: fmt.Sprintf("over/%s/%d.%d.%d", cfgs[k].Name, i0, i1, i2), cfg: cfgs[k], kc: k, v2: nz == 1, fields: []*fnode{
						inner("A", "", `json:"a" alt:"aa"`+fck(o0), inner("B", "", `json:"b" alt:"ab"`+fck(o1), lx, ly), fleaf("Z", "c2", `json:"z" alt:"az"`)),
						fleaf("W", "c3", `json:"w" alt:"aw"`),
					}})
				}
			}
		}
	}
	// deep trees with siblings on every level: the chains of the leaves must not get mixed up
	for _, k := range order {
		for shape := 0; shape < 4; shape++ {
			nleaf := 0
			var tree func(name string, d int) []*fnode
			tree = func(name string, d int) (out []*fnode) {
				for b := 0; b < 2; b++ {
					n := name + string(rune('A'+b))
					tags := fmt.Sprintf(`json:"%s" alt:"%sa"`, strings.ToLower(n), strings.ToLower(n))
					if d == 0 || shape == 1 && b == 0 && d < 3 || shape == 2 && b == 1 {
						out = append(out, fleaf(n, filtInts[nleaf%len(filtInts)], tags))
						nleaf++
						continue
					}
					in := inner(n, "", tags, tree(n, d-1)...)
					in.ptr = (b+d+shape)%2 == 0
					out = append(out, in)
				}
				return
			}
			d := 3
			if shape == 2 {
				d = 6
			} else if shape == 1 || shape == 3 && r.Thorough() {
				d = 4
			}
			add(&fcase{key: fmt.Sprintf("deep/%s/%d", cfgs[k].Name, shape), cfg: cfgs[k], kc: k, fields: tree("", d), v2: shape%2 == 0})
		}
	}
	// 3. collisions of keys and of methods, in every order
	pool := func() []*fnode {
		return []*fnode{
			fleaf("X", "c0", `json:"k"`),
			fleaf("Y", "c1", `json:"k"`),
			fleaf("AX", "c2", `json:"a.k"`),
			inner("A", "", `json:"a"`, fleaf("X", "c3", `json:"k"`)),
			inner("B", "p_", `json:"a"`, fleaf("X", "c0", `json:"k"`), inner("A", "q_", `json:"-"`, fleaf("X", "c0"))),
			{name: "E", embed: true, ptr: true, col: "p_", kids: []*fnode{fleaf("X", "c1", `json:"k"`), fleaf("V", "c2", `json:"v"`)}},
			inner("BA", "p_", "", fleaf("X", "q_c1", `json:"k"`)),
		}
	}
	np := len(pool())
	var perms func(cur []int)
	maxp := 2
	if r.Thorough() {
		maxp = 3
	}
	perms = func(cur []int) {
		if len(cur) > 0 {
			p := pool()
			var fs []*fnode
			name := ""
			for _, i := range cur {
				fs = append(fs, p[i])
				name += fmt.Sprint(i)
			}
			for _, k := range []keycfg{{"json", ".", false, false}, {"json", ".", true, true}, {"", "", false, false}} {
				if cfgs[k] == nil {
					cfgs[k] = keyCfg(k)
				}
				add(&fcase{key: fmt.Sprintf("collide/%s/%s", cfgs[k].Name, name), cfg: cfgs[k], kc: k, fields: fs, v2: len(cur) == 2 && cur[0] > cur[1]})
			}
		}
		if len(cur) == maxp {
			return
		}
		for i := 0; i < np; i++ {
			used := false
			for _, j := range cur {
				used = used || i == j
			}
			if !used {
				perms(append(append([]int(nil), cur...), i))
			}
		}
	}
	perms(nil)
	// 4. names that are taken
	for _, n := range []string{"And", "Or", "Init", "AND", "OR", "UnmarshalFQL", "UnmarshalSort", "TextSearch", "InitV2", "Col", "F", "User", "String", "Filter", "ToSQL", "f", "op", "val", "nest", "nil", "string"} {
		for _, ctor := range []string{"F vfrt.RecCtor", "vfrt.RecCtor", "F filter.Constructor", "filter.Constructor"} {
			for _, nested := range []bool{false, true} {
				fs := []*fnode{fleaf(n, "c0", `json:"n"`), fleaf("Other", "c1", `json:"o"`)}
				if nested {
					if len(n) < 2 {
						continue
					}
					fs = []*fnode{inner(n[:1], "", "", fleaf(n[1:], "c0", `json:"n"`)), fleaf("Other", "c1", `json:"o"`)}
				}
				taken := []string{"User", "F"}
				if !strings.HasPrefix(ctor, "F") {
					taken = []string{"User", ctor[strings.LastIndexByte(ctor, '.')+1:]}
				}
				add(&fcase{key: fmt.Sprintf("taken/%s/%s/%v", n, ctor, nested), relfmt: "User *%", ctor: ctor, fields: fs, taken: taken, v2: nested})
			}
		}
	}
	// 5. exclusion, modes and nullability on every level
	opts := []string{"", "xf", "-f", "-rf", "+f", "nn", "ro", "wo", "-wr", "pk", "nn,xf", "-N", "ro,nn", "-i", "nullempty", "json,nn", "coalesce", "default"}
	for _, o := range opts {
		for _, po := range []string{"", "xf", "-f", "ro", "wo", "-wr", "nn"} {
			for _, v2 := range []bool{false, true} {
				in := inner("P", "p_", `json:"p"`, fleaf("X", "c0", `json:"x"`, o), fleaf("Y", "c1", `json:"y"`), inner("Q", "q_", `json:"q"`, fleaf("X", "c0", `json:"x"`), fleaf("Y", "c1", `json:"y"`, o)))
				in.opts = po
				add(&fcase{key: fmt.Sprintf("modes/%s/%s/%v", o, po, v2), v2: v2, fields: []*fnode{in, fleaf("Z", "c2", `json:"z"`, o), fleaf("W", "c3", `json:"w"`)}})
			}
		}
	}
	// 6. relations, constructors, text search
	base := func() []*fnode {
		return []*fnode{fleaf("ID", "id", `json:"id"`), fleaf("G", "group", `json:"g"`), fleaf("M", "Mixed", `json:"m"`), fleaf("N", "nocol", `json:"nocol"`),
			fleaf("U", "!none", `json:"u"`), inner("P", "p_", `json:"p"`, fleaf("C", "c0", `json:"c"`))}
	}
	for _, rel := range []string{"filt", "filt:f", "public.filt", "public.filt:f", "filt_view", "filt_view:v", "sec.filt:s", "filt:filt", "filt:F"} {
		for _, relfmt := range []string{"_ *%", "_ %", "Rec *%", "_ []*%", "_ []%", "_ func(*%) error"} {
			for _, ctor := range []string{"vfrt.RecCtor", "F vfrt.RecCtor", "F filter.Constructor", "filter.Constructor"} {
				for _, ts := range []string{"", "doc", "@.doc"} {
					for _, v2 := range []bool{false, true} {
						name, alias, has := strings.Cut(rel, ":")
						f := &fcase{key: fmt.Sprintf("rel/%s/%s/%s/%s/%v", rel, relfmt, ctor, ts, v2), rel: rel, relfmt: relfmt, ctor: ctor, v2: v2, fields: base(), nullOK: strings.Contains(rel, "view")}
						f.ts = ts
						if ts != "" && (has && ts == "doc" || !has && ts != "doc") {
							continue // see C15 and C16
						}
						if ts != "" {
							f.ts = strings.Replace(ts, "@", alias, 1)
						}
						if name == "sec.filt" {
							if ts != "" {
								continue
							}
							f.fields = []*fnode{fleaf("ID", "id", `json:"id"`), fleaf("C", "c0", `json:"c"`)}
						}
						if strings.Contains(relfmt, "func") {
							f.want = "reject"
						}
						add(f)
					}
				}
			}
		}
	}
	// 7. the types of the methods' values
	for i, t := range []string{"int", "*int", "int64", "uint8", "byte", "rune", "float32", "bool", "string", "*string", "[]int", "[]*int", "[]string", "[]byte", "*[]byte", "[2]int", "[4]byte", "[][]byte", "map[string]int", "map[string]*int", "**int",
		"time.Time", "*time.Time", "[]time.Time", "map[string]time.Time", "net.IP", "[]net.IP", "json.RawMessage", "big.Int", "*big.Int", "[]big.Int", "ext.Rec", "*ext.Rec", "[]ext.Rec", "[]*ext.Rec", "[2]ext.Rec", "map[string]ext.Rec", "map[ext.Str]ext.Rec", "map[ext.Str]*ext2.Rec", "map[ext2.Rec]ext.Rec",
		"ext2.Rec", "*ext2.Rec", "[]ext2.Rec", "map[string][]ext2.Rec", "ext.Str", "*ext.Str", "FStr", "*FStr", "FInt", "[]FInt", "map[FStr]FInt", "FStruct", "*FStruct", "[]FStruct", "FSlice", "[]FSlice", "FTree", "[]FTree", "FGen[int]", "*FGen[FStr]", "FGen[ext.Rec]", "map[string]FGen[*ext2.Rec]", "FGen2[time.Time, FGen[map[string]ext2.Rec]]", "[]FGen[any]", "FGen[error]", "FGen2[*[]byte, [3]rune]", "map[string]ext.Str", "interface{}", "any", "[]any", "map[string]any", "*any", "error", "struct{}", "struct{ A int }", "[]struct{ A, B int }", "*struct{ A ext.Str }", "interface{ M() }", "map[struct{ A int }]int", "sql.NullString", "[]sql.NullString"} {
		pair := []string{"", "ext2.Rec", "ext.Rec", "time.Time"}
		for j, o := range pair {
			fs := []*fnode{{name: "X", typ: t, col: "j0", tags: `json:"x"`}}
			if o != "" {
				fs = append(fs, &fnode{name: "Y", typ: o, col: "j1", tags: `json:"y"`}, &fnode{name: "Z", typ: t, col: "j2", tags: `json:"z"`})
			}
			if (j == 2 || j == 3) && !r.Thorough() && !strings.Contains(t, "ext") {
				continue
			}
			if j >= 1 {
				fs[0], fs[1] = fs[1], fs[0]
			}
			add(&fcase{key: fmt.Sprintf("types/%s/%s", t, o), fields: fs, v2: i%2 == 0})
		}
	}
	// 8. value converters, of one configuration and not of the others
	for i, cc := range []struct {
		name string
		conv [][2]string
	}{
		{"none", nil},
		{"ext", [][2]string{{"vfx/ext.Str", "vfx/ext.ConvStr"}, {"vfx/ext.Rec", "vfx/ext.ConvRec"}}},
		{"ext2", [][2]string{{"vfx/ext2/ext.Rec", "vfx/ext2/ext.ConvRec"}, {"vfx/ext.Str", "vfx/ext2/ext.ConvRec"}}},
		{"std", [][2]string{{"time.Time", "vfx/ext.ConvRec"}, {"encoding/json.RawMessage", "vfx/ext2/ext.ConvRec"}}},
		{"paths", [][2]string{{"vfx/ext.Str", "vfx/conv/v2.Fn"}, {"vfx/ext.Rec", "vfx/go-conv.Fn"}, {"time.Time", "vfx/misc/util.Fn"}, {"encoding/json.RawMessage", "vfx/x/gosql.Fn"}, {"vfx/ext2/ext.Rec", "vfx/x/filter.Fn"}}},
		{"paths2", [][2]string{{"vfx/ext.Str", "vfx/x/v3.Fn"}, {"vfx/ext.Rec", "vfx/y/v3.Fn"}, {"time.Time", "vfx/x/type.Fn"}, {"encoding/json.RawMessage", "vfx/x/1st.Fn"}, {"vfx/ext2/ext.Rec", "vfx/x/conv.Fn"}}},
		{"none2", nil},
	} {
		k := keycfg{"json", ".", false, i%2 == 0}
		conv := map[string]string{}
		var fvc []config.FilterValueConverter
		for _, c := range cc.conv {
			var v config.FilterValueConverter
			if err := v.Type.Set(c[0]); err != nil {
				r.Violation("conv/"+cc.name+"/"+c[0], "the type of a value converter is not accepted: %v", err)
			}
			if err := v.Func.Set(c[1]); err != nil {
				r.Violation("conv/"+cc.name+"/"+c[1], "the function of a value converter is not accepted: %v", err)
			}
			fvc = append(fvc, v)
			t := strings.TrimPrefix(strings.TrimPrefix(c[0], "vfx/"), "encoding/")
			conv[strings.Replace(t, "ext2/ext", "ext2", 1)] = c[1]
		}
		cfg := keyCfg(k, func(c *config.Config) { c.FilterValueConverters = fvc })
		cfg.Name += "," + cc.name
		ts := []string{"ext.Str", "ext.Rec", "ext2.Rec", "time.Time", "json.RawMessage", "string", "FStr", "[]ext.Str"}
		for a := range ts {
			for b := range ts {
				for _, v2 := range []bool{true, false} {
					f := &fcase{key: fmt.Sprintf("conv/%s/%s/%s/%v", cc.name, ts[a], ts[b], v2), cfg: cfg, kc: k, v2: v2, conv: conv}
					if !v2 {
						f.conv = nil
					}
					f.fields = []*fnode{{name: "X", typ: ts[a], col: "j0", tags: `json:"x"`}, {name: "Y", typ: ts[b], col: "j1", tags: `json:"y"`}, inner("P", "p_", "", fleaf("C", "c0", `json:"c"`))}
					add(f)
				}
			}
		}
	}
	// 9. type aliases, embedding and promotion
	for _, c := range []struct{ name, rel, ctor, extra string }{
		{"alias-rec", "_ *Al@", "", "type Al@ = R@\n"},
		{"alias-ptr", "_ Al@", "", "type Al@ = *R@\n"},
		{"alias-slice", "_ Al@", "", "type Al@ = []*R@\n"},
		{"alias-elem", "_ []Al@", "", "type Al@ = *R@\n"},
		{"named-slice", "_ Sl@", "", "type Sl@ []*R@\n"},
		{"anon", "_ struct{ X int `sql:\"c0\" json:\"n\"`; Other int `sql:\"c1\" json:\"o\"` }", "", ""},
		{"alias-ctor", "", "F Ct@", "type Ct@ = vfrt.RecCtor\n"},
		{"promoted-ctor", "", "F Ct@", "type Ct@ struct{ vfrt.RecCtor }\n"},
		{"embed-promoted-ctor", "", "Ct@", "type Ct@ struct{ vfrt.RecCtor }\n"},
	} {
		f := &fcase{key: "forms/" + c.name, relfmt: c.rel, ctor: c.ctor, extra: c.extra, fields: []*fnode{fleaf("X", "c0", `json:"n"`), fleaf("Other", "c1", `json:"o"`)}}
		add(f)
	}
	for _, t := range []string{"type T@ = int", "type T@ = time.Time", "type T@ = ext.Str", "type T@ = []ext.Rec", "type T@ = *ext2.Rec", "type T@ = any", "type T@ = FStr"} {
		_, typ, _ := strings.Cut(t, "= ")
		n := &fnode{name: "X", typ: "T@", col: "j0", tags: `json:"x"`}
		if strings.HasPrefix(typ, "*") {
			continue
		}
		add(&fcase{key: "alias/" + typ, extra: t + "\n", v2: true, fields: []*fnode{n, fleaf("Y", "c0")}})
	}
	return out
}
