package main

import (
	"fmt"
	"strings"

	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

// C10: every accepted declaration yields compiling code with valid SQL.
//
// All compositions of features (those of C15 that are legal, and more of them) go through the tool;
// what is accepted is generated, checked for form, compiled together with its package and executed
// against the database with several fillings of its fields.

// liveCfgs are the configurations of the methods.
var liveCfgs = []*Cfg{
	nil,
	{Name: "quote", Set: func(c *config.Config) { c.QuoteIdentifiers = on }},
	{Name: "ctx", Set: func(c *config.Config) { c.MethodWithContext = on }, Exec: "Exec(e.Ctx, e.Conn)"},
	{Name: "tx", Set: func(c *config.Config) {
		c.MethodArgumentType = config.GoType{Name: "Tx", PkgPath: "database/sql", PkgName: "sql", IsPtr: true, IsSet: true}
	}, Exec: "Exec(e.Tx)"},
	{Name: "all", Set: func(c *config.Config) {
		c.QuoteIdentifiers, c.MethodWithContext = on, on
		c.MethodArgumentType = config.GoType{Name: "Querier", PkgPath: "vfx/vfrt", PkgName: "vfrt", IsSet: true}
		c.MethodName = config.String{Value: "Run", IsSet: true}
	}, Exec: "Run(e.Ctx, e.Conn)"},
}

var on = config.Bool{Value: true, IsSet: true}

// live makes the case one that is executed with filled values.
func live(c *Case, cfg *Cfg) *Case {
	n := *c
	sp := &LiveSpec{}
	n.Job = &Job{Mode: "live", Live: sp}
	n.Want = ""
	if cfg != nil {
		n.Cfg = cfg
		n.Group = cfg.Name
		n.Key = cfg.Name + ":" + n.Key
	}
	if strings.Contains(n.Body, "gosql.Filter") {
		switch {
		case strings.Contains(n.Body, ":r\""):
			sp.Filter = " WHERE r.id > ? AND r.txt <> ?"
		case strings.Contains(n.Body, ":i\""):
			sp.Filter = " WHERE i.key > ? AND i.name <> ?"
		}
		sp.Args = []any{1, "x"}
	}
	if n.Kind != "Filter" && (strings.Contains(n.Body, "ItemIter") || strings.Contains(n.Body, "GenIter[Item]")) && n.Init == "" {
		n.Init = "q.Rel = itemSink{s}"
	}
	return &n
}

const c10Types = `
type itemSink struct{ s *vfrt.Sink }
func (i itemSink) Next(v *Item) error { return i.s.Row(v) }
type itemA struct{ s *vfrt.Sink }
func (i itemA) A(v Item) error { return i.s.Row(v) }
`

// the records of the sections on relations and names
const c10RelTypes = `
type Mini struct {
	ID   int    ~sql:"id"~
	Num  *int   ~sql:"num"~
	Txt  string ~sql:"txt"~
	Flag bool   ~sql:"flag"~
}
type MiniNoKey struct {
	Num  *int   ~sql:"num"~
	Txt  string ~sql:"txt"~
	Flag bool   ~sql:"flag"~
}
type MiniR struct {
	ID   int    ~sql:"r.id"~
	Num  *int   ~sql:"r.num"~
	Flag bool   ~sql:"flag"~
	Age  *int   ~sql:"k.age,ro"~
	KNum int    ~sql:"k.num,ro"~
}
type Word struct {
	ID    int ~sql:"id"~
	Group int ~sql:"group"~
	Mixed *int ~sql:"Mixed"~
	Sel   string ~sql:"select"~
}
`

var c10DDL = `CREATE SCHEMA app;
CREATE TABLE app."order" (id int PRIMARY KEY, "group" int, "Mixed" int, "select" text, UNIQUE ("group"), UNIQUE ("Mixed", "select"));
CREATE TABLE "Users" (id int PRIMARY KEY, "group" int, "Mixed" int, "select" text, UNIQUE ("group"), UNIQUE ("Mixed", "select"));
CREATE TABLE "user" (id int PRIMARY KEY, "group" int, "Mixed" int, "select" text, UNIQUE ("group"), UNIQUE ("Mixed", "select"));
CREATE TABLE plain (id int PRIMARY KEY, "group" int, "Mixed" int, "select" text, UNIQUE ("group"), UNIQUE ("Mixed", "select"));
INSERT INTO app."order" VALUES (1,2,3,'a'),(2,NULL,NULL,NULL);
INSERT INTO "Users" SELECT * FROM app."order";
INSERT INTO "user" SELECT * FROM app."order";
INSERT INTO plain SELECT * FROM app."order";
CREATE VIEW app."View" AS SELECT * FROM plain`

func c10(r *vf.Run) {
	schemaPost = append(schemaPost, filtDDL, c10DDL)
	dsn, dsns := setupDB(r, nworkers)
	names := map[string]string{}
	for _, n := range c10Pkgs {
		names["n/"+n+"/"+n+".go"] = bt("package " + n + "\n\ntype Rec struct {\n\tID int ~sql:\"id\"~\n\tArr []int ~sql:\"arr\"~\n\tSub *Sub ~sql:\">\"~\n}\n\ntype Sub struct {\n\tTxt string ~sql:\"txt\"~\n}\n\ntype Num int\n")
	}
	pipe := func(types string, cases []*Case) {
		cases = filtered(r, cases)
		if len(cases) == 0 {
			return
		}
		p := newPipe(r, dsn, types)
		if strings.Contains(types, "type NameMark int") {
			for f, text := range names {
				p.write(f, text)
			}
			for _, n := range c10Pkgs {
				p.imports += "\tx" + n + " \"vfx/n/" + n + "\"\n"
				p.uses += "\t_ x" + n + ".Rec\n"
			}
		}
		for _, c := range cases {
			p.Add(c)
		}
		r.Add("declarations", len(p.cases))
		runPipe(r, p, dsns)
	}
	pipe(bt(c15Types+vfTypes+c10Types), c10Cases(r))
	pipe(bt(c10RelTypes+vfTypes), append(append(c10Shared(r), c10Arrays(r)...), c10Idents(r)...))
	pipe(typesSrc(""), c10Queries(r))
	var locals, others []*Case
	for _, c := range c10Names(r) {
		if strings.HasPrefix(c.Key, "name/type/") {
			locals = append(locals, c)
		} else {
			others = append(others, c)
		}
	}
	pipe(bt(c10NameTypes+vfTypes), others)
	pipe(bt(c10LocalTypes+vfTypes), locals)
	pipe(bt(c10FilterTypes+vfTypes), c10Filters(r))
}

// c10Cases are the compositions of features.
func c10Cases(r *vf.Run) (out []*Case) {
	n := 0
	for _, c := range c15Cases(r) {
		if c.Want == "reject" || c.Kind == "Filter" || c.Key == "recursive/json/TreePtr" {
			continue // (encoding/json does not return when it decodes into a type P *P)
		}
		if c.Key == "record/iface" {
			c.Init = "q.Rel = itemA{s}"
		}
		out = append(out, live(c, nil))
		if strings.HasPrefix(c.Key, "ident/") || strings.HasPrefix(c.Key, "relid/") {
			continue
		}
		n++
		for i, cfg := range liveCfgs[1:] {
			if r.Thorough() || n%(len(liveCfgs)-1) == i {
				out = append(out, live(c, cfg))
			}
		}
	}
	return out
}

// c10Queries are the queries of C11, C12 and C13 under the configurations.
func c10Queries(r *vf.Run) (out []*Case) {
	n := 0
	for k, cs := range [][]*Case{c11Cases(r), c12Cases(r), c13Cases(r)} {
		for _, c := range cs {
			if c.Cfg != nil {
				continue
			}
			c.Key = fmt.Sprintf("c1%d/%s", k+1, c.Key)
			n++
			for i, cfg := range liveCfgs[1:] {
				if r.Thorough() || n%(len(liveCfgs)-1) == i {
					out = append(out, live(c, cfg))
				}
			}
		}
	}
	return out
}

// c10Shared: queries of several relations that share names of columns.
func c10Shared(r *vf.Run) (out []*Case) {
	add := func(key, kind, body string) {
		out = append(out, live(&Case{Key: "shared/" + key, Kind: kind, Body: body}, nil))
	}
	type rel struct{ id, q string }
	targets := []rel{{"recs:r", "r"}, {"recs", "recs"}, {"sec.recs:s", "s"}, {"sec.recs", "recs"}, {"public.recs:r", "r"}}
	joins := []rel{{"kids:k", "k"}, {"kids", "kids"}, {"public.kids:k", "k"}}
	items := func(t, k string) []string {
		return []string{
			"X int `sql:\"num\"`", "X int `sql:\"" + t + ".num >\"`", "X []string `sql:\"txt isin\"`", "X []int `sql:\"num = any\"`", "X string `sql:\"txt,@lower\"`",
			"X struct {\nA int `sql:\"x\"`\n_ gosql.Column `sql:\"" + k + ".num,y\"`\n} `sql:\"num isbetween\"`",
			"X struct {\n_ gosql.Column `sql:\"id,x\"`\nA int `sql:\"y\"`\n} `sql:\"" + k + ".num notbetween\"`",
			"_ gosql.Column `sql:\"flag istrue\"`", "_ gosql.Column `sql:\"num isnull\"`", "_ gosql.Column `sql:\"num = " + k + ".num\"`", "_ gosql.Column `sql:\"" + k + ".num <> num\"`",
			"_ gosql.Column `sql:\"txt = 'a'\"`", "N struct {\nX int `sql:\"num\"`\nY string `sql:\"txt islike\" bool:\"or\"`\n} `sql:\">\"`",
		}
	}
	for _, t := range targets {
		for _, k := range joins {
			for l, cond := range []string{k.q + ".rec_id = " + t.q + ".id", k.q + ".rec_id = id", "num = num", k.q + ".num = " + t.q + ".num", "txt = 'a'"} {
				if k.id == k.q && !strings.HasPrefix(cond, k.q+".") {
					continue
				}
				pre := t.id + "+" + k.id + "/" + fmt.Sprint(l) + "/"
				join := "Join struct {\n_ gosql.LeftJoin `sql:\"" + k.id + "," + cond + "\"`\n}\n"
				its := items(t.q, k.q)
				for i, it := range its {
					w := "Where struct {\n" + it + "\n}\n"
					p := pre + fmt.Sprint(i)
					add(p+"/select", "Select", "Rel []*Mini `rel:\""+t.id+"\"`\n"+join+w)
					if l == 0 {
						add(p+"/one", "Select", "Rel *Mini `rel:\""+t.id+"\"`\n"+join+w)
						add(p+"/count", "Select", "Count int `rel:\""+t.id+"\"`\n"+join+w)
						add(p+"/exists", "Select", "Exists bool `rel:\""+t.id+"\"`\n"+join+w)
						add(p+"/order", "Select", "Rel []Mini `rel:\""+t.id+"\"`\n_ gosql.OrderBy `sql:\"num,-txt,"+t.q+".id,"+k.q+".num\"`\n"+join+w)
						for j, o := range its {
							if r.Thorough() || (i+j)%4 == 0 {
								o = strings.ReplaceAll(strings.ReplaceAll(o, "X ", "X2 "), "N ", "N2 ")
								add(fmt.Sprintf("%s,%d/select", p, j), "Select", "Rel []*Mini `rel:\""+t.id+"\"`\n"+join+"Where struct {\n"+it+"\n"+o+"\n}\n")
							}
						}
						usng := "Using struct {\n_ gosql.Relation `sql:\"" + k.id + "\"`\n}\n"
						from := "From struct {\n_ gosql.Relation `sql:\"" + k.id + "\"`\n_ gosql.LeftJoin `sql:\"toys:t,t.kid_id = " + k.q + ".kid\"`\n}\n"
						add(p+"/delete", "Delete", "_ gosql.Relation `rel:\""+t.id+"\"`\n"+usng+w)
						add(p+"/delete-return", "Delete", "Rel []*Mini `rel:\""+t.id+"\"`\n_ gosql.Return `sql:\"*\"`\n"+usng+w)
						add(p+"/delete-result", "Delete", "_ gosql.Relation `rel:\""+t.id+"\"`\nResult []*Mini\n"+usng+w)
						add(p+"/update", "Update", "Rel *MiniNoKey `rel:\""+t.id+"\"`\n"+from+w)
						add(p+"/update-return", "Update", "Rel *MiniNoKey `rel:\""+t.id+"\"`\n_ gosql.Return `sql:\"num,txt\"`\n"+from+w)
						add(p+"/update-result", "Update", "Rel *MiniNoKey `rel:\""+t.id+"\"`\nResult []*Mini\n"+from+w)
					}
				}
				if l == 0 {
					usng := "Using struct {\n_ gosql.Relation `sql:\"" + k.id + "\"`\n}\n"
					from := "From struct {\n_ gosql.Relation `sql:\"" + k.id + "\"`\n}\n"
					add(pre+"update-key", "Update", "Rel *Mini `rel:\""+t.id+"\"`\n"+from)
					add(pre+"update-key-return", "Update", "Rel *Mini `rel:\""+t.id+"\"`\n_ gosql.Return `sql:\"*\"`\n"+from)
					add(pre+"update-slice", "Update", "Rel []Mini `rel:\""+t.id+"\"`\n"+from)
					add(pre+"update-slice-return", "Update", "Rel []*Mini `rel:\""+t.id+"\"`\n_ gosql.Return `sql:\"id,txt\"`\n"+from)
					add(pre+"delete-using", "Delete", "Rel []Mini `rel:\""+t.id+"\"`\n_ gosql.Return `sql:\"id,num\"`\n"+usng)
				}
				if t.q == "r" && k.q == "k" {
					add(pre+"mixed", "Select", "Rel []*MiniR `rel:\""+t.id+"\"`\n"+join)
					add(pre+"mixed-one", "Select", "Rel *MiniR `rel:\""+t.id+"\"`\n_ gosql.OrderBy `sql:\"flag,r.id\"`\n"+join)
				}
			}
		}
	}
	return out
}

// c10Arrays: arrays of records and of values.
func c10Arrays(r *vf.Run) (out []*Case) {
	add := func(key, kind, body string) {
		c := live(&Case{Key: "array/" + key, Kind: kind, Body: body}, nil)
		c.Group = "array/" + key // a package each: what does not compile is attributed to the one
		out = append(out, c)
	}
	for _, sh := range []string{"[2]Mini", "[2]*Mini"} {
		add("select/"+sh, "Select", "Rel "+sh+" `rel:\"recs:r\"`")
		add("insert/"+sh, "Insert", "Rel "+sh+" `rel:\"recs:r\"`")
		add("insert-return/"+sh, "Insert", "Rel "+sh+" `rel:\"recs:r\"`\n_ gosql.Return `sql:\"*\"`")
		add("insert-result/"+sh, "Insert", "Rel *Mini `rel:\"recs:r\"`\nResult "+sh)
		add("update/"+sh, "Update", "Rel "+sh+" `rel:\"recs:r\"`")
		add("update-return/"+sh, "Update", "Rel "+sh+" `rel:\"recs:r\"`\n_ gosql.Return `sql:\"*\"`")
		add("update-result/"+sh, "Update", "Rel *Mini `rel:\"recs:r\"`\nResult "+sh)
		add("delete-return/"+sh, "Delete", "Rel "+sh+" `rel:\"recs:r\"`\n_ gosql.Return `sql:\"*\"`\n_ gosql.All")
		add("delete-result/"+sh, "Delete", "_ gosql.Relation `rel:\"recs:r\"`\nResult "+sh+"\nWhere struct {\nA int `sql:\"r.id\"`\n}")
	}
	for _, n := range []string{"0", "1", "3"} {
		for _, pred := range []string{"isin", "notin", "= any", "> some", "<> all"} {
			add("where/"+n+"/"+pred, "Select", "Rel []*Mini `rel:\"recs:r\"`\nWhere struct {\nA ["+n+"]int `sql:\"r.num "+pred+"\"`\nB []string `sql:\"r.txt isin\"`\n}")
			add("delete/"+n+"/"+pred, "Delete", "_ gosql.Relation `rel:\"recs:r\"`\nWhere struct {\nA ["+n+"]string `sql:\"r.txt "+pred+"\"`\nB int `sql:\"r.id\"`\n}")
		}
	}
	return out
}

// c10Idents: relations, aliases and columns whose names are key words or have capitals.
func c10Idents(r *vf.Run) (out []*Case) {
	n := 0
	add := func(key, kind, body string) {
		c := &Case{Key: "names/" + key, Kind: kind, Body: body}
		n++
		for i, cfg := range liveCfgs {
			if r.Thorough() || i == 0 || n%4 == i-1 {
				out = append(out, live(c, cfg))
			}
		}
	}
	for _, rel := range []string{"plain", "user", "Users", "app.order", "public.Users", "app.View"} {
		for _, alias := range []string{"", "p", "P", "order", "User", "select", "all", "x", "_", "p1", "end", "id", "left", "Group", "excluded", "values", "xmax"} {
			id, q := rel, rel[strings.Index(rel, ".")+1:]
			if alias != "" {
				id, q = rel+":"+alias, alias
			}
			view := rel == "app.View"
			key := id + "/"
			for _, qu := range []string{"", q + "."} {
				w := "Where struct {\nA int `sql:\"" + qu + "group >=\"`\nB []int `sql:\"" + qu + "Mixed isin\" bool:\"or\"`\n_ gosql.Column `sql:\"" + qu + "select isnull\"`\n}\n"
				key := key + qu
				add(key+"select", "Select", "Rel []*Word `rel:\""+id+"\"`\n_ gosql.OrderBy `sql:\""+qu+"group,-"+qu+"Mixed\"`\n"+w)
				add(key+"join", "Select", "Rel []*Word `rel:\""+id+"\"`\nJoin struct {\n_ gosql.LeftJoin `sql:\"kids:k,k.kid = "+qu+"group\"`\n_ gosql.RightJoin `sql:\"app.order:Full,Full.group = "+qu+"Mixed\"`\n_ gosql.CrossJoin `sql:\"plain:union\"`\n}\n"+w)
				add(key+"count", "Select", "Count int `rel:\""+id+"\"`\n"+w)
				add(key+"update", "Update", "Rel *Word `rel:\""+id+"\"`\n"+w)
				add(key+"delete", "Delete", "Rel []*Word `rel:\""+id+"\"`\n_ gosql.Return `sql:\""+qu+"group,"+qu+"select\"`\n"+w)
				add(key+"using", "Delete", "_ gosql.Relation `rel:\""+id+"\"`\nUsing struct {\n_ gosql.Relation `sql:\"app.order:Where\"`\n}\n"+w)
				if view {
					continue
				}
				add(key+"insert", "Insert", "Rel *Word `rel:\""+id+"\"`\n_ gosql.Return `sql:\""+qu+"Mixed,"+qu+"id\"`")
				add(key+"insert-conflict", "Insert", "Rel []*Word `rel:\""+id+"\"`\n_ gosql.Return `sql:\"*\"`\nOnConflict struct {\n_ gosql.Column `sql:\""+qu+"group\"`\n_ gosql.Update `sql:\""+qu+"Mixed,"+qu+"select\"`\n}")
				add(key+"insert-conflict2", "Insert", "Rel *Word `rel:\""+id+"\"`\nOnConflict struct {\n_ gosql.Column `sql:\""+qu+"Mixed,"+qu+"select\"`\n_ gosql.Ignore\n}")
				add(key+"update-key", "Update", "Rel *Word `rel:\""+id+"\"`\n_ gosql.Return `sql:\""+qu+"group\"`")
				add(key+"update-slice", "Update", "Rel []*Word `rel:\""+id+"\"`\n_ gosql.Return `sql:\""+qu+"group,"+qu+"id\"`")
				add(key+"update-from", "Update", "Rel []*Word `rel:\""+id+"\"`\nFrom struct {\n_ gosql.Relation `sql:\"Users:From\"`\n_ gosql.LeftJoin `sql:\"app.order:On,On.group = From.Mixed\"`\n}\n")
			}
		}
	}
	return out
}

// c10Pkgs are names of packages that generated code might use otherwise.
var c10Pkgs = []string{"gosql", "pgsql", "context", "sql", "filter", "strconv", "vfrt", "time", "json",
	"q", "c", "v", "i", "f", "op", "val", "row", "rows", "err", "res", "ctx", "params", "pos", "nstatic", "queryString", "len1", "pos1", "nest", "append", "len", "string", "pgsql1", "gosql1"}

// c10Idents are names of types that generated code might use otherwise.
var c10TypeNames = []string{"c", "q", "v", "i", "row", "rows", "err", "res", "ctx", "params", "pos", "nstatic", "queryString", "len1", "pos1"}

var c10NameTypes = func() string {
	s := "type NameMark int\ntype Sink struct{ s *vfrt.Sink }\ntype Int struct {\n\tID int ~sql:\"id\"~\n\tTxt string ~sql:\"txt\"~\n}\n"
	s += "type DB struct{ gosql.Conn }\ntype Own interface{ gosql.Conn }\n"
	return s
}()

var c10LocalTypes = func() string {
	s := ""
	for _, n := range c10TypeNames {
		s += "type " + n + " struct {\n\tID int ~sql:\"id\"~\n\tIn *" + n + "Sub ~sql:\">\"~\n}\ntype " + n + "Sub struct {\n\tTxt string ~sql:\"txt\"~\n}\n"
	}
	return s
}()

// ownCfg has the methods take a type of the package they are in.
func ownCfg(name string) *Cfg {
	cfg := &Cfg{Name: "own" + name}
	cfg.Exec = "Exec(DB{e.Conn})"
	if name == "ptr" {
		cfg.Exec = "Exec(&DB{e.Conn})"
	}
	cfg.Set = func(c *config.Config) {
		c.MethodArgumentType = config.GoType{Name: "DB", PkgPath: "vfx/" + cfg.pkg, PkgName: cfg.pkg, IsPtr: name == "ptr", IsSet: true}
		if name == "iface" {
			c.MethodArgumentType.Name = "Own"
		}
	}
	return cfg
}

// c10Names: records and packages whose names generated code uses for something else.
func c10Names(r *vf.Run) (out []*Case) {
	group := func(g string, cfg *Cfg, types ...string) {
		for _, t := range types {
			k := t
			for i, sh := range []struct{ key, kind, body string }{
				{"one", "Select", "Rel *" + t + " `rel:\"recs:r\"`"},
				{"val", "Select", "Rel " + t + " `rel:\"recs:r\"`\nWhere struct {\nA []int `sql:\"r.num isin\"`\nB []string `sql:\"r.txt isin\"`\n}\nE EIH"},
				{"slice", "Select", "Rel []*" + t + " `rel:\"recs:r\"`\nWhere struct {\nA []int `sql:\"r.num = any\"`\n}"},
				{"values", "Select", "Rel []" + t + " `rel:\"recs:r\"`\nF gosql.Filter"},
				{"func", "Select", "Rel func(*" + t + ") error `rel:\"recs:r\"`\nLimit int\nOffset int"},
				{"insert", "Insert", "Rel *" + t + " `rel:\"recs:r\"`\n_ gosql.Return `sql:\"*\"`"},
				{"inserts", "Insert", "Rel []*" + t + " `rel:\"recs:r\"`"},
				{"insert-result", "Insert", "Rel []" + t + " `rel:\"recs:r\"`\nResult []*" + t},
				{"updates", "Update", "Rel []" + t + " `rel:\"recs:r\"`\n_ gosql.Return `sql:\"r.id\"`"},
				{"update", "Update", "Rel *" + t + " `rel:\"recs:r\"`\nRowsAffected int"},
				{"delete", "Delete", "Rel []*" + t + " `rel:\"recs:r\"`\n_ gosql.All\n_ gosql.Return `sql:\"*\"`"},
				{"delete-result", "Delete", "_ gosql.Relation `rel:\"recs:r\"`\nResult *" + t + "\nWhere struct {\nA int `sql:\"r.id\"`\n}"},
			} {
				if g == "type" && i != 0 && i != 2 {
					continue // names of types collide in the same way everywhere
				}
				c := live(&Case{Key: "name/" + g + "/" + k + "/" + sh.key, Kind: sh.kind, Body: sh.body}, cfg)
				// a package each, so that every order of the imports is met
				c.Group = "name/" + g + "/" + k
				out = append(out, c)
			}
		}
	}
	for _, n := range c10Pkgs {
		group("pkg", nil, "x"+n+".Rec")
		group("pkg", liveCfgs[4], "x"+n+".Rec")
	}
	group("type", nil, c10TypeNames...)
	group("own", ownCfg(""), "Int", "xpgsql.Rec")
	group("own", ownCfg("ptr"), "Int", "xgosql.Rec")
	group("own", ownCfg("iface"), "Int")
	// several such packages in one file
	for _, l := range [][]string{{"xpgsql1", "xpgsql", "xgosql1", "xgosql"}, {"xgosql", "xgosql1", "xpgsql", "xpgsql1"}, {"xcontext", "xsql", "xfilter", "xtime"}, {"xv", "xq", "xrow", "xerr"}} {
		for i, cfg := range liveCfgs {
			if i > 0 && i < 3 && !r.Thorough() {
				continue
			}
			for k := 0; k < len(l); k++ {
				var fs []string
				for j := range l {
					t := l[(j+k)%len(l)]
					fs = append(fs, fmt.Sprintf("F%d *struct {\nA []int `sql:\"arr\"`\n}", j))
					c := live(&Case{Key: fmt.Sprintf("name/file/%s%d/%s", l[0], k, t), Kind: "Select", Body: "Rel []*" + t + ".Rec `rel:\"recs:r\"`\nWhere struct {\nA " + t + ".Num `sql:\"r.num\"`\nB []string `sql:\"r.txt isin\"`\n}\nE *EIH"}, cfg)
					c.Group = fmt.Sprintf("name/file/%s%d", l[0], k)
					out = append(out, c)
				}
			}
		}
	}
	return out
}

const c10FilterTypes = `
type FiltRec struct {
	ID int ~sql:"id"~
	C0 *int ~sql:"c0"~
	C4 string ~sql:"c4"~
	TS time.Time ~sql:"ts"~
	In *FiltIn ~sql:">"~
	Pc0 int ~sql:"p_c0"~
}
type FiltIn struct {
	C1 int ~sql:"c1"~
	C2 []byte ~sql:"j1"~
}
type FiltWord struct {
	G int ~sql:"group"~
	M *int ~sql:"Mixed"~
	ID int ~sql:"id"~
	In struct {
		S *string ~sql:"select"~
	} ~sql:">"~
}
`

// c10Filters: filters whose methods are called and whose SQL is executed.
func c10Filters(r *vf.Run) (out []*Case) {
	reg := `func init() { vfrt.RegisterFilter("@", vfrt.FilterEntry{New: func() any { return new(@) }}) }`
	add := func(key, rec, rel, from, extra string, cfg *Cfg) {
		c := &Case{Key: "filter/" + key, Kind: "Filter", Body: "_ *" + rec + " `rel:\"" + rel + "\"`\nfilter.Constructor\n" + extra, Init: reg}
		c.Job = &Job{Mode: "livefilter", Ref: []string{"SELECT count(*) FROM " + from}}
		if cfg != nil {
			c.Cfg, c.Group, c.Key = cfg, cfg.Name, cfg.Name+":"+c.Key
		}
		out = append(out, c)
	}
	quote := liveCfgs[1]
	for _, cfg := range liveCfgs {
		add("plain", "FiltRec", "filt:f", "filt f", "", cfg)
		add("noalias", "FiltRec", "filt", "filt", "", cfg)
		add("schema", "FiltRec", "public.filt:x", "filt x", "", cfg)
		add("view", "FiltRec", "filt_view:v", "filt_view v", "", cfg)
		add("view2", "FiltRec", "filt_view", "filt_view", "", cfg)
		add("ts", "FiltRec", "filt:f", "filt f", "_ gosql.TextSearch `sql:\"f.doc\"`", cfg)
		add("ts2", "FiltRec", "filt", "filt", "_ gosql.TextSearch `sql:\"doc\"`", cfg)
		add("keyword", "FiltRec", "filt:order", "filt \"order\"", "_ gosql.TextSearch `sql:\"order.doc\"`", cfg)
		add("capital", "FiltRec", "filt:F", "filt \"F\"", "_ gosql.TextSearch `sql:\"F.doc\"`", cfg)
	}
	// names that need quotes are for the option that gives them
	for _, rel := range []string{"plain", "user", "Users", "app.order", "public.Users", "app.View"} {
		for _, alias := range []string{"", "p", "P", "order", "User", "select", "all", "end", "left"} {
			i := strings.Index(rel, ".")
			from := rel[:i+1] + "\"" + rel[i+1:] + "\""
			id := rel
			if alias != "" {
				id += ":" + alias
				from += " AS \"" + alias + "\""
			}
			add("word/"+id, "FiltWord", id, from, "", quote)
		}
	}
	return out
}
