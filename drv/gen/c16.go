package main

import (
	"database/sql"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/vfdrv/vf"
)

// C16: the type checker accepts only columns and types that work at run time.
//
// Every Go type of the tool's tables (and types that are in none) is offered for a column of every
// database type, for writing, for reading and as an argument of every predicate.  What is accepted
// is generated, compiled and executed with the values of the bounded domains; what it stores, reads
// and selects is compared with what the database makes of the SQL that denotes the value.

// ctype is a column type.
type ctype struct {
	name string // of the tables and in reports
	decl string // as declared
	pg   string // as the converters name it
	cast string // without length modifier
	text bool   // strings are its values
	smp  []string
	arr  string // the declared type of an array of it
}

func (c *ctype) spec() MatrixSpec {
	return MatrixSpec{PG: c.pg, Cast: c.cast, Text: c.text, Samples: c.smp}
}

func c16Columns() []*ctype {
	var out []*ctype
	add := func(name, decl, pg, cast string, text bool, smp ...string) {
		out = append(out, &ctype{name: name, decl: decl, pg: pg, cast: cast, text: text, smp: smp})
	}
	both := func(name, decl, pg, cast string, text bool, smp ...string) {
		add(name, decl, pg, cast, text, smp...)
		var as []string
		for _, s := range smp {
			if s != "" {
				as = append(as, `{"`+s+`"}`, `{"`+s+`","`+smp[0]+`"}`)
			}
		}
		if len(as) > 0 {
			as = append(as, "{}")
		}
		p := pg + "Array"
		if pg == "" {
			p = ""
		}
		add(name+"_arr", decl+"[]", p, cast+"[]", false, as...)
	}
	for _, x := range [][3]string{
		{"bool", "bool", "Bool"}, {"box", "box", "Box"}, {"bytea", "bytea", "Bytea"}, {"cidr", "cidr", "CIDR"}, {"date", "date", "Date"},
		{"daterange", "daterange", "DateRange"}, {"float4", "float4", "Float4"}, {"float8", "float8", "Float8"}, {"hstore", "hstore", "HStore"},
		{"inet", "inet", "Inet"}, {"int2", "int2", "Int2"}, {"int2vector", "int2vector", "Int2Vector"}, {"int4", "int4", "Int4"},
		{"int4range", "int4range", "Int4Range"}, {"int8", "int8", "Int8"}, {"int8range", "int8range", "Int8Range"}, {"json", "json", "JSON"},
		{"jsonb", "jsonb", "JSON"}, {"line", "line", "Line"}, {"lseg", "lseg", "Lseg"}, {"macaddr", "macaddr", "MACAddr"}, {"macaddr8", "macaddr8", "MACAddr8"},
		{"money", "money", "Money"}, {"numeric", "numeric", "Numeric"}, {"numrange", "numrange", "NumRange"}, {"path", "path", "Path"},
		{"point", "point", "Point"}, {"polygon", "polygon", "Polygon"}, {"time", "time", "Time"}, {"timestamp", "timestamp", "Timestamp"},
		{"timestamptz", "timestamptz", "Timestamptz"}, {"timetz", "timetz", "Timetz"}, {"tsquery", "tsquery", "TSQuery"}, {"tsrange", "tsrange", "TsRange"},
		{"tstzrange", "tstzrange", "TstzRange"}, {"tsvector", "tsvector", "TSVector"}, {"uuid", "uuid", "UUID"}, {"varbit", "varbit", "VarBit"}, {"xml", "xml", "XML"},
	} {
		both(x[0], x[1], x[2], x[1], false)
	}
	both("bit1", "bit(1)", "Bit", `"bit"`, false)
	both("char1", "char(1)", "BPChar", `"bpchar"`, false)
	both("text", "text", "Text", "text", true)
	both("varchar", "varchar", "VarChar", "varchar", true)
	both("varchar1", "varchar(1)", "VarChar", "varchar", true, "a")
	both("varchar5", "varchar(5)", "VarChar", "varchar", true, "ab")
	both("char5", "char(5)", "VarChar", `"bpchar"`, true, "ab")
	both("bit3", "bit(3)", "VarBit", `"bit"`, false, "101", "000")
	both("varbit1", "varbit(1)", "VarBit", "varbit", false, "1", "0")
	both("varchar2", "varchar(2)", "VarChar", "varchar", true, "ab")
	both("char2", "char(2)", "VarChar", `"bpchar"`, true, "ab")
	both("bit2", "bit(2)", "VarBit", `"bit"`, false, "10", "00")
	both("varbit9", "varbit(9)", "VarBit", "varbit", false, "1", "101")
	both("name", "name", "Text", "name", true, "ab")
	both("qchar", `"char"`, "", `"char"`, false, "a", "b")
	both("numeric62", "numeric(6,2)", "Numeric", "numeric(6,2)", false, "1.50", "-3.25", "7.00")
	both("interval", "interval", "", "interval", false, "1 day", "02:03:04", "1 year 2 mons")
	both("circle", "circle", "", "circle", false, "<(1,2),3>", "<(0,0),1.5>")
	both("oid", "oid", "", "oid", false, "1", "26")
	both("mood", "mood", "", "mood", false, "sad", "ok", "happy")
	both("posint", "posint", "", "posint", false, "1", "7")
	both("word", "word", "Text", "word", false, "ab", "c d")
	both("pair", "pair", "", "pair", false)
	both("xid", "xid", "", "xid", false, "1")
	both("tid", "tid", "", "tid", false, "(0,1)")
	both("pg_lsn", "pg_lsn", "", "pg_lsn", false, "16/B374D848")
	for _, c := range out {
		switch strings.TrimSuffix(c.name, "_arr") {
		case "pair":
			c.smp = []string{"(1,a)"}
			if strings.HasSuffix(c.name, "_arr") {
				c.smp = []string{`{"(1,a)"}`}
			}
		}
		if len(c.smp) > 0 && strings.HasSuffix(c.name, "_arr") && c.pg != "" && c.text {
			c.text = false
		}
		// what char(n) and bit(n) make of array elements
		if c.name == "char5_arr" {
			c.smp = []string{`{"ab   ","c    "}`, "{}", `{"\"\\  "}`}
		}
		if c.name == "char2_arr" {
			c.smp = []string{`{ab,"c "}`, "{}", `{"\"\\"}`}
		}
	}
	return out
}

const c16SchemaPre = `CREATE EXTENSION hstore; CREATE DOMAIN posint AS int CHECK (VALUE > 0); CREATE DOMAIN word AS text; CREATE TYPE pair AS (a int, b text);`

func c16Schema(cols []*ctype) string {
	var b strings.Builder
	b.WriteString(c16SchemaPre)
	all := "CREATE TABLE m_all (k int PRIMARY KEY"
	for _, c := range cols {
		fmt.Fprintf(&b, "CREATE TABLE m_%s (k int PRIMARY KEY, v %s NOT NULL); CREATE TABLE n_%s (k int PRIMARY KEY, v %s);\n", c.name, c.decl, c.name, c.decl)
		// a key of that type, where there is such a thing
		fmt.Fprintf(&b, "DO $do$ BEGIN CREATE TABLE q_%s (v %s PRIMARY KEY, k int); EXCEPTION WHEN undefined_object THEN END $do$;\n", c.name, c.decl)
		all += fmt.Sprintf(", c_%s %s", c.name, c.decl)
	}
	b.WriteString(all + ");\n")
	return b.String()
}

// gtype is a Go type of a field.
type gtype struct {
	id  int
	src string
}

func c16Types() (out []*gtype) {
	seen := map[string]bool{}
	add := func(s ...string) {
		for _, x := range s {
			if seen[x] {
				continue
			}
			seen[x] = true
			out = append(out, &gtype{id: len(out), src: x})
		}
	}
	add("bool", "[]bool", "[][]bool", "string", "[]string", "[][]string", "map[string]string", "[]map[string]string",
		"byte", "[]byte", "[][]byte", "[][][]byte", "[16]byte", "[][16]byte", "rune", "[]rune", "[][]rune")
	for _, n := range []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"} {
		add(n, "[]"+n, "[][]"+n, "[2]"+n, "[][2]"+n)
	}
	add("[][][2]float64", "[2][2]float64", "[][2][2]float64", "[3]float64", "[][3]float64", "net.IP", "[]net.IP", "net.IPNet", "[]net.IPNet",
		"net.HardwareAddr", "[]net.HardwareAddr", "time.Time", "[]time.Time", "[2]time.Time", "[][2]time.Time",
		"map[string]sql.NullString", "[]map[string]sql.NullString", "map[string]*string", "[]map[string]*string", "interface{}")
	// in no table
	add("complex128", "chan int", "func()", "map[int]string", "map[string]int", "[4]byte", "[3]int", "uintptr", "time.Duration", "[]interface{}", "Doc", "*Doc", "[]Doc",
		"json.RawMessage", "big.Int", "error", "[]error", "[4]float64", "[2]string", "map[string]bool")
	return out
}

func (g *gtype) rec() string { return fmt.Sprintf("R%d", g.id) }

// named gives the defined variant of the type.
func (g *gtype) canName() bool { return !strings.Contains(g.src, "interface") && g.src != "error" }

func c16TypesSrc(gs []*gtype) string {
	var b strings.Builder
	b.WriteString("type Doc struct {\n\tXMLName struct{} `json:\"-\" xml:\"foo\"`\n\tA string `json:\"a,omitempty\" xml:\"a,attr,omitempty\"`\n\tB *int `json:\"b,omitempty\" xml:\"b,omitempty\"`\n\tC []string `json:\"c,omitempty\" xml:\"c,omitempty\"`\n}\n\n")
	b.WriteString("type RK struct {\n\tK int `sql:\"k\"`\n}\n\n")
	for _, g := range gs {
		fmt.Fprintf(&b, "type R%d struct {\n\tK int `sql:\"k\"`\n\tV %s `sql:\"v\"`\n}\n\n", g.id, g.src)
		fmt.Fprintf(&b, "type P%d struct {\n\tK int `sql:\"k\"`\n\tV *%s `sql:\"v\"`\n}\n\n", g.id, g.src)
		fmt.Fprintf(&b, "type K%d struct {\n\tK int `sql:\"k\"`\n\tV %s `sql:\"v,ro\"`\n}\n\n", g.id, g.src)
		if g.canName() {
			fmt.Fprintf(&b, "type T%d %s\n\ntype N%d struct {\n\tK int `sql:\"k\"`\n\tV T%d `sql:\"v\"`\n}\n\n", g.id, g.src, g.id, g.id)
		}
	}
	return b.String()
}

// pred is a predicate of a field condition.
type pred struct {
	tag   string // in the tag
	ref   string // reference, with ? for the argument
	array bool   // the field is a list
}

var c16Preds = []pred{
	{"=", "v = ?", false}, {"<>", "v <> ?", false}, {"!=", "v <> ?", false}, {"<", "v < ?", false}, {">", "v > ?", false},
	{"<=", "v <= ?", false}, {">=", "v >= ?", false}, {"~", "v ~ ?", false}, {"~*", "v ~* ?", false}, {"!~", "v !~ ?", false}, {"!~*", "v !~* ?", false},
	{"isdistinct", "v IS DISTINCT FROM ?", false}, {"notdistinct", "v IS NOT DISTINCT FROM ?", false},
	{"islike", "v LIKE ?", false}, {"notlike", "v NOT LIKE ?", false}, {"isilike", "v ILIKE ?", false}, {"notilike", "v NOT ILIKE ?", false},
	{"issimilar", "v SIMILAR TO ?", false}, {"notsimilar", "v NOT SIMILAR TO ?", false},
	{"isin", "v = ANY(?)", true}, {"notin", "v <> ALL(?)", true}, {"= any", "v = ANY(?)", true}, {"<> all", "v <> ALL(?)", true},
	{"< some", "v < ANY(?)", true}, {">= all", "v >= ALL(?)", true}, {"~ any", "v ~ ANY(?)", true}, {"islike any", "v LIKE ANY(?)", true}, {"notilike all", "v NOT ILIKE ALL(?)", true},
}

func c16(r *vf.Run) {
	schemaPost = append(schemaPost, c16Schema(c16Columns()), c16RefDDL)
	dsn, dsns := setupDB(r, nworkers)
	if cases := filtered(r, c16Refs(r)); len(cases) > 0 {
		p := newPipe(r, dsn, bt(c16RefTypes+vfTypes))
		p.perFile, p.perPkg = 200, 2000
		for _, c := range cases {
			p.Add(c)
		}
		r.Add("declarations", len(p.cases))
		runPipe(r, p, dsns)
	}
	c16Ops(r, dsn, dsns)
	c16Matrix(r, dsn, dsns)
}

func c16Matrix(r *vf.Run, dsn string, dsns []string) {
	cols, gs := c16Columns(), c16Types()
	types := c16TypesSrc(gs)
	only := os.Getenv("VF_ONLY")
	// 1. what is accepted
	p := newPipe(r, dsn, types)
	p.perFile, p.perPkg = 400, 4000
	var cells []*cell
	offer := func(x *cell, kind, body string) {
		key := x.key()
		if only != "" && !strings.Contains(key, only) {
			return
		}
		x.cs = p.Add(&Case{Key: key, Kind: kind, Body: body})
		cells = append(cells, x)
	}
	body := func(x *cell, variant string) (kind, b, path, table string) {
		rt, table := x.g.rec(), "m_"+x.c.name
		switch variant {
		case "nullnamed":
			rt, table = fmt.Sprintf("N%d", x.g.id), "n_"+x.c.name
		case "null":
			table = "n_" + x.c.name
		case "ptr":
			rt, table = fmt.Sprintf("P%d", x.g.id), "n_"+x.c.name
		case "named":
			rt = fmt.Sprintf("N%d", x.g.id)
		}
		switch variant {
		case "key", "keyslice":
			rt = fmt.Sprintf("K%d", x.g.id)
			if variant == "keyslice" {
				rt = "[]*" + rt
			} else {
				rt = "*" + rt
			}
			return "Update", fmt.Sprintf("\tRel %s `rel:\"q_%s:q\"`", rt, x.c.name), "Rel.V", "q_" + x.c.name
		case "update":
			return "Update", fmt.Sprintf("\tRel *%s `rel:\"n_%s\"`\n\tWhere struct {\n\t\tK int `sql:\"k\"`\n\t}", rt, x.c.name), "Rel.V", "n_" + x.c.name
		case "slice":
			return "Insert", fmt.Sprintf("\tRel []*%s `rel:\"n_%s\"`", rt, x.c.name), "Rel.V", "n_" + x.c.name
		case "updateslice":
			return "Update", fmt.Sprintf("\tRel []*%s `rel:\"n_%s:n\"`", rt, x.c.name), "Rel.V", "n_" + x.c.name
		}
		switch x.kind {
		case "write":
			return "Insert", fmt.Sprintf("\tRel *%s `rel:\"%s\"`", rt, table), "Rel.V", table
		case "read":
			return "Select", fmt.Sprintf("\tRel *%s `rel:\"%s\"`\n\tWhere struct {\n\t\tK int `sql:\"k\"`\n\t}", rt, table), "Rel.V", table
		}
		ft := x.g.src
		switch variant {
		case "ptr":
			ft = "*" + ft
		case "named":
			ft = fmt.Sprintf("T%d", x.g.id)
		}
		return "Select", fmt.Sprintf("\tRel []*RK `rel:\"%s\"`\n\tWhere struct {\n\t\tV %s `sql:\"v %s\"`\n\t}", table, ft, x.pr.tag), "Where.V", table
	}
	for _, c := range cols {
		for _, g := range gs {
			for _, kind := range []string{"write", "read"} {
				if base := strings.TrimSuffix(c.name, "_arr"); strings.HasSuffix(g.src, "error") && (base == "json" || base == "jsonb" || base == "xml") {
					continue // whether it can be marshalled depends on the value
				}
				x := &cell{c: c, g: g, kind: kind}
				k, b, _, _ := body(x, "")
				offer(x, k, b)
			}
			for i := range c16Preds {
				pr := &c16Preds[i]
				if pr.array && !strings.HasPrefix(g.src, "[]") && g.src != "string" {
					continue
				}
				x := &cell{c: c, g: g, kind: "where", pr: pr}
				k, b, _, _ := body(x, "")
				offer(x, k, b)
			}
		}
	}
	r.Add("matrix_cells", len(cells))
	p.Check()
	// 2. what of it works
	keyable := keyTables(r, dsn)
	p2 := newPipe(r, dsn, types)
	p2.perFile, p2.perPkg = 60, 600
	accepted := map[string]int{}
	for _, x := range cells {
		if x.cs.Panic != "" {
			r.Violation(x.key(), "the tool panics: %s\n%s", x.cs.Panic, x.cs.decl())
			continue
		}
		if x.cs.Err != nil {
			r.Add("rejected_"+x.kind, 1)
			continue
		}
		r.Add("accepted_"+x.kind, 1)
		accepted[x.kind+" "+x.c.name]++
		variants := []string{"", "null", "ptr", "named", "nullnamed"}
		if x.kind == "where" {
			variants = []string{""}
			if x.pr.tag == "=" || r.Tier == "thorough" {
				variants = []string{"", "named", "ptr"}
			}
		}
		if x.kind == "write" {
			variants = append(variants, "update", "slice", "updateslice", "key", "keyslice")
		}
		for _, v := range variants {
			if strings.HasPrefix(v, "key") && !keyable[strings.TrimSuffix(x.c.name, "_arr")] {
				continue
			}
			if strings.HasSuffix(v, "named") && !x.g.canName() || v == "ptr" && (x.g.src == "error" || x.g.src == "interface{}" || strings.HasPrefix(x.g.src, "*")) {
				continue
			}
			kind, b, path, table := body(x, v)
			m := x.c.spec()
			m.Table, m.Path, m.Null = table, path, strings.HasPrefix(table, "n_")
			m.Kind = map[string]string{"write": "insert", "read": "select", "where": "where"}[x.kind]
			if x.kind == "write" && strings.Contains("update slice updateslice key keyslice", v) && v != "" {
				m.Kind = v
			}
			if x.pr != nil {
				m.Op, m.Array = x.pr.ref, x.pr.array
				m.List = strings.HasSuffix(x.pr.tag, "in")
			}
			if strings.HasPrefix(x.c.name, "numeric62") && (x.kind == "where" || strings.HasPrefix(v, "key")) {
				m.Cast = strings.Replace(m.Cast, "(6,2)", "", 1)
			}
			m.Num = strings.Contains(x.g.src, "]uint8")
			key := x.key()
			if v != "" {
				key += "/" + v
			}
			c := &Case{Key: key, Kind: kind, Body: b, Job: &Job{Mode: "matrix", Matrix: &m}}
			p2.Add(c)
		}
	}
	if os.Getenv("VF_ACCEPTED") != "" {
		var ks []string
		for k, n := range accepted {
			ks = append(ks, fmt.Sprintf("%s: %d", k, n))
		}
		sort.Strings(ks)
		fmt.Fprintln(os.Stderr, strings.Join(ks, "\n"))
	}
	runPipe(r, p2, dsns)
}

// keyTables lists the column types that can be keys.
func keyTables(r *vf.Run, dsn string) map[string]bool {
	out := map[string]bool{}
	db, err := sql.Open("postgres", dsn)
	if err != nil {
		r.Fatal("%v", err)
	}
	defer db.Close()
	rows, err := db.Query("SELECT relname FROM pg_class WHERE relkind = 'r' AND relname LIKE 'q\\_%'")
	if err != nil {
		r.Fatal("%v", err)
	}
	defer rows.Close()
	for rows.Next() {
		var n string
		if err := rows.Scan(&n); err != nil {
			r.Fatal("%v", err)
		}
		out[strings.TrimPrefix(n, "q_")] = true
	}
	r.Add("key_types", len(out))
	return out
}

// cell is one entry of the matrix.
type cell struct {
	c    *ctype
	g    *gtype
	kind string // write, read, where
	pr   *pred
	cs   *Case
}

func (x *cell) key() string {
	k := x.kind
	if x.pr != nil {
		k += " " + x.pr.tag
	}
	return k + "/" + x.c.name + "/" + x.g.src
}
