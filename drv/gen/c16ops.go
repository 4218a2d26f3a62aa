package main

import (
	"database/sql"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/frk/gosql/internal/vfdrv/vf"
	"github.com/lib/pq"
)

// C16, operators: every predicate between every two types of column, between every type of column
// and literals, and through functions; every type of column in ORDER BY.  What the tool accepts is
// given to PostgreSQL's own analyzer (PREPARE, never executed).

type opcase struct {
	*Case
	ref string // reference statement
}

var c16OpsPreds = []pred{
	{"=", "v = ?", false}, {"<>", "v <> ?", false}, {"<", "v < ?", false}, {">", "v > ?", false}, {"<=", "v <= ?", false}, {">=", "v >= ?", false},
	{"~", "v ~ ?", false}, {"~*", "v ~* ?", false}, {"!~", "v !~ ?", false}, {"!~*", "v !~* ?", false},
	{"isdistinct", "v IS DISTINCT FROM ?", false}, {"notdistinct", "v IS NOT DISTINCT FROM ?", false},
	{"islike", "v LIKE ?", false}, {"notlike", "v NOT LIKE ?", false}, {"isilike", "v ILIKE ?", false}, {"notilike", "v NOT ILIKE ?", false},
	{"issimilar", "v SIMILAR TO ?", false}, {"notsimilar", "v NOT SIMILAR TO ?", false},
	{"= any", "v = ANY(?)", true}, {"<> all", "v <> ALL(?)", true}, {"< some", "v < ANY(?)", true}, {">= all", "v >= ALL(?)", true},
	{"~ any", "v ~ ANY(?)", true}, {"islike any", "v LIKE ANY(?)", true}, {"notilike all", "v NOT ILIKE ALL(?)", true},
}

func c16Ops(r *vf.Run, dsn string, dsns []string) {
	var cols []*ctype
	for _, c := range c16Columns() {
		// the length is no part of what the operators are found by
		switch strings.TrimSuffix(c.name, "_arr") {
		case "varchar1", "varchar2", "char2", "bit2", "varchar5", "char5", "bit3", "varbit1", "varbit9", "numeric62":
			continue
		}
		if base, is := strings.CutSuffix(c.name, "_arr"); is && !r.Thorough() && !strings.Contains(" int4 int8 text varchar char1 numeric json mood box hstore timestamptz posint xml uuid ", " "+base+" ") {
			continue
		}
		cols = append(cols, c)
	}
	var cases []*opcase
	only := os.Getenv("VF_ONLY")
	add := func(key, kind, body, ref string) {
		if key = "op/" + key; only != "" && !strings.Contains(key, only) {
			return
		}
		cases = append(cases, &opcase{&Case{Key: key, Kind: kind, Body: body}, ref})
	}
	where := func(f string) string {
		return "Count int `rel:\"m_all:m\"`\nWhere struct {\n" + f + "\n}"
	}
	const sel = "SELECT count(1) FROM m_all AS m WHERE "
	for _, a := range cols {
		for _, b := range cols {
			for _, p := range c16OpsPreds {
				if p.array && !strings.HasSuffix(b.name, "_arr") && !strings.Contains(b.name, "vector") {
					continue
				}
				ref := strings.NewReplacer("v ", "m.c_"+a.name+" ", "?", "m.c_"+b.name).Replace(p.ref)
				add("column/"+a.name+" "+p.tag+" "+b.name, "Select", where(fmt.Sprintf("_ gosql.Column `sql:\"m.c_%s %s m.c_%s\"`", a.name, p.tag, b.name)), sel+ref)
			}
			for _, p := range [][2]string{{"isbetween", "BETWEEN"}, {"notbetween", "NOT BETWEEN"}, {"isbetweensym", "BETWEEN SYMMETRIC"}, {"notbetweensym", "NOT BETWEEN SYMMETRIC"}} {
				if p[0] != "isbetween" && a != b {
					continue
				}
				add("between/"+a.name+" "+p[0]+" "+b.name, "Select", where(fmt.Sprintf("V struct {\n_ gosql.Column `sql:\"m.c_%s,x\"`\n_ gosql.Column `sql:\"m.c_%s,y\"`\n} `sql:\"m.c_%s %s\"`", b.name, b.name, a.name, p[0])), sel+fmt.Sprintf("m.c_%s %s m.c_%s AND m.c_%s", a.name, p[1], b.name, b.name))
			}
			add("join/"+a.name+" = "+b.name, "Select", fmt.Sprintf("Count int `rel:\"m_all:x\"`\nJoin struct {\n_ gosql.LeftJoin `sql:\"m_all:m,m.c_%s = x.c_%s\"`\n}", a.name, b.name), fmt.Sprintf("SELECT count(1) FROM m_all AS x LEFT JOIN m_all AS m ON m.c_%s = x.c_%s", a.name, b.name))
		}
		for _, lit := range []string{"'a'", "'1'", "1", "1.5", "true", "null", "9999999999", "'{}'", "now()", "'a'::text", "array[1]", "array['a']", "1::int2", "'a'::varchar", "row(1)", "'sad'::mood", "interval '1 day'", "'{}'::text[]", "current_date", "'1'::name"} {
			for _, p := range c16OpsPreds {
				ref := strings.NewReplacer("v ", "m.c_"+a.name+" ", "?", lit).Replace(p.ref)
				add("literal/"+a.name+" "+p.tag+" "+lit, "Select", where(fmt.Sprintf("_ gosql.Column `sql:\"m.c_%s %s %s\"`", a.name, p.tag, lit)), sel+ref)
			}
		}
		for _, p := range [][2]string{{"isnull", "IS NULL"}, {"notnull", "IS NOT NULL"}, {"istrue", "IS TRUE"}, {"nottrue", "IS NOT TRUE"}, {"isfalse", "IS FALSE"}, {"notfalse", "IS NOT FALSE"}, {"isunknown", "IS UNKNOWN"}, {"notunknown", "IS NOT UNKNOWN"}} {
			add("unary/"+a.name+" "+p[0], "Select", where(fmt.Sprintf("_ gosql.Column `sql:\"m.c_%s %s\"`", a.name, p[0])), sel+"m.c_"+a.name+" "+p[1])
		}
		add("order/"+a.name, "Select", "Rel []*RK `rel:\"m_all:m\"`\n_ gosql.OrderBy `sql:\"m.c_"+a.name+"\"`", "SELECT m.k FROM m_all AS m ORDER BY m.c_"+a.name)
		add("order2/"+a.name, "Select", "Rel []*RK `rel:\"m_all:m\"`\n_ gosql.OrderBy `sql:\"m.k,-m.c_"+a.name+":nullsfirst\"`", "SELECT m.k FROM m_all AS m ORDER BY m.k, m.c_"+a.name+" DESC NULLS FIRST")
	}
	// functions
	db, err := sql.Open("postgres", dsn)
	if err != nil {
		r.Fatal("%v", err)
	}
	defer db.Close()
	var fns []string
	rows, err := db.Query(`SELECT DISTINCT proname FROM pg_proc WHERE pronargs = 1 AND pg_function_is_visible(oid) AND proname NOT LIKE 'pg\_%' AND proname NOT LIKE '\_pg\_%' AND proname ~ '^[a-z_0-9]+$' ORDER BY 1`)
	if err != nil {
		r.Fatal("%v", err)
	}
	for rows.Next() {
		var s string
		rows.Scan(&s)
		fns = append(fns, s)
	}
	gts := []string{"string", "int", "float64", "time.Time"}
	if r.Thorough() {
		gts = append(gts, "bool", "[]byte", "[]string", "[]int")
	}
	quick := map[string]bool{}
	for _, f := range strings.Fields("abs area ascii avg bit_count bit_length box broadcast btrim cardinality ceil center char char_length chr circle concat count date date_trunc diameter exp family floor height host hstore initcap int4 isempty isfinite length ln lower lower_inc lseg ltrim masklen max md5 md5 min numeric octet_length one numnode path point radians radius random reverse round rtrim sign skeys sqrt strip sum text to_json to_tsvector tsvector_to_array two unnest upper upper_inf varchar width xmlcomment array_length array_agg age json_typeof nextval quote_literal timestamptz to_hex") {
		quick[f] = true
	}
	for _, f := range fns {
		if !r.Thorough() && !quick[f] {
			continue
		}
		for _, c := range cols {
			for _, g := range gts {
				for _, p := range c16OpsPreds[:r.Pick(1, 18)] {
					if p.tag != "=" && p.tag != "<" && p.tag != "~" && p.tag != "islike" {
						continue
					}
					ref := strings.NewReplacer("v ", f+"(m.c_"+c.name+") ", "?", f+"($1)").Replace(p.ref)
					add("func/"+f+" "+c.name+" "+p.tag+" "+g, "Select", where(fmt.Sprintf("V %s `sql:\"m.c_%s %s,@%s\"`", g, c.name, p.tag, f)), sel+ref)
				}
			}
		}
	}
	if len(cases) == 0 {
		return
	}
	r.Add("operator_cases", len(cases))
	for len(cases) > 0 { // in portions, to bound the memory
		n := 150000
		if n > len(cases) {
			n = len(cases)
		}
		c16OpsRun(r, dsn, dsns, cases[:n])
		cases = cases[n:]
	}
}

func c16OpsRun(r *vf.Run, dsn string, dsns []string, cases []*opcase) {
	p := newPipe(r, dsn, "type RK struct {\n\tK int `sql:\"k\"`\n}\n")
	p.perFile, p.perPkg = 400, 4000
	for _, c := range cases {
		p.Add(c.Case)
	}
	p.Check()
	work := make(chan *opcase)
	bad := make(chan *opcase, len(cases))
	var wg sync.WaitGroup
	for _, d := range dsns {
		wg.Add(1)
		go func(d string) {
			defer wg.Done()
			db, err := sql.Open("postgres", d)
			if err != nil {
				r.Fatal("%v", err)
			}
			defer db.Close()
			for c := range work {
				st, err := db.Prepare(c.ref)
				if err == nil {
					st.Close()
					continue
				}
				if e, ok := err.(*pq.Error); ok && e.Code.Class() == "22" {
					continue // the value of a literal
				}
				c.ErrText = err.Error()
				bad <- c
			}
		}(d)
	}
	for _, c := range cases {
		if c.Panic != "" {
			r.Violation(c.Key, "the tool panics: %s\n%s", c.Panic, c.decl())
			continue
		}
		if c.Err != nil {
			r.Add("operator_rejected", 1)
			continue
		}
		r.Add("operator_accepted", 1)
		work <- c
	}
	close(work)
	wg.Wait()
	close(bad)
	var list []*opcase
	for c := range bad {
		list = append(list, c)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Key < list[j].Key })
	for _, c := range list {
		r.Violation(c.Key, "accepted, but PostgreSQL: %s\n%s\n%s", c.ErrText, c.ref, c.decl())
	}
	os.RemoveAll(p.dir)
}
