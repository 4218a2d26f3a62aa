package main

import (
	"fmt"
	"strings"

	"github.com/frk/gosql/internal/vfdrv/vf"
)

func or(it item) item  { it.bool_ = "or"; return it }
func and(it item) item { it.bool_ = "and"; return it }
func nest(its ...item) item {
	return item{nested: its}
}

// c11Cases are the SELECT declarations.
func c11Cases(r *vf.Run) (out []*Case) {
	add := func(s *sel) { out = append(out, s.toCase()) }

	// every predicate alone, qualified and not
	for _, q := range []string{"r", ""} {
		for _, a := range atoms(q, "r") {
			s := &sel{key: "where/" + a.key}
			add(s.withWhere([]item{a}))
		}
	}
	sm := small("r", "r")
	// by shape
	for _, sh := range shapes {
		s := &sel{key: "shape/" + sh + "/none", shape: sh}
		add(s)
		for _, a := range sm {
			s := &sel{key: "shape/" + sh + "/" + a.key, shape: sh}
			add(s.withWhere([]item{a}))
		}
		for _, a := range []item{sm[0], sm[3]} {
			s := &sel{key: "shape/" + sh + "/pair/" + a.key, shape: sh}
			add(s.withWhere([]item{a, or(sm[1]), and(sm[2])}))
		}
	}
	// combinations
	bools := []string{"", "and", "or"}
	for _, a := range sm {
		for _, b := range sm {
			for _, o := range bools {
				b.bool_ = o
				s := &sel{}
				s.withWhere([]item{a, b})
				s.key = "pair/" + itemKey([]item{a, b}) + "/" + o
				add(s)
			}
		}
	}
	three := []item{sm[0], sm[2], sm[3], sm[6]}
	if r.Thorough() {
		three = sm
	}
	ao := []string{"and", "or"}
	combine := func(kind string, its []item) {
		s := &sel{}
		s.withWhere(its)
		s.key = kind + "/" + itemKey(its)
		add(s)
	}
	for _, a := range three {
		for _, b := range three {
			for _, c := range three {
				for _, o1 := range ao {
					for _, o2 := range ao {
						b, c := b, c
						b.bool_, c.bool_ = o1, o2
						combine("triple", []item{a, b, c})
						if a.key == three[0].key || r.Thorough() {
							n := nest(b, c)
							n.bool_ = o1
							combine("nest-right", []item{a, n})
							n = nest(a, b)
							combine("nest-left", []item{n, c})
						}
					}
				}
			}
		}
	}
	// four items, nesting two deep
	x, y, z, u := sm[0], sm[2], sm[3], sm[6]
	for _, o1 := range ao {
		for _, o2 := range ao {
			for _, o3 := range ao {
				b := func(it item, o string) item { it.bool_ = o; return it }
				combine("four", []item{x, b(y, o1), b(z, o2), b(u, o3)})
				combine("nest2a", []item{nest(x, b(y, o1)), b(nest(z, b(u, o3)), o2)})
				combine("nest2b", []item{x, b(nest(y, b(nest(z, b(u, o3)), o2)), o1)})
				combine("nest2c", []item{nest(nest(x, b(y, o1)), b(z, o2)), b(u, o3)})
				combine("nest2d", []item{x, b(nest(nest(y, b(z, o2))), o1), b(nest(u), o3)})
				combine("nest2e", []item{nest(nest(nest(x))), b(nest(nest(y), b(z, o2)), o1), b(u, o3)})
			}
		}
	}
	// two lists of parameters around others
	in := func(name string) item { return pickAtom("r", name) }
	combine("lists", []item{in("num isin []int"), and(in("num =")), or(in("txt isin []string")), and(in("txt ="))})
	combine("lists2", []item{in("num notin []int"), or(nest(in("txt notin []string"), or(in("flag =")))), and(in("num isbetween"))})
	combine("lists3", []item{in("num = any []int"), or(in("num isin []int")), and(in("num <> all []int"))})

	out = append(out, c11Joins(r)...)
	out = append(out, c11Order(r)...)
	out = append(out, c11Limit(r)...)
	out = append(out, c11Filter(r)...)
	out = append(out, c11Records(r)...)
	out = append(out, c11Special(r)...)
	return out
}

func pickAtom(q, name string) item {
	for _, a := range atoms(q, "r") {
		if strings.TrimPrefix(a.key, q+".") == name {
			return a
		}
	}
	panic("no predicate " + name)
}

type joinKind struct{ dir, sql string }

var joinKinds = []joinKind{{"InnerJoin", "INNER JOIN"}, {"LeftJoin", "LEFT JOIN"}, {"RightJoin", "RIGHT JOIN"}, {"FullJoin", "FULL JOIN"}, {"CrossJoin", "CROSS JOIN"}}

func c11Joins(r *vf.Run) (out []*Case) {
	type cond struct{ tag, sql string }
	conds := []cond{
		{"k.rec_id = r.id", "k.rec_id = r.id"},
		{"k.rec_id = r.id,k.num = 1", "k.rec_id = r.id AND k.num = 1"},
		{"k.rec_id = r.id;k.num = r.num", "k.rec_id = r.id OR k.num = r.num"},
		{"k.rec_id = r.id,k.flag istrue;k.txt = r.txt", "k.rec_id = r.id AND k.flag IS TRUE OR k.txt = r.txt"},
		{"k.rec_id = r.id;k.num = r.num,k.age > 1", "k.rec_id = r.id OR k.num = r.num AND k.age > 1"},
		{"k.flag", "k.flag IS TRUE"},
		{"k.num isnull", "k.num IS NULL"},
		{"k.age <= r.rank", "k.age <= r.rank"},
		{"k.num isdistinct r.num", "k.num IS DISTINCT FROM r.num"},
		{"k.txt islike r.txt", "k.txt LIKE r.txt"},
		{"k.age = any r.arr", "k.age = ANY(r.arr)"},
		{"k.txt = 'a'", "k.txt = 'a'"},
	}
	full := map[string]bool{"k.rec_id = r.id": true, "k.rec_id = r.id,k.num = 1": true}
	wheres := func() []item {
		return []item{
			{},
			{key: "k.num =", field: "NAME int `sql:\"k.num =\"BOOL`", ref: "k.num = {0}", params: []wparam{{"", vals("int", 1, 2)}}},
			dirItem("k.kid isnull", "k.kid isnull", "k.kid IS NULL"),
			dirItem("k.age notnull", "k.age notnull", "k.age IS NOT NULL"),
			{key: "k.txt isin", field: "NAME []string `sql:\"k.txt isin\"BOOL`", ref: "k.txt = ANY({0})", params: []wparam{{"", lists("text", []any{"a"}, []any{"a", "ab"})}}},
			dirItem("r.num = k.num", "r.num = k.num", "r.num = k.num"),
		}
	}
	add := func(s *sel) { out = append(out, s.toCase()) }
	join := func(tags ...string) string {
		return "Join struct {\n" + strings.Join(tags, "\n") + "\n}"
	}
	for _, jk := range joinKinds {
		for _, c := range append([]cond{{}}, conds...) {
			if jk.dir == "FullJoin" && c.tag != "" && !full[c.tag] {
				continue // PostgreSQL supports no other conditions
			}
			t, jsql, on := "kids:k", jk.sql, ""
			if c.tag != "" {
				t += "," + c.tag
				on = " ON " + c.sql
				if jk.dir == "CrossJoin" {
					jsql = "INNER JOIN" // what a cross join with a condition is
				}
			} else if jk.dir != "CrossJoin" {
				on = " ON TRUE"
			}
			for _, sh := range []string{"slice", "count", "exists"} {
				for _, w := range wheres() {
					if sh != "slice" && w.key != "k.num =" {
						continue
					}
					s := &sel{key: fmt.Sprintf("join/%s/%s/%s/%s", jk.dir, c.tag, sh, w.key), shape: sh, rec: "RecPtr"}
					s.fields = append(s.fields, join("_ gosql."+jk.dir+" "+tag(t)))
					s.from = " " + jsql + " kids k" + on
					if w.key != "" {
						s.withWhere([]item{w})
					}
					add(s)
				}
			}
		}
	}
	// two joins
	for _, j1 := range joinKinds[:4] {
		for _, j2 := range joinKinds {
			for _, sh := range []string{"slice", "exists"} {
				s := &sel{key: "join2/" + j1.dir + "/" + j2.dir + "/" + sh, rec: "RecPtr", shape: sh}
				t2, on2 := "toys:t", ""
				if j2.dir != "CrossJoin" {
					t2, on2 = "toys:t,t.kid_id = k.kid", " ON t.kid_id = k.kid"
				}
				s.fields = append(s.fields, join("_ gosql."+j1.dir+" "+tag("kids:k,k.rec_id = r.id"), "_ gosql."+j2.dir+" "+tag(t2)))
				s.from = " " + j1.sql + " kids k ON k.rec_id = r.id " + j2.sql + " toys t" + on2
				s.withWhere([]item{{key: "t.label =", field: "NAME string `sql:\"t.label =\"BOOL`", ref: "t.label = {0}", params: []wparam{{"", vals("text", "x", "y")}}}, or(dirItem("t.label isnull", "t.label isnull", "t.label IS NULL"))})
				add(s)
			}
		}
	}
	// two joins, one or both declared without a condition
	for _, j1 := range joinKinds {
		for _, j2 := range joinKinds {
			for m := 0; m < 4; m++ {
				s := &sel{key: fmt.Sprintf("join2/bare/%s/%s/%d", j1.dir, j2.dir, m), rec: "RecPtr", shape: "slice"}
				side := func(jk joinKind, rel, cond string, with bool) (string, string) {
					switch {
					case with && jk.dir == "CrossJoin":
						return tag(rel + "," + cond), " INNER JOIN " + strings.Replace(rel, ":", " ", 1) + " ON " + cond
					case with:
						return tag(rel + "," + cond), " " + jk.sql + " " + strings.Replace(rel, ":", " ", 1) + " ON " + cond
					case jk.dir == "CrossJoin":
						return tag(rel), " CROSS JOIN " + strings.Replace(rel, ":", " ", 1)
					}
					return tag(rel), " " + jk.sql + " " + strings.Replace(rel, ":", " ", 1) + " ON TRUE"
				}
				t1, f1 := side(j1, "kids:k", "k.rec_id = r.id", m&1 != 0)
				t2, f2 := side(j2, "toys:t", "t.kid_id = k.kid", m&2 != 0)
				s.fields = append(s.fields, join("_ gosql."+j1.dir+" "+t1, "_ gosql."+j2.dir+" "+t2))
				s.from = f1 + f2
				s.withWhere([]item{{key: "k.num =", field: "NAME int `sql:\"k.num =\"BOOL`", ref: "k.num = {0}", params: []wparam{{"", vals("int", 1, 2)}}}})
				add(s)
			}
		}
	}
	// self join, three joins, order and limit on joined columns
	s := &sel{key: "join/self", rec: "RecPtr"}
	s.fields = append(s.fields, join("_ gosql.InnerJoin "+tag("recs:o,o.num = r.id")))
	s.from = " JOIN recs o ON o.num = r.id"
	s.withWhere([]item{{key: "o.txt", field: "NAME string `sql:\"o.txt =\"BOOL`", ref: "o.txt = {0}", params: []wparam{{"", vals("text", "a", "ab")}}}})
	add(s)
	s = &sel{key: "join/three", rec: "Rec", shape: "slice", order: "r.id ASC, t.tid DESC NULLS LAST", uniq: true, limit: "4", offset: "1"}
	s.fields = append(s.fields, join("_ gosql.LeftJoin "+tag("kids:k,k.rec_id = r.id"), "_ gosql.LeftJoin "+tag("toys:t,t.kid_id = k.kid"), "_ gosql.LeftJoin "+tag("toys:u,u.tid = t.tid")),
		"_ gosql.OrderBy "+tag("r.id,-t.tid"), "_ gosql.Limit "+tag("4"), "_ gosql.Offset "+tag("1"))
	s.from = " LEFT JOIN kids k ON k.rec_id = r.id LEFT JOIN toys t ON t.kid_id = k.kid LEFT JOIN toys u ON u.tid = t.tid"
	add(s)
	s = &sel{key: "join/single", rec: "Rec", shape: "ptr", order: "r.id ASC, k.kid DESC NULLS LAST", uniq: true}
	s.fields = append(s.fields, join("_ gosql.InnerJoin "+tag("kids:k,k.rec_id = r.id")), "_ gosql.OrderBy "+tag("r.id,-k.kid"))
	s.from = " JOIN kids k ON k.rec_id = r.id"
	s.withWhere([]item{{key: "k.txt =", field: "NAME string `sql:\"k.txt =\"BOOL`", ref: "k.txt = {0}", params: []wparam{{"", vals("text", "a", "ab", "none")}}}})
	add(s)
	s = &sel{key: "join/schema", rec: "Rec"}
	s.fields = append(s.fields, join("_ gosql.LeftJoin "+tag("sec.recs:z,z.id = r.id")))
	s.from = " LEFT JOIN sec.recs z ON z.id = r.id"
	s.withWhere([]item{{key: "z.txt", field: "NAME string `sql:\"z.txt =\"BOOL`", ref: "z.txt = {0}", params: []wparam{{"", vals("text", "sec", "ab")}}}})
	add(s)
	s = &sel{key: "join/unaliased", rec: "Rec", rel: "recs", relSQL: "recs", al: "recs"}
	s.fields = append(s.fields, join("_ gosql.InnerJoin "+tag("kids:k,k.rec_id = recs.id")))
	s.from = " JOIN kids k ON k.rec_id = recs.id"
	add(s)
	return
}

func c11Order(r *vf.Run) (out []*Case) {
	add := func(s *sel) { out = append(out, s.toCase()) }
	type mod struct{ pre, suf, sql string }
	mods := []mod{{"", "", "ASC NULLS LAST"}, {"-", "", "DESC NULLS LAST"}, {"", ":nullsfirst", "ASC NULLS FIRST"}, {"-", ":nullsfirst", "DESC NULLS FIRST"}, {"", ":nullslast", "ASC NULLS LAST"}, {"-", ":nullslast", "DESC NULLS LAST"}}
	for _, col := range []string{"num", "flag", "txt", "group", "MixedCase", "ts", "mood"} {
		for _, m := range mods {
			for _, q := range []string{"r.", ""} {
				t := m.pre + q + col + m.suf
				s := &sel{key: "order/" + t, order: fmt.Sprintf(`r.%q %s, r.id ASC`, col, m.sql), uniq: true}
				s.fields = append(s.fields, "_ gosql.OrderBy "+tag(t+","+q+"id"))
				add(s)
			}
		}
	}
	for _, m1 := range mods {
		for _, m2 := range mods {
			s := &sel{key: "order2/" + m1.pre + m1.suf + "/" + m2.pre + m2.suf, rec: "RecNum", order: "r.num " + m1.sql + ", r.flag " + m2.sql, ordcol: true}
			s.fields = append(s.fields, "_ gosql.OrderBy "+tag(m1.pre+"r.num"+m1.suf+","+m2.pre+"r.flag"+m2.suf))
			add(s)
		}
	}
	for _, sh := range shapes[:9] {
		s := &sel{key: "order-shape/" + sh, shape: sh, order: "r.num DESC NULLS LAST, r.id DESC", uniq: true}
		s.fields = append(s.fields, "_ gosql.OrderBy "+tag("-r.num, -r.id"))
		add(s.withWhere([]item{pickAtom("r", "txt =")}))
	}
	return
}

func c11Limit(r *vf.Run) (out []*Case) {
	add := func(s *sel) { out = append(out, s.toCase()) }
	type lo struct {
		key, field, ref string
		param           *Param
	}
	mk := func(name string) (l []lo) {
		l = append(l, lo{})
		for _, n := range []string{"1", "5", "40"} {
			l = append(l, lo{key: "dir" + n, field: "_ gosql." + name + " " + tag(n), ref: n})
		}
		for _, typ := range []string{"int", "uint", "int64", "uint8"} {
			l = append(l, lo{key: "field-" + typ, field: name + " " + typ, ref: "P", param: &Param{Path: name, Vals: vals("", 0, 1, 6, 40)}})
			dv := vals("", 0, 2, 40)
			dv[0].SQL = "7"
			l = append(l, lo{key: "default-" + typ, field: name + " " + typ + " " + tag("7"), ref: "P", param: &Param{Path: name, Vals: dv}})
		}
		return
	}
	for i, l := range mk("Limit") {
		for k, o := range mk("Offset") {
			if l.key == "" && o.key == "" {
				continue
			}
			if i > 6 && k > 6 && i != k && !r.Thorough() {
				continue
			}
			for _, variant := range []string{"plain", "ordered", "where", "lists", "before", "offset-first", "iter", "count", "exists"} {
				if (i > 5 || k > 5) && variant != "plain" && variant != "where" && !r.Thorough() {
					continue
				}
				s := &sel{key: "limit/" + l.key + "/" + o.key + "/" + variant}
				pre := 0
				if variant == "iter" {
					s.shape = "iter"
				}
				if variant == "count" || variant == "exists" {
					continue
				}
				if variant != "plain" {
					s.fields = append(s.fields, "_ gosql.OrderBy "+tag("r.id"))
					s.order, s.uniq = "r.id ASC", true
				}
				switch variant {
				case "where":
					s.withWhere([]item{pickAtom("r", "rank = any r.arr"), or(pickAtom("r", "txt <>"))})
					trim(s, 2)
				case "lists":
					s.withWhere([]item{pickAtom("r", "num isin []int"), or(pickAtom("r", "txt isin []string"))})
					trim(s, 2)
				}
				ls := []lo{l, o}
				if variant == "offset-first" {
					ls = []lo{o, l}
				}
				var fs []string
				for _, x := range ls {
					if x.field == "" {
						continue
					}
					fs = append(fs, x.field)
				}
				_ = pre
				if variant == "before" {
					s.before = append(s.before, fs...)
					s.withWhere([]item{pickAtom("r", "num isin []int"), or(pickAtom("r", "num ="))})
					trim(s, 2)
				} else {
					s.fields = append(s.fields, fs...)
				}
				ref := func(x lo) string {
					if x.param == nil {
						return x.ref
					}
					s.params = append(s.params, *x.param)
					return fmt.Sprintf("§%d§", len(s.params)-1)
				}
				s.limit, s.offset = ref(l), ref(o)
				add(s)
			}
		}
	}
	// single records with a limit or an offset
	for _, v := range []struct{ key, f, l, o string }{
		{"limit1", "_ gosql.Limit `sql:\"1\"`", "1", ""},
		{"offset2", "_ gosql.Offset `sql:\"2\"`", "", "2"},
		{"limit1offset2", "_ gosql.Limit `sql:\"1\"`\n_ gosql.Offset `sql:\"2\"`", "1", "2"},
	} {
		for _, sh := range []string{"ptr", "val", "func", "iter"} {
			s := &sel{key: "limit-single/" + v.key + "/" + sh, shape: sh, order: "r.num ASC NULLS LAST, r.id ASC", uniq: true, limit: v.l, offset: v.o}
			s.fields = append(s.fields, "_ gosql.OrderBy "+tag("r.num,r.id"), v.f)
			add(s.withWhere([]item{pickAtom("r", "txt =")}))
		}
	}
	return
}

func trim(s *sel, n int) {
	for i := range s.params {
		if v := s.params[i].Vals; len(v) > n {
			s.params[i].Vals = append([]Val{v[0]}, v[len(v)-n+1:]...)
		}
	}
}

func filt(sql string, ref string, args ...any) Val {
	if args == nil {
		args = []any{}
	}
	return Val{Go: raw(map[string]any{"sql": sql, "args": args}), SQL: ref}
}

func c11Filter(r *vf.Run) (out []*Case) {
	add := func(s *sel) { out = append(out, s.toCase()) }
	plain := []Val{
		filt("", ""),
		filt(` WHERE r.num = ?`, ` WHERE r.num = 1`, 1),
		filt(` WHERE r.num = ? OR r.txt = ?`, ` WHERE r.num = 2 OR r.txt = 'ab'`, 2, "ab"),
		filt(` WHERE r.num IS NULL`, ` WHERE r.num IS NULL`),
		filt(` WHERE r.num = ?`, ` WHERE r.num = 77`, 77),
	}
	paged := []Val{
		filt(` ORDER BY r.id DESC LIMIT ?`, ` ORDER BY r.id DESC LIMIT 3`, 3),
		filt(` WHERE r.txt = ? ORDER BY r.id ASC LIMIT ? OFFSET ?`, ` WHERE r.txt = 'a' ORDER BY r.id ASC LIMIT 2 OFFSET 1`, "a", 2, 1),
	}
	for _, sh := range shapes {
		s := &sel{key: "filter/" + sh, shape: sh}
		v := plain
		if sh == "slice" || sh == "slicev" || sh == "func" || sh == "iter" || sh == "exists" {
			v = append(append([]Val{}, plain...), paged...)
		}
		s.fields = append(s.fields, "Filter gosql.Filter")
		s.init = "q.Filter = vfrt.Filt{S: s}"
		s.params = []Param{{Path: "@filter", Vals: v}}
		s.from = "§0§"
		add(s)
	}
	// joins next to the filter
	s := &sel{key: "filter/join", shape: "slice"}
	s.fields = append(s.fields, "Filter gosql.Filter", "Join struct {\n_ gosql.LeftJoin "+tag("kids:k,k.rec_id = r.id")+"\n}")
	s.init = "q.Filter = vfrt.Filt{S: s}"
	s.params = []Param{{Path: "@filter", Vals: append(plain, filt(" WHERE k.num = ?", " WHERE k.num = 2", 2))}}
	s.from = " LEFT JOIN kids k ON k.rec_id = r.id §0§"
	add(s)
	// order, limit and offset of the declaration apply to what the filter lets through
	for _, v := range []struct{ key, f, tail string }{
		{"order", "_ gosql.OrderBy `sql:\"-r.id\"`", " ORDER BY r.id DESC"},
		{"order-limit", "_ gosql.OrderBy `sql:\"-r.id\"`\n_ gosql.Limit `sql:\"2\"`", " ORDER BY r.id DESC LIMIT 2"},
		{"order-limit-offset", "_ gosql.OrderBy `sql:\"-r.id\"`\n_ gosql.Limit `sql:\"2\"`\n_ gosql.Offset `sql:\"1\"`", " ORDER BY r.id DESC LIMIT 2 OFFSET 1"},
	} {
		for _, sh := range []string{"slice", "iter"} {
			s := &sel{key: "filter-" + v.key + "/" + sh, shape: sh}
			s.fields = append(s.fields, "Filter gosql.Filter", v.f)
			s.init = "q.Filter = vfrt.Filt{S: s}"
			s.params = []Param{{Path: "@filter", Vals: plain}}
			s.from = "§0§" + v.tail
			add(s)
		}
	}
	for _, v := range []struct{ key, f, tail string }{
		{"limit-field", "Limit int", " LIMIT §1§"},
		{"limit-field-default", "Limit int `sql:\"7\"`", " LIMIT §1§"},
	} {
		s := &sel{key: "filter-" + v.key, shape: "slice"}
		s.fields = append(s.fields, "_ gosql.OrderBy `sql:\"r.id\"`", "Filter gosql.Filter", v.f)
		s.init = "q.Filter = vfrt.Filt{S: s}"
		lv := vals("", 0, 2)
		if v.key != "limit-field" {
			lv[0].SQL = "7"
		}
		s.params = []Param{{Path: "@filter", Vals: plain}, {Path: "Limit", Vals: lv}}
		s.from = "§0§ ORDER BY r.id" + v.tail
		add(s)
	}
	return
}

func c11Records(r *vf.Run) (out []*Case) {
	for _, rt := range records {
		if rt.writeOnly {
			continue
		}
		for _, sh := range shapes[:9] {
			if rt.ext && (sh == "inline" || sh == "iter" && rt.name != "ext.Rec" || sh == "named" && rt.name != "ext.Rec") {
				continue
			}
			s := &sel{key: "record/" + rt.name + "/" + sh, shape: sh, rec: rt.name, order: "r.id ASC", uniq: true}
			s.fields = append(s.fields, "_ gosql.OrderBy `sql:\"r.id\"`")
			out = append(out, s.withWhere([]item{pickAtom("r", "txt =")}).toCase())
		}
	}
	return
}

func c11Special(r *vf.Run) (out []*Case) {
	add := func(s *sel) { out = append(out, s.toCase()) }
	for _, sh := range shapes {
		s := &sel{key: "view/" + sh, shape: sh, rel: "recs_view:v", relSQL: "recs_view v", al: "v", rec: "RecNum"}
		s.where = "v.txt = §0§"
		s.fields = append(s.fields, "Where struct {\nTxt string `sql:\"v.txt\"`\n}")
		s.params = []Param{{Path: "Where.Txt", Vals: vals("text", "a", "ab")}}
		add(s)
		for _, k := range []struct{ rel, rec string }{{"recs_part", "RecZ"}, {"recs_part", "RecFull"}, {"recs_base", "RecZ"}, {"recs_heir", "RecZ"}, {"recs_mat", "RecFull"}} {
			s = &sel{key: "kind/" + k.rel + "/" + k.rec + "/" + sh, shape: sh, rel: k.rel + ":v", relSQL: k.rel + " v", al: "v", rec: k.rec}
			s.where = "v.txt = §0§"
			s.fields = append(s.fields, "Where struct {\nTxt string `sql:\"v.txt\"`\n}")
			s.params = []Param{{Path: "Where.Txt", Vals: vals("text", "a", "ab")}}
			add(s)
		}
		s = &sel{key: "schema/" + sh, shape: sh, rel: "sec.recs:s", relSQL: "sec.recs s", al: "s"}
		s.where = "s.num = §0§"
		s.fields = append(s.fields, "Where struct {\nNum int `sql:\"s.num\"`\n}")
		s.params = []Param{{Path: "Where.Num", Vals: vals("int", 7, 8)}}
		add(s)
		s = &sel{key: "unaliased/" + sh, shape: sh, rel: "recs", relSQL: "recs", al: "recs"}
		s.where = "recs.num = §0§"
		s.fields = append(s.fields, "Where struct {\nNum int `sql:\"num\"`\n}")
		s.params = []Param{{Path: "Where.Num", Vals: vals("int", 1, 2)}}
		add(s)
		s = &sel{key: "unaliased-schema/" + sh, shape: sh, rel: "sec.recs", relSQL: "sec.recs", al: "recs"}
		s.where = "recs.num = §0§"
		s.fields = append(s.fields, "Where struct {\nNum int `sql:\"num\"`\n}")
		s.params = []Param{{Path: "Where.Num", Vals: vals("int", 7, 2)}}
		add(s)
	}
	// empty lists
	for _, q := range []struct{ key, op, ref string }{{"isin", "isin", "false"}, {"notin", "notin", "true"}} {
		s := &sel{key: "empty-list/" + q.key, where: "(" + q.ref + ") AND r.txt = §1§"}
		s.fields = append(s.fields, "Where struct {\nNums []int `sql:\"r.num "+q.op+"\"`\nTxt string `sql:\"r.txt =\"`\n}")
		s.params = []Param{{Path: "Where.Nums", Vals: lists("int", nil)}, {Path: "Where.Txt", Vals: vals("text", "a")}}
		add(s)
	}
	// field tags without a name in a where struct, tag spellings
	s := &sel{key: "where/spaces", where: "r.num >= §0§ AND r.txt = §1§"}
	s.fields = append(s.fields, "Where struct {\nNum int `sql:\"r.num  >=\"`\nTxt string `sql:\"r.txt\"`\n}")
	s.params = []Param{{Path: "Where.Num", Vals: vals("int", 1, 2)}, {Path: "Where.Txt", Vals: vals("text", "a")}}
	add(s)
	// words as operators
	for _, w := range []struct{ in, sql string }{{"islike", "LIKE"}, {"isilike", "ILIKE"}, {"issimilar", "SIMILAR TO"}} {
		s := &sel{key: "where/case/" + w.in, where: "r.txt " + w.sql + " §0§"}
		s.fields = append(s.fields, "Where struct {\nTxt string `sql:\"r.txt "+strings.ToUpper(w.in)+"\"`\n}")
		s.params = []Param{{Path: "Where.Txt", Vals: vals("text", "a%", "%B")}}
		add(s)
	}
	// a where struct declared as a pointer or elsewhere
	s = &sel{key: "where/named", where: "r.num = §0§"}
	s.fields = append(s.fields, "Where NamedWhere")
	s.params = []Param{{Path: "Where.Num", Vals: vals("int", 1, 2)}}
	add(s)
	// quoted columns
	s = &sel{key: "where/quoted", where: `r."group" = §0§ OR r."MixedCase" = §1§`}
	s.fields = append(s.fields, "Where struct {\nG int `sql:\"r.group =\"`\nM int `sql:\"r.MixedCase =\" bool:\"or\"`\n}")
	s.params = []Param{{Path: "Where.G", Vals: vals("int", 1, 2)}, {Path: "Where.M", Vals: vals("int", 0, 2)}}
	add(s)
	// types of arguments
	s = &sel{key: "where/time", where: "r.ts > §0§"}
	s.fields = append(s.fields, "Where struct {\nTS time.Time `sql:\"r.ts >\"`\n}")
	s.params = []Param{{Path: "Where.TS", Vals: vals("timestamptz", "2020-01-02T12:00:00.25Z", "2020-01-01T00:00:00Z")}}
	add(s)
	s = &sel{key: "where/enum", where: "r.mood = §0§ OR r.mood > §1§"}
	s.fields = append(s.fields, "Where struct {\nA string `sql:\"r.mood =\"`\nB string `sql:\"r.mood >\" bool:\"or\"`\n}")
	s.params = []Param{{Path: "Where.A", Vals: vals("mood", "sad", "ok")}, {Path: "Where.B", Vals: vals("mood", "ok", "happy")}}
	add(s)
	s = &sel{key: "where/valuer", where: "r.txt = §0§"}
	s.fields = append(s.fields, "Where struct {\nA ext.Str `sql:\"r.txt =\"`\n}")
	s.params = []Param{{Path: "Where.A", Vals: vals("text", "a", "ab")}}
	add(s)
	return
}
