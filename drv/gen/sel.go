package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// sel describes a SELECT declaration together with its reference.
type sel struct {
	key    string
	rel    string // the rel tag
	relSQL string // the reference's relation
	al     string // its qualifier
	shape  string // how the records are delivered
	rec    string
	before []string // fields before the rel field
	fields []string // fields after it
	from   string   // joins of the reference
	where  string
	order  string
	uniq   bool // the order is total
	ordcol bool // ties are indistinguishable in the record
	limit  string
	offset string
	params []Param
	init   string
	typ    *record // overrides rec (e.g. of another relation)
	maxr   int
	group  string
}

func raw(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func tag(s string) string { return "`sql:" + strconv.Quote(s) + "`" }

func lit(v any) string {
	switch x := v.(type) {
	case string:
		return "'" + strings.ReplaceAll(x, "'", "''") + "'"
	case bool:
		return strconv.FormatBool(x)
	case nil:
		return "NULL"
	}
	return fmt.Sprint(v)
}

// vals makes values with the given cast in the reference.
func vals(cast string, vs ...any) (out []Val) {
	for _, v := range vs {
		s := lit(v)
		if cast != "" {
			s = "(" + s + ")::" + cast
		}
		out = append(out, Val{Go: raw(v), SQL: s})
	}
	return
}

func lists(elem string, vs ...[]any) (out []Val) {
	for _, l := range vs {
		var b []string
		for _, v := range l {
			b = append(b, lit(v))
		}
		if l == nil {
			l = []any{}
		}
		out = append(out, Val{Go: raw(l), SQL: "ARRAY[" + strings.Join(b, ",") + "]::" + elem + "[]"})
	}
	return
}

var shapes = []string{"ptr", "val", "slice", "slicev", "func", "funcv", "iter", "inline", "named", "count", "exists", "notexists"}

func (s *sel) relField() (field, init, out string) {
	t := s.rec
	switch s.shape {
	case "ptr":
		return "Rel *" + t, "", "Rel"
	case "val":
		return "Rel " + t, "", "Rel"
	case "slice":
		return "Rel []*" + t, "", "Rel"
	case "slicev":
		return "Rel []" + t, "", "Rel"
	case "func":
		return "Rel func(*" + t + ") error", "q.Rel = func(v *" + t + ") error { return s.Row(v) }", "@sink"
	case "funcv":
		return "Rel func(" + t + ") error", "q.Rel = func(v " + t + ") error { return s.Row(v) }", "@sink"
	case "iter":
		if t == "ext.Rec" {
			return "Rel ext.Iter", "q.Rel = extSink{s}", "@sink"
		}
		return "Rel " + t + "Iter", "q.Rel = " + t + "Sink{s}", "@sink"
	case "inline":
		return "Rel interface{ Next(*" + t + ") error }", "q.Rel = " + t + "Sink{s}", "@sink"
	case "named":
		if t == "ext.Rec" {
			return "Rel ext.Func", "q.Rel = func(v *ext.Rec) error { return s.Row(v) }", "@sink"
		}
		return "Rel " + t + "Func", "q.Rel = func(v " + t + ") error { return s.Row(v) }", "@sink"
	case "count":
		return "Count int", "", "Count"
	case "exists":
		return "Exists bool", "", "Exists"
	case "notexists":
		return "NotExists bool", "", "NotExists"
	}
	panic("shape " + s.shape)
}

func (s *sel) toCase() *Case {
	if s.rel == "" {
		s.rel, s.relSQL, s.al = "recs:r", "recs r", "r"
	}
	if s.shape == "" {
		s.shape = "slice"
	}
	if s.rec == "" {
		s.rec = "Rec"
	}
	rt := s.typ
	if rt == nil {
		rt = rec(s.rec)
	}
	field, init, out := s.relField()
	if s.init != "" {
		init += "; " + s.init
	}
	body := append(append([]string{}, s.before...), field+" `rel:"+strconv.Quote(s.rel)+"`")
	body = append(body, s.fields...)
	j := &Job{Mode: "select", Params: s.params, Out: out, Each: -1, MaxRuns: s.maxr}
	from := " FROM " + s.relSQL + s.from
	if s.where != "" {
		from += " WHERE " + s.where
	}
	tail := ""
	if s.order != "" {
		tail += " ORDER BY " + s.order
	}
	lim := ""
	if s.limit != "" {
		lim += " LIMIT " + s.limit
	}
	if s.offset != "" {
		lim += " OFFSET " + s.offset
	}
	var ref string
	switch s.shape {
	case "count":
		ref = "SELECT count(*)::text" + from
		j.Cmp = "exact"
	case "exists":
		ref = "SELECT (EXISTS(SELECT 1" + from + tail + lim + "))::text"
		j.Cmp = "exact"
	case "notexists":
		ref = "SELECT (NOT EXISTS(SELECT 1" + from + tail + lim + "))::text"
		j.Cmp = "exact"
	default:
		j.Leaves = rt.jsonLeaves()
		if rt.after != "" {
			j.After = rt.after
		}
		ref = "SELECT " + rt.cols(s.al) + from + tail
		single := s.shape == "ptr" || s.shape == "val"
		total := s.order != "" && (s.uniq || s.ordcol)
		switch {
		case single && total && (s.limit == "" || s.limit == "1"):
			ref += " LIMIT 1"
			if s.offset != "" {
				ref += " OFFSET " + s.offset
			}
			j.Cmp = "single"
		case single && total:
			ref += lim
			j.Cmp = "single"
		case single && s.offset == "" && s.limit == "":
			j.Cmp = "single-member"
		case single:
			panic("single record with limit or offset without a total order: " + s.key)
		case total:
			ref += lim
			j.Cmp = "exact"
		case lim != "":
			l, o := s.limit, s.offset
			if l == "" {
				l = "-1"
			}
			if o == "" {
				o = "0"
			}
			j.Cmp = "member:" + l + ":" + o
		default:
			j.Cmp = "multiset"
		}
	}
	j.Ref = []string{ref}
	return &Case{Key: s.key, Kind: "Select", Body: strings.Join(body, "\n"), Init: init, Job: j, Want: "accept", Group: s.group}
}

// An item of a where struct.
type item struct {
	key    string
	bool_  string // and, or or "" (and)
	field  string // with NAME for the field's name and BOOL for the bool tag
	ref    string // with {0}... for its parameters
	params []wparam
	nested []item
}

type wparam struct {
	path string
	vals []Val
}

var ints = []any{0, 1, 2}
var strs = []any{"", "a", "B%", "ab", "%b", "a'b", "_b", "(", `\`}

func binop(col, op, gotype, cast string, vs []any) item {
	o := op
	if op != "" {
		o = " " + op
	}
	return item{key: col + o, field: "NAME " + gotype + " " + "`sql:" + strconv.Quote(col+o) + "BOOL`", params: []wparam{{"", vals(cast, vs...)}}}
}

func dirItem(key, expr, ref string) item {
	return item{key: key, field: "_ gosql.Column `sql:" + strconv.Quote(expr) + "BOOL`", ref: ref}
}

// atoms returns the predicates, on the relation qualified with q (which may be empty: then the
// reference still qualifies with al).
func atoms(q, al string) []item {
	if q != "" {
		q += "."
	}
	cl := func(n string) string { return al + "." + n }
	var out []item
	add := func(it item, ref string) {
		it.ref = ref
		out = append(out, it)
	}
	cmp := map[string]string{"": "=", "=": "=", "<>": "<>", "!=": "<>", "<": "<", ">": ">", "<=": "<=", ">=": ">="}
	for _, op := range []string{"", "=", "<>", "!=", "<", ">", "<=", ">="} {
		add(binop(q+"num", op, "int", "int", ints), cl("num")+" "+cmp[op]+" {0}")
	}
	for _, op := range []string{"=", "<>", "<", ">="} {
		add(binop(q+"txt", op, "string", "text", strs), cl("txt")+" "+cmp[op]+" {0}")
	}
	pvals := append(vals("int", 1), Val{Go: raw(nil), SQL: "NULL::int"})
	it := item{key: q + "num = ptr", field: "NAME *int " + "`sql:\"" + q + "num =\"BOOL`", params: []wparam{{"", pvals}}}
	add(it, cl("num")+" = {0}")
	it = item{key: q + "num isdistinct ptr", field: "NAME *int " + "`sql:\"" + q + "num isdistinct\"BOOL`", params: []wparam{{"", pvals}}}
	add(it, cl("num")+" IS DISTINCT FROM {0}")
	add(binop(q+"num", "notdistinct", "int", "int", ints), cl("num")+" IS NOT DISTINCT FROM {0}")
	add(binop(q+"num", "isdistinct", "int", "int", ints), cl("num")+" IS DISTINCT FROM {0}")
	add(binop(q+"flag", "=", "bool", "bool", []any{true, false}), cl("flag")+" = {0}")
	add(binop(q+"big", "=", "int64", "int8", []any{4000000000, 4000000003, 1}), cl("big")+" = {0}")
	add(binop(q+"f8", ">=", "float64", "float8", []any{0, 1.5, 2}), cl("f8")+" >= {0}")
	add(binop(q+"txt", "islike", "string", "text", strs), cl("txt")+" LIKE {0}")
	add(binop(q+"txt", "notlike", "string", "text", strs), cl("txt")+" NOT LIKE {0}")
	ci := append(append([]any{}, strs...), "A%", "b%")
	add(binop(q+"txt", "isilike", "string", "text", ci), cl("txt")+" ILIKE {0}")
	add(binop(q+"txt", "notilike", "string", "text", ci), cl("txt")+" NOT ILIKE {0}")
	add(binop(q+"txt", "issimilar", "string", "text", append(ci, "(a|ab)", "[aB]%")), cl("txt")+" SIMILAR TO {0}")
	add(binop(q+"txt", "notsimilar", "string", "text", append(ci, "(a|ab)", "[aB]%")), cl("txt")+" NOT SIMILAR TO {0}")
	rx := append(ci, "^a", "b$", "^[Ab]")
	add(binop(q+"txt", "~", "string", "text", rx), cl("txt")+" ~ {0}")
	add(binop(q+"txt", "~*", "string", "text", rx), cl("txt")+" ~* {0}")
	add(binop(q+"txt", "!~", "string", "text", rx), cl("txt")+" !~ {0}")
	add(binop(q+"txt", "!~*", "string", "text", rx), cl("txt")+" !~* {0}")

	// sets
	nl := lists("int", []any{1}, []any{1, 2}, []any{2, 1, 1}, []any{7, 8, 9, 2})
	sl := lists("text", []any{"a"}, []any{"a", "ab"}, []any{"B%", "x", "a'b"})
	li := func(col, op, gotype, ref string, vs []Val) {
		out = append(out, item{key: q + col + " " + op + " " + gotype, field: "NAME " + gotype + " `sql:\"" + q + col + " " + op + "\"BOOL`", ref: ref, params: []wparam{{"", vs}}})
	}
	li("num", "isin", "[]int", cl("num")+" = ANY({0})", nl)
	li("num", "notin", "[]int", cl("num")+" <> ALL({0})", nl)
	li("txt", "isin", "[]string", cl("txt")+" = ANY({0})", sl)
	li("txt", "notin", "[]string", cl("txt")+" <> ALL({0})", sl)
	// quantified
	ql := append(nl, lists("int", nil)...)
	for _, op := range []string{"=", "<>", "<", ">="} {
		for _, qn := range []string{"any", "some", "all"} {
			li("num", op+" "+qn, "[]int", cl("num")+" "+op+" "+strings.ToUpper(qn)+"({0})", ql)
		}
	}
	li("txt", "= any", "[]string", cl("txt")+" = ANY({0})", append(sl, lists("text", nil)...))
	li("txt", "islike any", "[]string", cl("txt")+" LIKE ANY({0})", lists("text", []any{"a%", "B%"}, []any{"%b"}, []any{`%\%`}))
	li("txt", "notilike all", "[]string", cl("txt")+" NOT ILIKE ALL({0})", lists("text", []any{"A%", "x"}, []any{"%B"}, nil))
	li("txt", "~ all", "[]string", cl("txt")+" ~ ALL({0})", lists("text", []any{"a", "b"}, []any{"b$"}, nil))

	// directives
	dir := func(expr, ref string) { out = append(out, dirItem(q+expr, q+expr, ref)) }
	dir("num isnull", cl("num")+" IS NULL")
	dir("num notnull", cl("num")+" IS NOT NULL")
	dir("flag istrue", cl("flag")+" IS TRUE")
	dir("flag nottrue", cl("flag")+" IS NOT TRUE")
	dir("flag isfalse", cl("flag")+" IS FALSE")
	dir("flag notfalse", cl("flag")+" IS NOT FALSE")
	dir("flag isunknown", cl("flag")+" IS UNKNOWN")
	dir("flag notunknown", cl("flag")+" IS NOT UNKNOWN")
	dir("flag", cl("flag")+" IS TRUE")
	dir("num = 1", cl("num")+" = 1")
	dir("num <> 2", cl("num")+" <> 2")
	dir("txt = 'ab'", cl("txt")+" = 'ab'")
	dir("txt islike '%b'", cl("txt")+" LIKE '%b'")
	dir("txt notilike 'A%'", cl("txt")+" NOT ILIKE 'A%'")
	dir("txt ~ '^a'", cl("txt")+" ~ '^a'")
	dir("num = "+q+"rank", cl("num")+" = "+cl("rank"))
	dir("num <= "+q+"rank", cl("num")+" <= "+cl("rank"))
	dir("txt = "+q+"note", cl("txt")+" = "+cl("note"))
	dir("note isdistinct "+q+"txt", cl("note")+" IS DISTINCT FROM "+cl("txt"))
	dir("rank = any "+q+"arr", cl("rank")+" = ANY("+cl("arr")+")")
	dir("num <> all "+q+"arr", cl("num")+" <> ALL("+cl("arr")+")")

	// ranges
	bw := func(key, expr, body, ref string, ps ...wparam) {
		out = append(out, item{key: q + key, field: "NAME struct {\n" + body + "\n} `sql:\"" + q + expr + "\"BOOL`", ref: ref, params: ps})
	}
	lo, hi := wparam{"Lo", vals("int", 0, 1, 2)}, wparam{"Hi", vals("int", 0, 1, 2)}
	both := "Lo int `sql:\"x\"`\nHi int `sql:\"y\"`"
	for _, o := range []struct{ op, sql string }{{"isbetween", "BETWEEN"}, {"notbetween", "NOT BETWEEN"}, {"isbetweensym", "BETWEEN SYMMETRIC"}, {"notbetweensym", "NOT BETWEEN SYMMETRIC"}} {
		bw("num "+o.op, "num "+o.op, both, "("+cl("num")+" "+o.sql+" {0} AND {1})", lo, hi)
		bw("rank "+o.op+" colhi", "rank "+o.op, "Lo int `sql:\"lower\"`\n_ gosql.Column `sql:\""+q+"num,upper\"`", "("+cl("rank")+" "+o.sql+" {0} AND "+cl("num")+")", lo)
	}
	bw("num isbetween swapped", "num isbetween", "Hi int `sql:\"upper\"`\nLo int `sql:\"lower\"`", "("+cl("num")+" BETWEEN {0} AND {1})", lo, hi)
	bw("rank isbetween collo", "rank isbetween", "_ gosql.Column `sql:\""+q+"num,x\"`\nHi int `sql:\"y\"`", "("+cl("rank")+" BETWEEN "+cl("num")+" AND {0})", hi)
	bw("num isbetween cols", "num isbetween", "_ gosql.Column `sql:\""+q+"rank,y\"`\n_ gosql.Column `sql:\""+q+"id,x\"`", "("+cl("num")+" BETWEEN "+cl("id")+" AND "+cl("rank")+")")
	// functions
	out = append(out,
		item{key: q + "lower", field: "NAME string `sql:\"" + q + "txt =,@lower\"BOOL`", ref: "lower(" + cl("txt") + ") = lower({0})", params: []wparam{{"", vals("text", "A", "b%", "AB", "x")}}},
		item{key: q + "upper like", field: "NAME string `sql:\"" + q + "txt islike,@upper\"BOOL`", ref: "upper(" + cl("txt") + ") LIKE upper({0})", params: []wparam{{"", vals("text", "A", "a%", "%B")}}},
	)
	return out
}

// small is a set of predicates used for combinations.
func small(q, al string) []item {
	want := []string{"num =", "txt =", "flag istrue", "num isin []int", "num isbetween", "num isnull", "txt islike"}
	var out []item
	for _, w := range want {
		for _, a := range atoms(q, al) {
			k := a.key
			if q != "" {
				k = strings.TrimPrefix(k, q+".")
			}
			if k == w {
				out = append(out, a)
			}
		}
	}
	if len(out) != len(want) {
		panic("small: missing predicates")
	}
	// few values: the combinations multiply
	for i := range out {
		for k := range out[i].params {
			v := out[i].params[k].vals
			if len(v) > 2 {
				out[i].params[k].vals = []Val{v[1], v[len(v)-1]}
			}
		}
	}
	return out
}

// whereOf renders the items as a where struct's fields and as the reference's condition.
// The parameters are appended to ps.
func whereOf(items []item, path string, ps *[]Param) (body, ref string) {
	var b, groups []string
	var cur []string
	n := 0
	for i, it := range items {
		name := fmt.Sprintf("F%d", i)
		bl := ""
		if it.bool_ != "" && i > 0 {
			bl = " bool:\"" + it.bool_ + "\""
		}
		var r string
		if it.nested != nil {
			var nb string
			nb, r = whereOf(it.nested, path+"."+name, ps)
			b = append(b, name+" struct {\n"+nb+"\n} `sql:\">\""+bl+"`")
		} else {
			b = append(b, strings.NewReplacer("NAME", name, "BOOL", bl).Replace(it.field))
			r = it.ref
			for k, p := range it.params {
				pp := path + "." + name
				if p.path != "" {
					pp += "." + p.path
				}
				r = strings.ReplaceAll(r, fmt.Sprintf("{%d}", k), fmt.Sprintf("§%d§", len(*ps)))
				*ps = append(*ps, Param{Path: pp, Vals: p.vals})
			}
		}
		n++
		if i > 0 && it.bool_ == "or" {
			groups = append(groups, "("+strings.Join(cur, " AND ")+")")
			cur = nil
		}
		cur = append(cur, "("+r+")")
	}
	groups = append(groups, "("+strings.Join(cur, " AND ")+")")
	return strings.Join(b, "\n"), "(" + strings.Join(groups, " OR ") + ")"
}

func itemKey(items []item) string {
	var b []string
	for i, it := range items {
		k := it.key
		if it.nested != nil {
			k = "(" + itemKey(it.nested) + ")"
		}
		if i > 0 {
			o := it.bool_
			if o == "" {
				o = "and"
			}
			k = o + " " + k
		}
		b = append(b, k)
	}
	return strings.Join(b, " ")
}

func (s *sel) withWhere(items []item) *sel {
	var ps []Param
	body, ref := whereOf(items, "Where", &ps)
	s.fields = append(s.fields, "Where struct {\n"+body+"\n}")
	s.where = ref
	s.params = append(s.params, ps...)
	return s
}
