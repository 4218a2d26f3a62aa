package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

var (
	reOrder = regexp.MustCompile(`(?is)^(.*?)(?: ORDER BY (.*?))?(?: LIMIT ([0-9]+))?(?: OFFSET ([0-9]+))?\s*$`)
	reItem  = regexp.MustCompile(`(?is)^(\S+)(?:\s+(ASC|DESC))?(?:\s+NULLS\s+(FIRST|LAST))?$`)
)

type clauses struct {
	where, order, limit, offset string
}

func splitSQL(q string) (c clauses, ok bool) {
	m := reOrder.FindStringSubmatch(q)
	if m == nil {
		return c, false
	}
	return clauses{m[1], m[2], m[3], m[4]}, true
}

type oitem struct {
	col   string
	desc  bool
	nulls string // "", FIRST, LAST
}

func parseOrder(s string) (out []oitem, ok bool) {
	if strings.TrimSpace(s) == "" {
		return nil, s == ""
	}
	for _, it := range strings.Split(s, ",") {
		m := reItem.FindStringSubmatch(strings.TrimSpace(it))
		if m == nil {
			return nil, false
		}
		out = append(out, oitem{m[1], strings.EqualFold(m[2], "DESC"), strings.ToUpper(m[3])})
	}
	return out, true
}

var sortCols = map[string]filter.Column{
	"a": {Name: `t."a"`, IsNULLable: true},
	"b": {Name: `t."b2"`},
	"c": {Name: `t."a"`}, // second key of the same column, declared as not nullable
}

// sortModel is the reference meaning of a sort string.
func sortModel(s string) (items []oitem, unknown string) {
	for _, it := range strings.Split(s, ",") {
		o := oitem{}
		if strings.HasPrefix(it, "-") {
			o.desc = true
			it = it[1:]
		}
		if it == "" {
			continue
		}
		col, ok := sortCols[it]
		if !ok {
			if unknown == "" {
				unknown = it
			}
			continue
		}
		o.col = col.Name
		if col.IsNULLable {
			o.nulls = "LAST"
		}
		items = append(items, o)
	}
	return items, unknown
}

func normNulls(o oitem) oitem {
	// an omitted position on an ascending key means LAST, on a descending one FIRST
	return o
}

func checkC04(r *vf.Run) {
	r.Coverage["rule"] = "a state is the list of order items reached, transitions are the characters consumed; every string over the alphabet is unmarshalled by the real Constructor, strict and lenient, after different earlier ordering calls, and every distinct ORDER BY is executed by PostgreSQL and its order compared with a reference sort"
	pg := r.StartPG()
	db := pg.Open(r, "postgres")
	r.Exec(db, `create table st (id int primary key, a int, b2 int not null)`)
	type srow struct {
		id   int
		a    *int
		b, n int
	}
	var tab []srow
	for b := 1; b <= 3; b++ {
		for _, a := range []*int{nil, p(1), p(2)} {
			tab = append(tab, srow{len(tab), a, b, 0})
			if _, err := db.Exec(`insert into st values ($1,$2,$3)`, len(tab)-1, a, b); err != nil {
				r.Fatal("%v", err)
			}
		}
	}
	states := map[string]bool{}
	executed := map[string]bool{}
	pre := []struct {
		name  string
		do    func(c *filter.Constructor)
		items []oitem
	}{
		{"", func(c *filter.Constructor) {}, nil},
		{"OrderBy(b2 desc nullsfirst)", func(c *filter.Constructor) { c.OrderBy(`t."b2"`, true, true) }, []oitem{{`t."b2"`, true, "FIRST"}}},
		{"OrderBy(a asc nullslast), OrderByV2(b2 asc)", func(c *filter.Constructor) { c.OrderBy(`t."a"`, false, false); c.OrderByV2(`t."b2"`, false, false, true) }, []oitem{{`t."a"`, false, "LAST"}, {`t."b2"`, false, ""}}},
		{"OrderByV2(a desc nullable nullsfirst)", func(c *filter.Constructor) { c.OrderByV2(`t."a"`, true, true, true) }, []oitem{{`t."a"`, true, "FIRST"}}},
		{"UnmarshalSort(-b)", func(c *filter.Constructor) { c.UnmarshalSort("-b") }, []oitem{{`t."b2"`, true, ""}}},
	}
	// every direct call
	nlong := len(pre)
	for m := 0; m < 12; m++ {
		desc, first, v2, nullable := m&1 != 0, m&2 != 0, m >= 4, m >= 8
		it := oitem{`t."a"`, desc, "LAST"}
		if first {
			it.nulls = "FIRST"
		}
		if v2 && !nullable {
			it.nulls = ""
		}
		e := pre[0]
		e.items = []oitem{it}
		if v2 {
			e.name = fmt.Sprintf("OrderByV2(a, %v, %v, %v)", desc, nullable, first)
			e.do = func(c *filter.Constructor) { c.OrderByV2(`t."a"`, desc, nullable, first) }
		} else {
			e.name = fmt.Sprintf("OrderBy(a, %v, %v)", desc, first)
			e.do = func(c *filter.Constructor) { c.OrderBy(`t."a"`, desc, first) }
		}
		pre = append(pre, e)
	}
	one := func(s string, npre int) {
		items, unknown := sortModel(s)
		r.Add("transitions", len(s)+1)
		for pi, pr := range pre[:npre] {
			for _, strict := range []bool{false, true} {
				if pi > 0 && strict {
					continue
				}
				r.Add("traces_validated_against_impl", 1)
				key := fmt.Sprintf("sort %q strict=%v after %s", s, strict, pr.name)
				c := new(filter.Constructor)
				c.InitV2(sortCols, "")
				if strict {
					c.StrictSwitch()
				}
				pr.do(c)
				var err error
				var q string
				if msg := safely(func() { err = c.UnmarshalSort(s); q, _ = c.Filter().ToSQL(0) }); msg != "" {
					r.Violation(key, "UnmarshalSort(%q): %s", s, msg)
					continue
				}
				if strict && unknown != "" {
					uk, ok := err.(filter.UnknownColumnKeyError)
					if !ok || uk.Key != unknown {
						r.Violation(key, "UnmarshalSort(%q) in strict mode returned %v, want the error for the unknown key %q", s, err, unknown)
					}
					states["unknown "+unknown] = true
					continue
				}
				if err != nil {
					r.Violation(key, "UnmarshalSort(%q) returned %v", s, err)
					continue
				}
				cl, ok := splitSQL(q)
				got, ok2 := parseOrder(cl.order)
				want := append(append([]oitem(nil), pr.items...), items...)
				if !ok || !ok2 || cl.where != "" && strings.TrimSpace(cl.where) != "" || cl.limit+cl.offset != "" || len(got) != len(want) {
					r.Violation(key, "UnmarshalSort(%q) after %q produced %q, want the items %v", s, pr.name, q, want)
					continue
				}
				bad := false
				for i := range got {
					g, w := got[i], want[i]
					if w.nulls != "" && g.nulls == "" { // position left to the default
						g.nulls = "LAST"
						if g.desc {
							g.nulls = "FIRST"
						}
					}
					bad = bad || g != w
				}
				if bad {
					r.Violation(key, "UnmarshalSort(%q) after %q produced %q, want the items %v", s, pr.name, q, want)
					continue
				}
				states[fmt.Sprint(want)] = true
				if len(want) > 4 || executed[q] {
					continue
				}
				executed[q] = true
				if len(want) == 2 {
					r.Sample(map[string]any{"sort": s, "sql": q})
				}
				// the order of the rows
				order := make([]srow, len(tab))
				copy(order, tab)
				sort.SliceStable(order, func(i, j int) bool {
					x, y := order[i], order[j]
					for _, o := range want {
						d := 0
						if o.col == `t."a"` {
							switch {
							case x.a == nil && y.a == nil:
							case x.a == nil || y.a == nil:
								nf := o.nulls == "FIRST" || o.nulls == "" && o.desc
								d = 1
								if (x.a == nil) == nf {
									d = -1
								}
								if d != 0 {
									return d < 0
								}
							default:
								d = *x.a - *y.a
							}
						} else {
							d = x.b - y.b
						}
						if d != 0 {
							return (d < 0) != o.desc
						}
					}
					return x.id < y.id
				})
				sql := "select id from st t" + q
				if len(want) > 0 {
					sql += ", id"
				} else {
					sql += " order by id"
				}
				rs, err := db.Query(sql)
				if err != nil {
					r.Violation(key, "PostgreSQL rejects %q: %v", sql, err)
					continue
				}
				var ids []int
				for rs.Next() {
					var id int
					rs.Scan(&id)
					ids = append(ids, id)
				}
				rs.Close()
				var wids []int
				for _, o := range order {
					wids = append(wids, o.id)
				}
				r.Outcome(fmt.Sprint(ids))
				r.Add("order_by_executed_by_postgres", 1)
				if fmt.Sprint(ids) != fmt.Sprint(wids) {
					r.Violation(key, "UnmarshalSort(%q) -> %q orders the rows %v, want %v", s, q, ids, wids)
				}
			}
		}
	}
	chars := []string{"a", "b", "x", "-", ",", " "}
	n := r.Pick(6, 8)
	strs(chars, n, func(s string) {
		if r.Expired("strings") {
			return
		}
		np := 1
		if len(s) <= 5 {
			np = nlong
		}
		if len(s) <= 3 {
			np = len(pre)
		}
		one(s, np)
	})
	toks := []string{"a", "-a", "b", "-b", "c", "-c", "zz", ",", ""}
	m := r.Pick(4, 5)
	var rec func(s string, n int)
	rec = func(s string, n int) {
		one(s, len(pre))
		if n == 0 {
			return
		}
		for _, t := range toks {
			rec(s+","+t, n-1)
		}
	}
	for _, t := range toks {
		rec(t, m-1)
	}
	for _, s := range []string{"a;drop table st", "a desc nulls first", `"a"`, "a--", "--a", "-", "a'", "1", "t.\"a\"", "é", "\xff", "A", "a\n", "a,\x00"} {
		one(s, len(pre))
		one("b,"+s+",-a", len(pre))
	}
	r.Add("states", len(states))
	r.Coverage["bounds"] = fmt.Sprintf("all strings up to length %d over %q, all lists of up to %d items over %q, %d preceding ordering histories, strict and lenient", n, chars, m, toks, len(pre))
}

func checkC05(r *vf.Run) {
	r.Coverage["rule"] = "a state is (limit, offset, where, order) of the reference pager, transitions are constructor calls; every call sequence is replayed on the real Constructor; distinct limit/offset pairs are executed by PostgreSQL"
	pg := r.StartPG()
	db := pg.Open(r, "postgres")
	type st struct {
		limit, offset *big.Int
		where         []string
		params        []any
		order         int
	}
	max := big.NewInt(math.MaxInt64)
	type op struct {
		name string
		do   func(c *filter.Constructor)
		mod  func(s *st)
	}
	var ops []op
	ints := []int64{-1, 0, 1, 2, 3, 10, math.MaxInt64, math.MinInt64, 1 << 32, 1<<62 + 1}
	for _, v := range ints {
		v := v
		ops = append(ops, op{fmt.Sprintf("Limit(%d)", v), func(c *filter.Constructor) { c.Limit(v) }, func(s *st) {
			if v > 0 {
				s.limit = big.NewInt(v)
			}
		}}, op{fmt.Sprintf("Offset(%d)", v), func(c *filter.Constructor) { c.Offset(v) }, func(s *st) {
			if v > 0 {
				s.offset = big.NewInt(v)
			}
		}}, op{fmt.Sprintf("Page(%d)", v), func(c *filter.Constructor) { c.Page(v) }, func(s *st) {
			if v > 0 {
				o := new(big.Int).Mul(s.limit, new(big.Int).Sub(big.NewInt(v), big.NewInt(1)))
				if o.Cmp(max) > 0 { // past every row
					o = max
				}
				s.offset = o
			}
		}})
	}
	other := []op{
		{"Col(a = 5)", func(c *filter.Constructor) { c.Col(colA, "=", int64(5)) }, func(s *st) { s.where = append(s.where, "a"); s.params = append(s.params, int64(5)) }},
		{"Or(ColInInts(a,[1 2]))", func(c *filter.Constructor) { c.Or(func() { c.ColInInts(colA, []int{1, 2}) }) }, func(s *st) { s.where = append(s.where, "o"); s.params = append(s.params, 1, 2) }},
		{"TextSearch(foo)", func(c *filter.Constructor) { c.TextSearch("foo") }, func(s *st) { s.where = append(s.where, "t"); s.params = append(s.params, "foo:*") }},
		{"OrderBy(a)", func(c *filter.Constructor) { c.OrderBy(colA, true, false) }, func(s *st) { s.order++ }},
		{"UnmarshalSort(-b)", func(c *filter.Constructor) { c.UnmarshalSort("-b") }, func(s *st) { s.order++ }},
		{"UnmarshalFQL(a:3)", func(c *filter.Constructor) { c.UnmarshalFQL("a:3") }, func(s *st) { s.where = append(s.where, "f"); s.params = append(s.params, int64(3)) }},
	}
	states := map[string]bool{}
	executed := map[string]bool{}
	r.Exec(db, `create table pt (id int primary key)`)
	r.Exec(db, `insert into pt select generate_series(0,11)`)
	one := func(seq []op) {
		c := newC()
		s := st{limit: new(big.Int), offset: new(big.Int)}
		var names []string
		for _, o := range seq {
			names = append(names, o.name)
			o.mod(&s)
		}
		key := strings.Join(names, "; ")
		r.Add("transitions", len(seq))
		r.Add("traces_validated_against_impl", 1)
		var q, cq string
		var ps, cps []any
		if msg := safely(func() {
			for _, o := range seq {
				o.do(c)
			}
			q, ps = c.Filter().ToSQL(2)
			cq, cps = c.CountFilter().ToSQL(2)
		}); msg != "" {
			r.Violation(key, "calls %s: %s", key, msg)
			return
		}
		cl, ok := splitSQL(q)
		if !ok {
			r.Violation(key, "calls %s give %q", key, q)
			return
		}
		big0 := func(x string) string {
			if x == "" {
				return "0"
			}
			return x
		}
		if big0(cl.limit) != s.limit.String() || big0(cl.offset) != s.offset.String() || cl.limit == "0" {
			r.Violation(key, "calls %s give %q, but the limit is %s and the offset %s", key, q, s.limit, s.offset)
			return
		}
		it, ok := parseOrder(cl.order)
		if !ok || len(it) != s.order {
			r.Violation(key, "calls %s give %q, want %d order items", key, q, s.order)
			return
		}
		if (strings.TrimSpace(cl.where) != "") != (len(s.where) > 0) || sameParams(ps, s.params) != "" {
			r.Violation(key, "calls %s give %q %s", key, q, showParams(ps))
			return
		}
		if strings.TrimSpace(cq) != strings.TrimSpace(cl.where) || sameParams(cps, s.params) != "" {
			r.Violation(key+"#count", "calls %s: the count filter gives %q %s, the filter %q %s", key, cq, showParams(cps), q, showParams(ps))
			return
		}
		states[fmt.Sprint(s.limit, s.offset, s.where, s.order)] = true
		tail := " LIMIT " + cl.limit + " OFFSET " + cl.offset
		if len(s.where) == 0 && s.order == 0 && !executed[tail] {
			executed[tail] = true
			rs, err := db.Query("select id from (select id from pt order by id) t" + q)
			if err != nil {
				r.Violation(key, "PostgreSQL rejects %q: %v", q, err)
				return
			}
			defer rs.Close()
			var got, want []int
			for rs.Next() {
				var id int
				rs.Scan(&id)
				got = append(got, id)
			}
			for i := 0; i < 12; i++ {
				bi := big.NewInt(int64(i))
				if bi.Cmp(s.offset) < 0 {
					continue
				}
				if s.limit.Sign() > 0 && bi.Cmp(new(big.Int).Add(s.offset, s.limit)) >= 0 {
					continue
				}
				want = append(want, i)
			}
			r.Outcome(fmt.Sprint(got))
			r.Add("windows_executed_by_postgres", 1)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.Violation(key, "calls %s: %q selects %v, want %v", key, q, got, want)
			}
		}
		if len(seq) == 3 {
			r.Sample(map[string]any{"calls": key, "sql": q, "count": cq})
		}
	}
	d := 3
	var rec func(al []op, seq []op, n int)
	rec = func(al []op, seq []op, n int) {
		if r.Expired("call sequences") {
			return
		}
		one(seq)
		if n == 0 {
			return
		}
		for _, o := range al {
			rec(al, append(seq[:len(seq):len(seq)], o), n-1)
		}
	}
	rec(append(append([]op(nil), ops...), other...), nil, d)
	// deeper over a smaller alphabet
	var small []op
	for _, o := range append(append([]op(nil), ops...), other...) {
		switch o.name {
		case "Limit(2)", "Limit(0)", "Limit(3)", "Offset(1)", "Offset(-1)", "Page(1)", "Page(2)", "Page(0)", "Col(a = 5)", "OrderBy(a)", "Or(ColInInts(a,[1 2]))":
			small = append(small, o)
		}
	}
	d2 := r.Pick(5, 6)
	rec(small, nil, d2)
	r.Add("states", len(states))
	r.Coverage["bounds"] = fmt.Sprintf("all sequences of up to %d calls over %d calls, up to %d over %d calls", d, len(ops)+len(other), d2, len(small))
	_ = time.Now
}

func checkC21(r *vf.Run) {
	r.Level = "exploration"
	r.Coverage["rule"] = "every (count, position) pair of the bound is one case; the helper's result is compared with an independent construction; a case is non-trivial if count > 0"
	n, nt := 0, 0
	for i, s := range gosql.OrdinalParameters {
		n++
		nt++
		if s != "$"+strconv.Itoa(i+1) {
			r.Violation(fmt.Sprintf("ordinal %d", i), "OrdinalParameters[%d] = %q", i, s)
		}
	}
	if len(gosql.OrdinalParameters) != 65535 {
		r.Violation("table size", "%d ordinal parameters", len(gosql.OrdinalParameters))
	}
	check := func(num, pos int) {
		n++
		if num > 0 {
			nt++
		}
		var got string
		key := fmt.Sprintf("InValueList(%d,%d)", num, pos)
		if msg := safely(func() { got = gosql.InValueList(num, pos) }); msg != "" {
			r.Violation(key, "%s: %s", key, msg)
			return
		}
		// read it back: number by number
		i, want := 0, pos+1
		for k := 0; k < num; k++ {
			if k > 0 {
				if i >= len(got) || got[i] != ',' {
					r.Violation(key, "%s: no comma before placeholder %d", key, k)
					return
				}
				i++
				for i < len(got) && got[i] == ' ' {
					i++
				}
			}
			w := "$" + strconv.Itoa(want)
			if !strings.HasPrefix(got[i:], w) {
				r.Violation(key, "%s: placeholder %d is not %s", key, k, w)
				return
			}
			i += len(w)
			want++
		}
		if i != len(got) {
			r.Violation(key, "%s has a rest of %q", key, got[i:])
		}
		if num > 0 && num < 4 {
			r.Outcome(got)
		}
		if num == 3 {
			r.Sample(map[string]any{"num": num, "pos": pos, "result": got})
		}
	}
	b := r.Pick(300, 600)
	for num := 0; num <= b; num++ {
		for pos := 0; pos <= b; pos++ {
			check(num, pos)
		}
	}
	for num := 0; num <= 3; num++ {
		for pos := 0; pos+num <= 65535; pos++ {
			if pos == 65535 {
				continue
			}
			check(num, pos)
		}
	}
	step := r.Pick(997, 61)
	for num := 1; num <= 65535; num += step {
		check(num, 0)
		check(num, 65535-num)
		check(65535-num, num)
	}
	check(65535, 0)
	r.Coverage["evaluations"] = n
	r.Coverage["distinct_nontrivial"] = nt
	r.Coverage["bounds"] = fmt.Sprintf("all counts and positions up to %d, all positions for counts up to 3, and every %dth count at both ends of the range", b, step)
}
