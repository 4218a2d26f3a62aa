package main

import (
	"fmt"
	"strings"

	"github.com/frk/gosql/filter"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

// pick selects predicates by name.
func pick(ps []*pred, names ...string) (out []*pred) {
	for _, n := range names {
		ok := false
		for _, q := range ps {
			if q.name == n {
				out = append(out, q)
				ok = true
				break
			}
		}
		if !ok {
			panic("no predicate " + n)
		}
	}
	return out
}

func structPreds() []*pred {
	return pick(allPreds(), "Col(a = 1)", `Col(b = "x")`, "Col(c = true)")
}

// mixedPreds has one predicate per rendering shape.
func mixedPreds() []*pred {
	return pick(allPreds(), "Col(a = 1)", "Col(c <> <nil>)", "ColInInt64s(a,[3 2 9])", `ColAnyStrings(b,["NULL" "x"])`, `TextSearch("foo bar")`, "ColInInts(a,[])")
}

func checkC01(r *vf.Run) {
	r.Coverage["rule"] = "a state is one model state (list of emitted predicates with structure and parameters) reached by a call sequence; transitions are constructor calls and renderings; every sequence is replayed on the real Constructor and rendered at several positions, twice, with count renderings in between, and after every prefix"
	states := map[string]bool{}
	positions := []int{0, 1, 9, 1000}
	one := func(prog []*node) {
		want := progParams(prog, nil)
		key := progString(prog)
		states[fmt.Sprint(key)] = true
		r.Add("states", 1)
		r.Add("transitions", len(prog))
		r.Add("traces_validated_against_impl", 1)
		var first string
		msg := safely(func() {
			c := newC()
			runProg(c, prog, nil)
			f, cf := c.Filter(), c.CountFilter()
			if s := fmt.Sprint(len(want)); true {
				r.Outcome(s + shape(prog))
			}
			for _, pos := range positions {
				if pos+len(want) > 65535 {
					continue
				}
				q, ps := f.ToSQL(pos)
				if m := checkPlaceholders(q, pos, len(want)); m != "" {
					r.Violation(key, "calls: %s\nToSQL(%d) = %q %s: %s", key, pos, q, showParams(ps), m)
					return
				}
				if m := sameParams(ps, want); m != "" {
					r.Violation(key, "calls: %s\nToSQL(%d) = %q: %s", key, pos, q, m)
					return
				}
				cq, cps := cf.ToSQL(pos)
				if m := checkPlaceholders(cq, pos, len(want)); m != "" {
					r.Violation(key+"#count", "calls: %s\ncount ToSQL(%d) = %q %s: %s", key, pos, cq, showParams(cps), m)
					return
				}
				if m := sameParams(cps, want); m != "" {
					r.Violation(key+"#count", "calls: %s\ncount ToSQL(%d) = %q: %s", key, pos, cq, m)
					return
				}
				q2, ps2 := f.ToSQL(pos)
				if q2 != q || sameParams(ps2, want) != "" {
					r.Violation(key+"#again", "calls: %s\nrendering again at %d gives %q %s instead of %q", key, pos, q2, showParams(ps2), q)
					return
				}
				if s := renumber(q, pos); pos == 0 {
					first = s
				} else if s != first {
					r.Violation(key+"#pos", "calls: %s\nrendering at %d gives %q, at 0 %q", key, pos, q, first)
					return
				}
				// the caller may append to or change the list it was given
				for i := range ps {
					ps[i] = "overwritten"
				}
			}
		})
		if msg != "" {
			r.Violation(key, "calls: %s\n%s", key, msg)
			return
		}
		// renderings between the calls
		msg = safely(func() {
			c := newC()
			f := c.Filter()
			n := 0
			runProg(c, prog, func() {
				r.Add("transitions", 1)
				if n%2 == 0 {
					f.ToSQL(n)
				} else {
					c.CountFilter().ToSQL(3)
					c.Filter().ToSQL(0)
				}
				n++
			})
			q, ps := f.ToSQL(0)
			if q != first || sameParams(ps, want) != "" {
				r.Violation(key+"#interleaved", "calls with renderings in between: %s\ngives %q %s instead of %q", key, q, showParams(ps), first)
			}
		})
		if msg != "" {
			r.Violation(key+"#interleaved", "calls: %s\n%s", key, msg)
		}
		if len(prog) == 3 {
			r.Sample(map[string]any{"calls": key, "sql": first, "params": len(want)})
		}
	}
	depth := r.Pick(5, 6)
	mp := mixedPreds()
	for d := 0; d <= depth; d++ {
		genProgs(mp, d, func(l []*node) {
			if r.Expired("call sequences") {
				return
			}
			one(append([]*node(nil), l...))
		})
	}
	ap := allPreds()
	for _, q := range ap {
		one([]*node{{k: kPred, pred: q}})
		for _, q2 := range ap {
			one([]*node{{k: kPred, pred: q}, {k: kPred, pred: q2}})
			if r.Thorough() {
				one([]*node{{k: kPred, pred: q}, {k: kOp, or: true}, {k: kPred, pred: q2}})
				one([]*node{{k: kGrp, or: true, kids: []*node{{k: kPred, pred: q}, {k: kPred, pred: q2}}}, {k: kPred, pred: q}})
			}
		}
	}
	// two constructors rendered alternately do not influence each other
	for _, q := range mp {
		for _, q2 := range mp {
			c1, c2 := newC(), newC()
			q.apply(c1)
			q2.apply(c2)
			s1, _ := c1.Filter().ToSQL(0)
			s2, _ := c2.Filter().ToSQL(0)
			q.apply(c2)
			s3, p3 := c1.Filter().ToSQL(0)
			if s1 != s3 || sameParams(p3, q.params) != "" {
				r.Violation("two "+q.name+q2.name, "rendering of one constructor changed from %q to %q after a call on another one (%q)", s1, s3, s2)
			}
			r.Add("traces_validated_against_impl", 1)
		}
	}
	// the upper end of the parameter range
	for n := 1; n <= 4; n++ {
		for _, extra := range []int{0, 1, 2} {
			c := newC()
			var want []any
			for i := 0; i < n; i++ {
				c.Col(colA, "=", int64(i+10))
				want = append(want, int64(i+10))
			}
			pos := 65535 - n - extra
			msg := safely(func() {
				q, ps := c.Filter().ToSQL(pos)
				if m := checkPlaceholders(q, pos, n); m != "" {
					r.Violation(fmt.Sprintf("limit %d %d", n, pos), "ToSQL(%d): %s", pos, m)
				}
				if m := sameParams(ps, want); m != "" {
					r.Violation(fmt.Sprintf("limit %d %d", n, pos), "ToSQL(%d): %s", pos, m)
				}
			})
			if msg != "" {
				r.Violation(fmt.Sprintf("limit %d %d", n, pos), "ToSQL(%d): %s", pos, msg)
			}
			r.Add("traces_validated_against_impl", 1)
		}
	}
	r.Coverage["bounds"] = fmt.Sprintf("call trees of up to %d nodes over %d predicate shapes, And/Or with and without nesting; all pairs of %d concrete predicates; positions %v and the top of the 65535 range", depth, len(mp), len(ap), positions)
}

func shape(l []*node) string {
	var b strings.Builder
	for _, n := range l {
		switch n.k {
		case kPred:
			b.WriteByte('p')
		case kOp:
			b.WriteByte('o')
		case kGrp:
			b.WriteString("(" + shape(n.kids) + ")")
		}
	}
	return b.String()
}

// renumber maps the placeholders back to position 0.
func renumber(q string, pos int) string {
	return reParam.ReplaceAllStringFunc(q, func(s string) string {
		var n int
		fmt.Sscanf(s, "$%d", &n)
		return fmt.Sprintf("$%d", n-pos)
	})
}

func checkC02(r *vf.Run) {
	r.Coverage["rule"] = "a state is the meaning (true/false/null for each of the table's rows) of a call sequence in the reference model, transitions are constructor calls; every sequence is replayed on the real Constructor and its WHERE clause executed by PostgreSQL; distinct outcomes are the distinct row sets selected"
	pg := r.StartPG()
	db := pg.Open(r, "postgres")
	setupTable(r, db)
	b := newBatcher(r, db)
	states := map[tv]bool{}
	seen := map[string]bool{}
	one := func(prog []*node) {
		key := progString(prog)
		c := newC()
		present, v := evalProg(prog)
		states[v] = true
		r.Add("transitions", len(prog))
		r.Add("traces_validated_against_impl", 1)
		var q string
		var ps []any
		if msg := safely(func() { runProg(c, prog, nil); q, ps = c.Filter().ToSQL(0) }); msg != "" {
			r.Violation(key, "calls: %s\n%s", key, msg)
			return
		}
		if !present && strings.Contains(strings.ToUpper(q), "WHERE") {
			// still fine when it selects every row; PostgreSQL decides
			_ = q
		}
		want := ids(v.t)
		k2 := q + "\x00" + showParams(ps) + "\x00" + want
		if seen[k2] {
			r.Add("duplicates_merged", 1)
			return
		}
		seen[k2] = true
		if len(prog) == 3 && len(prog[1].kids) > 0 {
			r.Sample(map[string]any{"calls": key, "sql": q, "rows": want})
		}
		f := c.Filter()
		b.add(batchItem{key: key, desc: "calls: " + key, want: want, toF: func(pos int) (string, []any) { return f.ToSQL(pos) }})
	}
	depth := r.Pick(7, 8)
	for d := 0; d <= depth; d++ {
		ps := structPreds()
		if d >= 5 {
			ps = ps[:2]
		}
		genProgs(ps, d, func(l []*node) {
			if r.Expired("call sequences") {
				return
			}
			one(append([]*node(nil), l...))
		})
	}
	ap := allPreds()
	pn := func(q *pred) *node { return &node{k: kPred, pred: q} }
	base := structPreds()[1]
	for _, q := range ap {
		one([]*node{pn(q)})
		one([]*node{pn(base), {k: kOp, or: true}, pn(q)})
		one([]*node{pn(q), {k: kOp, or: true}, pn(base)})
		one([]*node{pn(q), {k: kGrp, or: true, kids: []*node{pn(base), pn(q)}}})
		for _, q2 := range ap {
			one([]*node{pn(q), pn(q2)})
			if r.Thorough() {
				one([]*node{pn(q), {k: kOp, or: true}, pn(q2)})
				one([]*node{pn(base), {k: kGrp, or: true, kids: []*node{pn(q), {k: kOp, or: true}, pn(q2)}}, pn(q)})
			}
		}
	}
	// text search without a configured column adds no predicate
	c := new(filter.Constructor)
	c.Init(map[string]string{"a": colA}, "")
	c.TextSearch("foo")
	c.Col(colA, "=", int64(1))
	f := c.Filter()
	b.add(batchItem{key: "TextSearch without column", desc: "TextSearch without a ts column; Col(a = 1)", want: ids(tvCmp("a", "=", int64(1)).t), toF: func(pos int) (string, []any) { return f.ToSQL(pos) }})
	b.finish()
	r.Add("states", len(states))
	r.Coverage["bounds"] = fmt.Sprintf("call trees of up to %d nodes (3 predicates up to 4 nodes, 2 above) with And/Or with and without nesting, all ordered pairs of %d concrete predicates; table of all %d combinations of column values", depth, len(ap), len(rows))
}
