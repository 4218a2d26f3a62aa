package main

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/frk/gosql/filter"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

// fexpr is an FQL expression of the reference grammar: items joined by operators.
type fexpr struct {
	items []fitem
	ops   []bool // ops[i] joins items[i] and items[i+1]; true is OR
}

type fitem struct {
	group *fexpr
	key   string
	op    string
	val   any
}

var errFQL = errors.New("not in the reference grammar")

// fparser is an independent parser for the documented grammar (white space is allowed
// between tokens).  It refuses everything the documentation does not define.
type fparser struct {
	s string
	i int
}

func (p *fparser) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *fparser) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func parseFQL(s string) (e *fexpr, err error) {
	s = strings.Trim(s, ";,")
	p := &fparser{s: s}
	p.ws()
	if p.i == len(s) {
		return &fexpr{}, nil
	}
	if e, err = p.expr(); err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(s) {
		return nil, errFQL
	}
	return e, nil
}

func (p *fparser) expr() (*fexpr, error) {
	e := &fexpr{}
	for {
		p.ws()
		if p.peek() == '(' {
			p.i++
			g, err := p.expr()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.peek() != ')' {
				return nil, errFQL
			}
			p.i++
			e.items = append(e.items, fitem{group: g})
		} else {
			it, err := p.rule()
			if err != nil {
				return nil, err
			}
			e.items = append(e.items, it)
		}
		p.ws()
		switch p.peek() {
		case ';':
			e.ops = append(e.ops, false)
		case ',':
			e.ops = append(e.ops, true)
		default:
			return e, nil
		}
		p.i++
	}
}

var (
	reKey  = regexp.MustCompile(`^[_a-zA-Z][_0-9a-zA-Z]*`)
	reTime = regexp.MustCompile(`^d[+-]?(0|[1-9][0-9]{0,9})`)
	reNum  = regexp.MustCompile(`^[+-]?(0|[1-9][0-9]{0,8})(\.[0-9]{1,8}([eE][+-]?[0-9]{1,2})?)?`)
)

func (p *fparser) rule() (it fitem, err error) {
	it.key = reKey.FindString(p.s[p.i:])
	if it.key == "" {
		return it, errFQL
	}
	p.i += len(it.key)
	p.ws()
	if p.peek() != ':' {
		return it, errFQL
	}
	p.i++
	p.ws()
	it.op = "="
	for _, o := range []struct{ f, s string }{{">=", ">="}, {"<=", "<="}, {">", ">"}, {"<", "<"}, {"!", "<>"}} {
		if strings.HasPrefix(p.s[p.i:], o.f) {
			it.op = o.s
			p.i += len(o.f)
			break
		}
	}
	p.ws()
	rest := p.s[p.i:]
	eq := it.op == "=" || it.op == "<>"
	switch {
	case strings.HasPrefix(rest, `"`):
		var b strings.Builder
		i := 1
		for ; ; i++ {
			if i >= len(rest) {
				return it, errFQL
			}
			if rest[i] == '"' {
				break
			}
			if rest[i] == '\\' {
				i++
				if i >= len(rest) {
					return it, errFQL
				}
			}
			b.WriteByte(rest[i])
		}
		it.val = b.String()
		p.i += i + 1
		return it, nil
	case strings.HasPrefix(rest, "null"):
		if !eq {
			return it, errFQL
		}
		p.i += 4
		it.val = nil
	case strings.HasPrefix(rest, "true"):
		if !eq {
			return it, errFQL
		}
		p.i += 4
		it.val = true
	case strings.HasPrefix(rest, "false"):
		if !eq {
			return it, errFQL
		}
		p.i += 5
		it.val = false
	case reTime.MatchString(rest):
		m := reTime.FindString(rest)
		p.i += len(m)
		n, err := strconv.ParseInt(m[1:], 10, 64)
		if err != nil {
			return it, errFQL
		}
		it.val = time.Unix(n, 0)
	default:
		m := reNum.FindString(rest)
		if m == "" {
			return it, errFQL
		}
		p.i += len(m)
		if strings.Contains(m, ".") {
			f, err := strconv.ParseFloat(m, 64)
			if err != nil {
				return it, errFQL
			}
			it.val = f
		} else {
			n, err := strconv.ParseInt(m, 10, 64)
			if err != nil {
				return it, errFQL
			}
			it.val = n
		}
	}
	// the value must end here
	if c := p.peek(); c != 0 && strings.IndexByte(" \t\r\n;,)", c) < 0 {
		return it, errFQL
	}
	return it, nil
}

// fcol describes a mapped key for the reference model.
type fcol struct {
	col  string // column of the table
	conv func(any) (any, error)
}

var errConv = errors.New("converter refuses")

var fqlCols = map[string]fcol{
	"a": {col: "a"}, "b": {col: "b"}, "c": {col: "c"}, "d": {col: "d"}, "num": {col: "num"},
	"e": {col: "b", conv: func(v any) (any, error) { // text in upper case is stored in lower case
		if s, ok := v.(string); ok {
			if s == "bad" {
				return nil, errConv
			}
			return strings.ToLower(s), nil
		}
		return v, nil
	}},
	"f": {col: "a", conv: func(v any) (any, error) { // shifted number; null becomes 1
		switch n := v.(type) {
		case nil:
			return int64(1), nil
		case int64:
			return n - 10, nil
		}
		return nil, errConv
	}},
	"g": {col: "c", conv: func(v any) (any, error) { // 1/0 as booleans, everything else as null
		switch v {
		case int64(1):
			return true, nil
		case int64(0):
			return false, nil
		}
		return nil, nil
	}},
}

func fqlC() *filter.Constructor {
	m := map[string]filter.Column{}
	for k, c := range fqlCols {
		m[k] = filter.Column{Name: `t."` + c.col + `"`, ConvertValue: c.conv}
	}
	c := new(filter.Constructor)
	c.InitV2(m, colT)
	return c
}

type fres struct {
	present bool
	v       tv
	params  []any
	unknown []string
	err     error
}

func evalFQL(e *fexpr) (out fres) {
	var ors []tv
	for i, it := range e.items {
		or := i > 0 && e.ops[i-1]
		var x tv
		if it.group != nil {
			g := evalFQL(it.group)
			out.unknown = append(out.unknown, g.unknown...)
			if out.err == nil {
				out.err = g.err
			}
			if !g.present {
				// leave the strongest separation to the next item
				if or && i+1 < len(e.items) {
					e.ops[i] = true
				}
				continue
			}
			x = g.v
			out.params = append(out.params, g.params...)
		} else {
			fc, ok := fqlCols[it.key]
			if !ok {
				out.unknown = append(out.unknown, it.key)
				if or && i+1 < len(e.items) {
					e.ops[i] = true
				}
				continue
			}
			val := it.val
			if fc.conv != nil {
				v, err := fc.conv(val)
				if err != nil {
					if out.err == nil {
						out.err = err
					}
					continue
				}
				val = v
			}
			x = tvCmp2(fc.col, it.op, val)
			unary := false
			switch val.(type) {
			case nil, bool:
				unary = it.op == "=" || it.op == "<>"
			}
			if !unary {
				out.params = append(out.params, val)
			}
		}
		if len(ors) == 0 || or {
			ors = append(ors, x)
		} else {
			ors[len(ors)-1] = tvAnd(ors[len(ors)-1], x)
		}
	}
	if len(ors) == 0 {
		out.v = tv{t: all}
		return out
	}
	out.present = true
	out.v = ors[0]
	for _, x := range ors[1:] {
		out.v = tvOr(out.v, x)
	}
	return out
}

var tvCache = map[string]tv{}

// tvCmp2 is tvCmp with a cache; ill-typed comparisons have no meaning.
func tvCmp2(col, op string, val any) tv {
	k := fmt.Sprintf("%s %s %T %v", col, op, val, val)
	if v, ok := tvCache[k]; ok {
		return v
	}
	if !wellTyped(col, val) {
		return tv{}
	}
	v := tvCmp(col, op, val)
	tvCache[k] = v
	return v
}

func wellTyped(col string, val any) bool {
	switch v := val.(type) {
	case nil:
		return true
	case bool:
		return col == "c"
	case string: // PostgreSQL text holds neither NUL nor invalid UTF-8
		return col == "b" && utf8.ValidString(v) && !strings.Contains(v, "\x00")
	case int64:
		return col == "a" || col == "num"
	case float64:
		return col == "num"
	case time.Time:
		return col == "d"
	}
	return false
}

func exprWellTyped(e *fexpr) bool {
	for _, it := range e.items {
		if it.group != nil {
			if !exprWellTyped(it.group) {
				return false
			}
			continue
		}
		fc, ok := fqlCols[it.key]
		if !ok {
			continue
		}
		v := it.val
		if fc.conv != nil {
			var err error
			if v, err = fc.conv(v); err != nil {
				continue
			}
		}
		if !wellTyped(fc.col, v) {
			return false
		}
	}
	return true
}

var reVetted = regexp.MustCompile(`^(\s|\(|\)|\$[0-9]+|WHERE\b|AND\b|OR\b|IS\b|NOT\b|NULL\b|TRUE\b|FALSE\b|<=|>=|<>|<|>|=|t\."(a|b|c|d|num)")*$`)

func checkC03(r *vf.Run) {
	r.Coverage["rule"] = "a state is the meaning (rows selected) or the refusal of one FQL string, transitions are the tokens consumed; every string is unmarshalled by the real Constructor in lenient and strict mode and compared with an independent parser and evaluator; distinct well-typed WHERE clauses are executed by PostgreSQL"
	pg := r.StartPG()
	db := pg.Open(r, "postgres")
	setupTable(r, db)
	b := newBatcher(r, db)
	states := map[string]bool{}
	seen := map[string]bool{}

	one := func(s string, gen bool) {
		r.Add("transitions", len(s))
		r.Add("traces_validated_against_impl", 1)
		e, perr := parseFQL(s)
		if gen && perr != nil {
			r.Fatal("generated FQL %q is not in the reference grammar", s)
		}
		for _, strict := range []bool{false, true} {
			key := fmt.Sprintf("fql %q strict=%v", s, strict)
			c := fqlC()
			if strict {
				c.StrictSwitch()
			}
			var err error
			var q string
			var ps []any
			if msg := safely(func() {
				err = c.UnmarshalFQL(s)
				q, ps = c.Filter().ToSQL(0)
			}); msg != "" {
				r.Violation(key, "UnmarshalFQL(%q): %s", s, msg)
				return
			}
			if !reVetted.MatchString(q) {
				r.Violation(key+" text", "UnmarshalFQL(%q) produced the clause %q, which holds text that is neither a mapped column, a fixed keyword nor a placeholder", s, q)
				continue
			}
			if m := checkPlaceholders(q, 0, len(ps)); m != "" {
				r.Violation(key+" params", "UnmarshalFQL(%q) -> %q: %s", s, q, m)
				continue
			}
			if perr != nil {
				// not defined by the grammar: refused, or at least a valid clause
				if err != nil {
					states["error"] = true
					continue
				}
				k := "u" + q
				if !seen[k] {
					seen[k] = true
					f := c.Filter()
					b.add(batchItem{key: key, desc: fmt.Sprintf("UnmarshalFQL(%q) succeeded", s), toF: func(pos int) (string, []any) { return f.ToSQL(pos) }, syntaxOnly: true})
				}
				continue
			}
			e, _ = parseFQL(s) // evaluation rewrites it
			want := evalFQL(e)
			if strict && len(want.unknown) > 0 {
				var uk filter.UnknownColumnKeyError
				if want.err != nil {
					if err == nil {
						r.Violation(key, "UnmarshalFQL(%q) succeeded although a converter refuses a value", s)
					}
				} else if !errors.As(err, &uk) || uk.Key != want.unknown[0] {
					r.Violation(key, "UnmarshalFQL(%q) in strict mode returned %v, want the error for the unknown key %q", s, err, want.unknown[0])
				}
				states["unknown "+want.unknown[0]] = true
				continue
			}
			if want.err != nil {
				if !errors.Is(err, errConv) {
					r.Violation(key, "UnmarshalFQL(%q) returned %v, want the converter's error", s, err)
				}
				states["converter"] = true
				continue
			}
			if err != nil {
				r.Violation(key, "UnmarshalFQL(%q) is refused: %v", s, err)
				continue
			}
			if m := sameParams(ps, want.params); m != "" {
				r.Violation(key+" params", "UnmarshalFQL(%q) -> %q %s: %s", s, q, showParams(ps), m)
				continue
			}
			if !exprWellTyped(e) {
				continue
			}
			rs := ids(want.v.t)
			states[rs] = true
			k := q + "\x00" + showParams(ps) + "\x00" + rs
			if seen[k] {
				continue
			}
			seen[k] = true
			if len(s) > 18 && len(s) < 30 {
				r.Sample(map[string]any{"fql": s, "sql": q, "params": showParams(ps)})
			}
			f := c.Filter()
			b.add(batchItem{key: key, desc: fmt.Sprintf("UnmarshalFQL(%q)", s), want: rs, toF: func(pos int) (string, []any) { return f.ToSQL(pos) }})
		}
	}

	// 1. every rule: key x operator x value
	var rules []string
	vals := map[string][]string{
		"a":   {"1", "2", "0", "-1", "+2", "null"},
		"b":   {`"x"`, `"NULL"`, `"null"`, `""`, `"q\"\\,{}' "`, `"\x"`, `"x' OR 1=1 --"`, `"); drop table vt; --"`, `"$1"`, `"a:1;b:2"`, "null"},
		"c":   {"true", "false", "null"},
		"d":   {"d100", "d200", "d150", "d-100", "d0", "null"},
		"num": {"1.5", "2", "-0.5", "1.5e0", "15.0e-1", "2.25", "null"},
		"e":   {`"X"`, `"x"`, `"bad"`, "null"},
		"f":   {"11", "12", "null", "true"},
		"g":   {"1", "0", "2", "null"},
		"x":   {"1", `"x"`, "null", "true"},
	}
	for _, k := range []string{"a", "b", "c", "d", "num", "e", "f", "g", "x"} {
		for _, op := range []string{"", "!", ">", "<", ">=", "<="} {
			for _, v := range vals[k] {
				if op != "" && op != "!" && (v == "null" || v == "true" || v == "false") {
					one(k+":"+op+v, false) // to be refused
					if c := fqlC(); c.UnmarshalFQL(k+":"+op+v) == nil {
						r.Violation("op "+k+op+v, "%s:%s%s is accepted", k, op, v)
					}
					continue
				}
				rules = append(rules, k+":"+op+v)
			}
		}
	}
	for _, s := range rules {
		one(s, true)
		for _, w := range []string{" %s", "%s ", "(%s)", "( %s )", ";%s,", ",;%s", "%s;;", "((%s))"} {
			one(fmt.Sprintf(w, s), true)
		}
		if strings.Contains(s, `"`) {
			continue
		}
		one(strings.Replace(s, ":", " : ", 1), true)
	}
	one("", true)
	one(";,", true)

	// 2. every expression of up to n rules over a small rule alphabet
	small := []string{"a:1", `b:!"x"`, "c:true", "x:7", `e:"X"`}
	maxRules := r.Pick(4, 5)
	for n := 2; n <= maxRules; n++ {
		al := small
		if n >= 4 {
			al = small[:4]
		}
		if n >= 5 {
			al = []string{"a:1", "c:!false", "x:7"}
		}
		genFQL(al, n, func(s string) {
			if r.Expired("expressions") {
				return
			}
			one(s, true)
		})
	}
	for _, s1 := range rules {
		for _, s2 := range rules {
			if r.Thorough() || len(s1)+len(s2) < 10 {
				one(s1+";"+s2, true)
				one(s1+","+s2, true)
			}
		}
	}

	// 3. every sequence of up to n tokens, and every short string
	toks := []string{"a:1", `b:"x"`, "x:1", ";", ",", "(", ")", " "}
	strs(toks, r.Pick(6, 7), func(s string) {
		if !r.Expired("token strings") {
			one(s, false)
		}
	})
	chars := []string{"a", ":", "1", `"`, `\`, ";", "(", ")", "!", ">", "=", "d", "-", ".", "'", " ", "$", "x"}
	strs(chars, r.Pick(4, 5), func(s string) {
		if !r.Expired("strings") {
			one(s, false)
		}
	})
	tail := []string{`"`, `\`, "'", ")", ";", "a", "-", "\x00", "é", "\xff"}
	strs(tail, r.Pick(4, 5), func(s string) { one(`b:"`+s+`"`, false); one("a:1;b:"+s, false) })
	b.finish()
	r.Add("states", len(states))
	r.Coverage["bounds"] = fmt.Sprintf("%d single rules in 10 surroundings; all expressions of up to %d rules with every operator and parenthesis placement; all token sequences up to length %d over %d tokens; all strings up to length %d over %d characters; all quoted texts up to length %d over %q", len(rules), maxRules, r.Pick(6, 7), len(toks), r.Pick(4, 5), len(chars), r.Pick(4, 5), tail)
	r.Assumption("strings outside the documented FQL grammar may be accepted or refused, but an accepted one must yield a valid clause without input text")
}

// genFQL enumerates the expressions with exactly n rules.
func genFQL(al []string, n int, f func(string)) {
	// terms(n): a rule, or a parenthesised expression of n rules (n>1 or a single nesting)
	var expr func(n int, f func(string))
	term := func(n int, f func(string)) {
		if n == 1 {
			for _, s := range al {
				f(s)
			}
			f("(" + al[len(al)-1] + ")")
			f("(" + al[0] + ")")
			return
		}
		expr(n, func(s string) { f("(" + s + ")") })
	}
	expr = func(n int, f func(string)) {
		for k := 1; k <= n; k++ {
			if k == n {
				if n == 1 {
					term(1, f)
				}
				break
			}
			term(k, func(h string) {
				expr(n-k, func(t string) {
					f(h + ";" + t)
					f(h + "," + t)
				})
			})
		}
	}
	expr(n, f)
	if n > 1 {
		term(n, f)
	}
}

func strs(al []string, n int, f func(string)) {
	var rec func(s string, n int)
	rec = func(s string, n int) {
		f(s)
		if n == 0 {
			return
		}
		for _, c := range al {
			rec(s+c, n-1)
		}
	}
	rec("", n)
}
