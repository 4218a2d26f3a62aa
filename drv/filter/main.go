// Driver for the query filters: C01-C05 and C21.
//
// A program is a sequence of constructor calls (nested through the And/Or callbacks).  Every
// program of the bounded language is executed on the real filter.Constructor and compared with
// a reference model: a three-valued-logic evaluator over a table that holds all combinations
// of column values; the WHERE clauses are executed by PostgreSQL.
package main

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lib/pq"

	"github.com/frk/gosql/filter"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

func main() {
	r := vf.Start()
	r.Level = "model_checking"
	switch r.Prop {
	case "C01":
		checkC01(r)
	case "C02":
		checkC02(r)
	case "C03":
		checkC03(r)
	case "C04":
		checkC04(r)
	case "C05":
		checkC05(r)
	case "C21":
		checkC21(r)
	default:
		r.Fatal("unknown property %q", r.Prop)
	}
	r.Finish()
}

// ---------------------------------------------------------------------------------------------
// the table

const maxRows = 192

type mask [3]uint64

func (m *mask) set(i int)     { m[i/64] |= 1 << (i % 64) }
func (m mask) has(i int) bool { return m[i/64]&(1<<(i%64)) != 0 }

type row struct {
	id int
	a  *int64
	b  *string
	c  *bool
	ts *string
}

func p[T any](v T) *T { return &v }

var (
	aVals  = []*int64{nil, p(int64(1)), p(int64(2))}
	bVals  = []*string{nil, p("x"), p("NULL"), p(`q"\,{}' `)}
	cVals  = []*bool{nil, p(true), p(false)}
	tsVals = []*string{nil, p("foo"), p("foo bar")}
	rows   []row
	all    mask
)

func init() {
	for _, a := range aVals {
		for _, b := range bVals {
			for _, c := range cVals {
				for _, ts := range tsVals {
					all.set(len(rows))
					rows = append(rows, row{len(rows), a, b, c, ts})
				}
			}
		}
	}
	if len(rows) > maxRows {
		panic("too many rows")
	}
}

func setupTable(r *vf.Run, db *sql.DB) {
	r.Exec(db, `create table vt (id int primary key, a int, b text, c bool, ts tsvector, d timestamptz, num numeric)`)
	for _, w := range rows {
		if _, err := db.Exec(`insert into vt (id,a,b,c,ts) values ($1,$2,$3,$4,to_tsvector('simple',$5))`, w.id, w.a, w.b, w.c, w.ts); err != nil {
			r.Fatal("insert: %v", err)
		}
	}
	r.Exec(db, `update vt set d = 'epoch'::timestamptz + a * interval '100 seconds', num = a + 0.5`)
	r.Exec(db, `analyze vt`)
}

// ---------------------------------------------------------------------------------------------
// three-valued logic over all rows at once

type tv struct{ t, f mask } // rows where true, rows where false; the others are null

func tvOf(fn func(row) *bool) (v tv) {
	for i, w := range rows {
		if x := fn(w); x != nil {
			if *x {
				v.t.set(i)
			} else {
				v.f.set(i)
			}
		}
	}
	return v
}

func tvAnd(x, y tv) (v tv) {
	for i := range v.t {
		v.t[i] = x.t[i] & y.t[i]
		v.f[i] = x.f[i] | y.f[i]
	}
	return v
}

func tvOr(x, y tv) (v tv) {
	for i := range v.t {
		v.t[i] = x.t[i] | y.t[i]
		v.f[i] = x.f[i] & y.f[i]
	}
	return v
}

func ids(m mask) string {
	var b strings.Builder
	for i := range rows {
		if m.has(i) {
			if b.Len() > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Itoa(i))
		}
	}
	return b.String()
}

// ---------------------------------------------------------------------------------------------
// programs

type kind int

const (
	kPred kind = iota
	kOp        // And(nil) / Or(nil)
	kGrp       // And(nest) / Or(nest)
)

type node struct {
	k    kind
	or   bool
	pred *pred
	kids []*node
}

type pred struct {
	name   string
	apply  func(c *filter.Constructor)
	val    tv
	params []any // expected parameters; arr{} stands for one array parameter
	absent bool  // adds no predicate at all
}

type arr []string // expected elements of an array parameter

func (n *node) String() string {
	switch n.k {
	case kPred:
		return n.pred.name
	case kOp:
		if n.or {
			return "Or(nil)"
		}
		return "And(nil)"
	}
	s := "And("
	if n.or {
		s = "Or("
	}
	return s + progString(n.kids) + ")"
}

func progString(l []*node) string {
	var s []string
	for _, n := range l {
		s = append(s, n.String())
	}
	return strings.Join(s, "; ")
}

func runProg(c *filter.Constructor, l []*node, hook func()) {
	for _, n := range l {
		switch n.k {
		case kPred:
			n.pred.apply(c)
		case kOp:
			if n.or {
				c.Or(nil)
			} else {
				c.And(nil)
			}
		case kGrp:
			f := func() { runProg(c, n.kids, hook) }
			if n.or {
				c.Or(f)
			} else {
				c.And(f)
			}
		}
		if hook != nil {
			hook()
		}
	}
}

// evalProg is the reference meaning of a sequence of calls.
func evalProg(l []*node) (present bool, v tv) {
	var ors []tv // terms of the disjunction; the last one is the open conjunction
	explicit := ' '
	join := func(x tv, or bool) {
		if len(ors) == 0 || or {
			ors = append(ors, x)
		} else {
			ors[len(ors)-1] = tvAnd(ors[len(ors)-1], x)
		}
		explicit = ' '
	}
	for _, n := range l {
		switch n.k {
		case kOp:
			if len(ors) > 0 && explicit == ' ' {
				explicit = 'a'
				if n.or {
					explicit = 'o'
				}
			}
		case kPred:
			if !n.pred.absent {
				join(n.pred.val, explicit == 'o')
			}
		case kGrp:
			ok, x := evalProg(n.kids)
			if !ok {
				continue
			}
			or := n.or
			if explicit != ' ' {
				or = explicit == 'o'
			}
			join(x, or)
		}
	}
	if len(ors) == 0 {
		return false, tv{t: all}
	}
	v = ors[0]
	for _, x := range ors[1:] {
		v = tvOr(v, x)
	}
	return true, v
}

func progParams(l []*node, out []any) []any {
	for _, n := range l {
		switch n.k {
		case kPred:
			out = append(out, n.pred.params...)
		case kGrp:
			out = progParams(n.kids, out)
		}
	}
	return out
}

// genProgs calls f with every program of exactly size nodes.  An operator call that directly
// follows another operator call of a different kind has no documented meaning and is left out.
func genProgs(preds []*pred, size int, f func([]*node)) {
	var rec func(size int, prev *node, acc []*node, f func([]*node))
	rec = func(size int, prev *node, acc []*node, f func([]*node)) {
		if size == 0 {
			f(acc)
			return
		}
		next := func(n *node, used int) {
			rec(size-used, n, append(acc[:len(acc):len(acc)], n), f)
		}
		for _, pr := range preds {
			next(&node{k: kPred, pred: pr}, 1)
		}
		for _, or := range []bool{false, true} {
			if prev != nil && prev.k == kOp && prev.or != or {
				continue
			}
			next(&node{k: kOp, or: or}, 1)
			for k := 0; k < size; k++ {
				rec(k, nil, nil, func(kids []*node) {
					next(&node{k: kGrp, or: or, kids: kids}, 1+k)
				})
			}
		}
	}
	rec(size, nil, nil, f)
}

// ---------------------------------------------------------------------------------------------
// predicates

func bp(b bool) *bool { return &b }

func cmpRes(op string, c int) *bool {
	switch op {
	case "=":
		return bp(c == 0)
	case "<>":
		return bp(c != 0)
	case "<":
		return bp(c < 0)
	case ">":
		return bp(c > 0)
	case "<=":
		return bp(c <= 0)
	case ">=":
		return bp(c >= 0)
	}
	panic(op)
}

func cmpInt(x, y int64) int {
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// value gives the row's value of a column as any (nil for NULL).
func (w row) value(col string) any {
	switch col {
	case "a":
		if w.a != nil {
			return *w.a
		}
	case "b":
		if w.b != nil {
			return *w.b
		}
	case "c":
		if w.c != nil {
			return *w.c
		}
	case "d":
		if w.a != nil {
			return time.Unix(*w.a*100, 0)
		}
	case "num":
		if w.a != nil {
			return float64(*w.a) + 0.5
		}
	}
	return nil
}

// tvCmp is the meaning of `col op val`.
func tvCmp(col, op string, val any) tv {
	return tvOf(func(w row) *bool {
		x := w.value(col)
		switch v := val.(type) {
		case nil:
			switch op {
			case "=":
				return bp(x == nil)
			case "<>":
				return bp(x != nil)
			}
			return nil
		case bool:
			switch op {
			case "=":
				return bp(x == v)
			case "<>":
				return bp(x != v)
			}
			if x == nil {
				return nil
			}
			return cmpRes(op, cmpInt(b2i(x.(bool)), b2i(v)))
		case int64:
			if x == nil {
				return nil
			}
			if f, ok := x.(float64); ok {
				return cmpRes(op, cmpInt(int64(2*f), 2*v))
			}
			return cmpRes(op, cmpInt(x.(int64), v))
		case time.Time:
			if x == nil {
				return nil
			}
			return cmpRes(op, x.(time.Time).Compare(v))
		case float64:
			if x == nil {
				return nil
			}
			f := x.(float64)
			switch {
			case f < v:
				return cmpRes(op, -1)
			case f > v:
				return cmpRes(op, 1)
			}
			return cmpRes(op, 0)
		case string:
			if x == nil {
				return nil
			}
			return cmpRes(op, strings.Compare(x.(string), v))
		}
		panic(fmt.Sprintf("%T", val))
	})
}

const (
	colA = `t."a"`
	colB = `t."b"`
	colC = `t."c"`
	colT = `t."ts"`
)

var colOf = map[string]string{"a": colA, "b": colB, "c": colC}

func predCmp(col, op string, val any) *pred {
	q := &pred{name: fmt.Sprintf("Col(%s %s %#v)", col, op, val), val: tvCmp(col, op, val)}
	q.apply = func(c *filter.Constructor) { c.Col(colOf[col], op, val) }
	unary := false
	switch val.(type) {
	case nil, bool:
		unary = op == "=" || op == "<>"
	}
	if !unary {
		q.params = []any{val}
	}
	return q
}

func tvInInt(vals []int64) tv {
	return tvOf(func(w row) *bool {
		if len(vals) == 0 {
			return bp(false)
		}
		if w.a == nil {
			return nil
		}
		for _, v := range vals {
			if v == *w.a {
				return bp(true)
			}
		}
		return bp(false)
	})
}

func tvInStr(vals []string) tv {
	return tvOf(func(w row) *bool {
		if len(vals) == 0 {
			return bp(false)
		}
		if w.b == nil {
			return nil
		}
		for _, v := range vals {
			if v == *w.b {
				return bp(true)
			}
		}
		return bp(false)
	})
}

func conv[T any](v []int64) (out []T) {
	out = make([]T, 0, len(v))
	for _, x := range v {
		switch o := any(&out).(type) {
		case *[]int64:
			*o = append(*o, x)
		case *[]int:
			*o = append(*o, int(x))
		case *[]int16:
			*o = append(*o, int16(x))
		}
	}
	return out
}

func anys[T any](v []T) (out []any) {
	for _, x := range v {
		out = append(out, x)
	}
	return out
}

func arrOf[T any](v []T) arr {
	out := arr{}
	for _, x := range v {
		out = append(out, fmt.Sprint(x))
	}
	return out
}

// predSets lists IN and ANY in all the ways they can be called.
func predSets() (out []*pred) {
	type C = filter.Constructor
	for _, vals := range [][]int64{{}, {1}, {2, 1}, {3, 2, 9}, {-1, 1, 1, 30000}} {
		i64, i, i16 := vals, conv[int](vals), conv[int16](vals)
		add := func(name string, params []any, f func(c *C)) {
			out = append(out, &pred{name: fmt.Sprintf("%s(a,%v)", name, vals), val: tvInInt(vals), params: params, apply: f})
		}
		add("ColInInt64s", anys(i64), func(c *C) { c.ColInInt64s(colA, i64) })
		add("ColInInts", anys(i), func(c *C) { c.ColInInts(colA, i) })
		add("ColInInt16s", anys(i16), func(c *C) { c.ColInInt16s(colA, i16) })
		add("Col in []int64", anys(i64), func(c *C) { c.Col(colA, "in", i64) })
		add("Col IN []int", anys(i), func(c *C) { c.Col(colA, "IN", i) })
		add("Col In []int16", anys(i16), func(c *C) { c.Col(colA, "In", i16) })
		add("ColAnyInt64s", []any{arrOf(vals)}, func(c *C) { c.ColAnyInt64s(colA, i64) })
		add("ColAnyInts", []any{arrOf(vals)}, func(c *C) { c.ColAnyInts(colA, i) })
		add("ColAnyInt16s", []any{arrOf(vals)}, func(c *C) { c.ColAnyInt16s(colA, i16) })
		add("Col any []int64", []any{arrOf(vals)}, func(c *C) { c.Col(colA, "any", i64) })
		add("Col ANY []int", []any{arrOf(vals)}, func(c *C) { c.Col(colA, "ANY", i) })
		add("Col Any []int16", []any{arrOf(vals)}, func(c *C) { c.Col(colA, "Any", i16) })
	}
	for _, vals := range [][]string{{}, {"x"}, {"NULL", "x"}, {"", `q"\,{}' `, "zz"}, {"x,NULL", "{x}", `"x"`}, {"null", "NULL"}} {
		v := vals
		add := func(name string, params []any, f func(c *C)) {
			out = append(out, &pred{name: fmt.Sprintf("%s(b,%q)", name, vals), val: tvInStr(vals), params: params, apply: f})
		}
		add("ColInStrings", anys(v), func(c *C) { c.ColInStrings(colB, v) })
		add("Col in []string", anys(v), func(c *C) { c.Col(colB, "in", v) })
		add("ColAnyStrings", []any{arrOf(v)}, func(c *C) { c.ColAnyStrings(colB, v) })
		add("Col any []string", []any{arrOf(v)}, func(c *C) { c.Col(colB, "any", v) })
	}
	return out
}

// predCmps lists plain comparisons.
func predCmps() (out []*pred) {
	ops := []string{"=", "<>", "<", ">", "<=", ">="}
	for _, op := range ops {
		for _, v := range []any{int64(1), int64(2), int64(0), nil} {
			out = append(out, predCmp("a", op, v))
		}
		out = append(out, predCmp("b", op, "x"), predCmp("b", op, "NULL"), predCmp("b", op, ""), predCmp("b", op, `q"\,{}' `), predCmp("b", op, nil))
		out = append(out, predCmp("c", op, true), predCmp("c", op, false), predCmp("c", op, nil))
	}
	for _, s := range []struct{ op, pat string }{{"LIKE", "x%"}, {"like", "%UL%"}, {"ILIKE", "NuL_"}, {"NOT LIKE", "x"}, {"~", "^[xN]"}} {
		s := s
		q := &pred{name: fmt.Sprintf("Col(b %s %q)", s.op, s.pat), params: []any{s.pat}}
		q.apply = func(c *filter.Constructor) { c.Col(colB, s.op, s.pat) }
		q.val = tvOf(func(w row) *bool {
			if w.b == nil {
				return nil
			}
			switch s.op {
			case "LIKE":
				return bp(strings.HasPrefix(*w.b, "x"))
			case "like":
				return bp(strings.Contains(*w.b, "UL"))
			case "ILIKE":
				return bp(*w.b == "NULL")
			case "NOT LIKE":
				return bp(*w.b != "x")
			}
			return bp((*w.b)[0] == 'x' || (*w.b)[0] == 'N')
		})
		out = append(out, q)
	}
	return out
}

// predText lists text searches; want is the to_tsquery form.
func predText() (out []*pred) {
	for _, s := range []struct{ in, want string }{
		{"foo", "foo:*"}, {"foo bar", "foo:* & bar:*"}, {"fo ba", "fo:* & ba:*"}, {"  bar  foo ", "bar:* & foo:*"}, {"zz", "zz:*"}, {"foo zz", "foo:* & zz:*"}, {"", ""}, {"   ", ""}, {"f   b  f", "f:* & b:* & f:*"},
	} {
		s := s
		words := strings.Fields(s.in)
		q := &pred{name: fmt.Sprintf("TextSearch(%q)", s.in), params: []any{s.want}}
		q.apply = func(c *filter.Constructor) { c.TextSearch(s.in) }
		q.val = tvOf(func(w row) *bool {
			if w.ts == nil {
				return nil
			}
			if len(words) == 0 {
				return bp(false)
			}
			for _, p := range words {
				ok := false
				for _, l := range strings.Fields(*w.ts) {
					ok = ok || strings.HasPrefix(l, p)
				}
				if !ok {
					return bp(false)
				}
			}
			return bp(true)
		})
		out = append(out, q)
	}
	return out
}

func allPreds() []*pred { return append(append(predCmps(), predSets()...), predText()...) }

var nC atomic.Int64

// newC gives a Constructor, initialized by Init and by InitV2 in turn.
func newC() *filter.Constructor {
	c := new(filter.Constructor)
	if nC.Add(1)%2 == 0 {
		c.InitV2(map[string]filter.Column{"a": {Name: colA, IsNULLable: true}, "b": {Name: colB}, "c": {Name: colC}}, colT)
		return c
	}
	c.Init(map[string]string{"a": colA, "b": colB, "c": colC}, colT)
	return c
}

// ---------------------------------------------------------------------------------------------
// parameters

var reParam = regexp.MustCompile(`\$[0-9]+`)

// stripQuoted removes quoted identifiers and string literals.
func stripQuoted(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if q := s[i]; q == '"' || q == '\'' {
			j := strings.IndexByte(s[i+1:], q)
			if j < 0 {
				return b.String() + "<unterminated>"
			}
			i += j + 1
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// checkPlaceholders reports whether the placeholders of q are exactly pos+1..pos+n in order.
func checkPlaceholders(q string, pos, n int) string {
	got := reParam.FindAllString(stripQuoted(q), -1)
	if len(got) != n {
		return fmt.Sprintf("%d placeholders for %d parameters", len(got), n)
	}
	for i, g := range got {
		if g != "$"+strconv.Itoa(pos+i+1) {
			return fmt.Sprintf("placeholder %d is %s, want $%d", i, g, pos+i+1)
		}
	}
	return ""
}

func sameParams(got, want []any) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d parameters, want %d", len(got), len(want))
	}
	for i := range got {
		if !sameParam(got[i], want[i]) {
			return fmt.Sprintf("parameter %d is %#v, want %#v", i, got[i], want[i])
		}
	}
	return ""
}

func sameParam(got, want any) bool {
	w, ok := want.(arr)
	if !ok {
		return reflect.DeepEqual(got, want)
	}
	if v, ok := got.(driver.Valuer); ok {
		x, err := v.Value()
		if err != nil {
			return false
		}
		got = x
	}
	var s string
	switch x := got.(type) {
	case string:
		s = x
	case []byte:
		s = string(x)
	default:
		return false
	}
	el, ok := parsePGArray(s)
	if !ok || len(el) != len(w) {
		return false
	}
	for i := range el {
		if el[i] == nil || *el[i] != w[i] {
			return false
		}
	}
	return true
}

// parsePGArray reads a one-dimensional array literal the way the server does.
func parsePGArray(s string) (out []*string, ok bool) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, false
	}
	s = s[1 : len(s)-1]
	if strings.TrimSpace(s) == "" {
		return nil, true
	}
	i := 0
	for {
		for i < len(s) && s[i] == ' ' {
			i++
		}
		var b strings.Builder
		quoted := false
		if i < len(s) && s[i] == '"' {
			quoted = true
			i++
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' {
					i++
					if i >= len(s) {
						return nil, false
					}
				}
				b.WriteByte(s[i])
				i++
			}
			if i >= len(s) {
				return nil, false
			}
			i++
		} else {
			for i < len(s) && s[i] != ',' {
				if s[i] == '"' || s[i] == '{' || s[i] == '}' {
					return nil, false
				}
				if s[i] == '\\' {
					i++
					if i >= len(s) {
						return nil, false
					}
				}
				b.WriteByte(s[i])
				i++
			}
		}
		v := b.String()
		if !quoted {
			v = strings.TrimRight(v, " ")
			if v == "" {
				return nil, false
			}
		}
		if !quoted && strings.EqualFold(v, "null") {
			out = append(out, nil)
		} else {
			out = append(out, &v)
		}
		if i >= len(s) {
			return out, true
		}
		if s[i] != ',' {
			return nil, false
		}
		i++
	}
}

func showParams(ps []any) string {
	var s []string
	for _, x := range ps {
		if v, ok := x.(driver.Valuer); ok {
			y, err := v.Value()
			s = append(s, fmt.Sprintf("%T=>%#v,%v", x, y, err))
		} else {
			s = append(s, fmt.Sprintf("%#v", x))
		}
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// safely runs f and reports a panic.
func safely(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

// ---------------------------------------------------------------------------------------------
// executing WHERE clauses in batches

type batchItem struct {
	key  string
	toF  func(pos int) (string, []any)
	want string
	desc string
	// syntaxOnly: only a syntax error counts, the values need not fit the column types
	syntaxOnly bool
}

type batcher struct {
	r     *vf.Run
	db    *sql.DB
	ch    chan []batchItem
	done  chan struct{}
	cur   []batchItem
	n     int
	execs int
}

const batchSize = 60

func newBatcher(r *vf.Run, db *sql.DB) *batcher {
	b := &batcher{r: r, db: db, ch: make(chan []batchItem, 64), done: make(chan struct{})}
	for i := 0; i < 8; i++ {
		go func() {
			for it := range b.ch {
				b.exec(it)
			}
			b.done <- struct{}{}
		}()
	}
	return b
}

func (b *batcher) add(it batchItem) {
	b.cur = append(b.cur, it)
	b.n++
	if len(b.cur) >= batchSize {
		b.ch <- b.cur
		b.cur = nil
	}
}

func (b *batcher) finish() {
	if len(b.cur) > 0 {
		b.ch <- b.cur
	}
	close(b.ch)
	for i := 0; i < 8; i++ {
		<-b.done
	}
	b.r.Add("where_clauses_executed_by_postgres", b.n)
}

func (b *batcher) exec(items []batchItem) {
	var q strings.Builder
	var args []any
	for i, it := range items {
		w, ps := it.toF(len(args))
		if i > 0 {
			q.WriteString(" union all ")
		}
		fmt.Fprintf(&q, "select %d, coalesce((select string_agg(id::text, ',' order by id) from (select id from vt t%s) s), '')", i, w)
		args = append(args, ps...)
	}
	rs, err := b.db.Query(q.String(), args...)
	if err != nil {
		if len(items) == 1 {
			if e, ok := err.(*pq.Error); items[0].syntaxOnly && ok && e.Code != "42601" {
				return
			}
			w, ps := items[0].toF(0)
			b.r.Violation(items[0].key, "%s\nPostgreSQL rejects the clause %q with %s: %v", items[0].desc, w, showParams(ps), err)
			return
		}
		for i := range items {
			b.exec(items[i : i+1])
		}
		return
	}
	defer rs.Close()
	n := 0
	for rs.Next() {
		var i int
		var got string
		if err := rs.Scan(&i, &got); err != nil {
			b.r.Fatal("scan: %v", err)
		}
		n++
		b.r.Outcome(got)
		if items[i].syntaxOnly {
			continue
		}
		if got != items[i].want {
			w, ps := items[i].toF(0)
			b.r.Violation(items[i].key, "%s\nclause %q with %s\nselects rows %s\nbut the calls describe rows %s", items[i].desc, w, showParams(ps), got, items[i].want)
		}
	}
	if err := rs.Err(); err != nil {
		if len(items) > 1 {
			for i := range items {
				b.exec(items[i : i+1])
			}
			return
		}
		if items[0].syntaxOnly {
			return
		}
		w, ps := items[0].toF(0)
		b.r.Violation(items[0].key, "%s\nPostgreSQL fails on the clause %q with %s: %v", items[0].desc, w, showParams(ps), err)
	}
}
