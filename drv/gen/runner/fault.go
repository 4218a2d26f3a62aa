package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"vfx/vfrt"
)

// FaultSpec describes what the fake database answers and what may go wrong.
type FaultSpec struct {
	Kind     string   `json:"kind"` // single, many, inplace, exec, scalar
	Rows     [][]any  `json:"rows"` // the rows the database holds (the first n are returned)
	Expect   []string `json:"expect"`
	BadCol   int      `json:"bad_col"` // a column whose value can be undecodable (-1: none)
	Handler  string   `json:"handler"` // "", EH, EIH
	Query    string   `json:"query"`   // kind in the error information
	MinRows  int      `json:"min_rows"`
	MaxRows  int      `json:"max_rows"`
	Ctx      bool     `json:"ctx"`       // the method takes a context
	CtxField bool     `json:"ctx_field"` // the context is a field of the query
}

type fake struct {
	spec    *FaultSpec
	n       int // rows
	point   string
	at      int
	err     error
	queries []string
	nargs   []int
	open    int
	closed  int
	asked   int // rows asked for after the failure
	failed  bool
	started int
}

func (f *fake) Connect(context.Context) (driver.Conn, error) { return &fakeConn{f}, nil }
func (f *fake) Driver() driver.Driver                        { return nil }

type fakeConn struct{ f *fake }

func (c *fakeConn) Prepare(string) (driver.Stmt, error)         { return nil, errors.New("no prepare") }
func (c *fakeConn) Close() error                                { return nil }
func (c *fakeConn) Begin() (driver.Tx, error)                   { return nil, errors.New("no begin") }
func (c *fakeConn) CheckNamedValue(nv *driver.NamedValue) error { return nil }

func (c *fakeConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.f.queries = append(c.f.queries, q)
	c.f.nargs = append(c.f.nargs, len(args))
	if c.f.point == "send" {
		c.f.failed = true
		return nil, c.f.err
	}
	c.f.open++
	return &fakeRows{f: c.f}, nil
}

type affected struct {
	n   int
	err error
}

func (a affected) LastInsertId() (int64, error) { return 0, errors.New("no id") }
func (a affected) RowsAffected() (int64, error) { return int64(a.n), a.err }

func (c *fakeConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	c.f.queries = append(c.f.queries, q)
	c.f.nargs = append(c.f.nargs, len(args))
	if c.f.point == "send" {
		return nil, c.f.err
	}
	if c.f.point == "affected" {
		return affected{0, c.f.err}, nil
	}
	return affected{c.f.n, nil}, nil
}

type fakeRows struct {
	f *fake
	i int
}

func (r *fakeRows) Columns() []string {
	n := 1
	if len(r.f.spec.Rows) > 0 {
		n = len(r.f.spec.Rows[0])
	}
	return make([]string, n)
}
func (r *fakeRows) Close() error { r.f.closed++; return nil }
func (r *fakeRows) Next(dest []driver.Value) error {
	f := r.f
	if f.failed {
		f.asked++
	}
	r.i++
	if f.point == "row" && r.i == f.at || f.point == "end" && r.i == f.n+1 {
		f.failed = true
		return f.err
	}
	if r.i > f.n {
		return io.EOF
	}
	for k, v := range f.spec.Rows[r.i-1] {
		if x, ok := v.(float64); ok {
			v = int64(x)
		}
		dest[k] = v
	}
	if f.point == "decode" && r.i == f.at {
		f.failed = true
		dest[f.spec.BadCol] = "not a value"
	}
	return nil
}

var errInjected = errors.New("injected")
var errMapped = errors.New("mapped")

type scenario struct {
	n     int
	point string // "", send, row, decode, end, affected, iter, cancel
	at    int
	mapto string // "", wrap, swallow
}

func (s scenario) String() string {
	return fmt.Sprintf("rows=%d fault=%s at=%d handler=%s", s.n, s.point, s.at, s.mapto)
}

func scenarios(sp *FaultSpec, iter bool) (out []scenario) {
	maps := []string{""}
	if sp.Handler != "" {
		maps = []string{"", "wrap", "swallow"}
	}
	for n := sp.MinRows; n <= sp.MaxRows; n++ {
		var l []scenario
		l = append(l, scenario{n: n}, scenario{n: n, point: "send"})
		if sp.Ctx {
			l = append(l, scenario{n: n, point: "cancel"})
		}
		if sp.Kind == "exec" {
			l = append(l, scenario{n: n, point: "affected"})
		} else {
			for k := 1; k <= n; k++ {
				l = append(l, scenario{n: n, point: "row", at: k})
				if sp.BadCol >= 0 {
					l = append(l, scenario{n: n, point: "decode", at: k})
				}
				if iter {
					l = append(l, scenario{n: n, point: "iter", at: k}, scenario{n: n, point: "panic", at: k})
				}
			}
			l = append(l, scenario{n: n, point: "end"})
		}
		for _, s := range l {
			for _, m := range maps {
				s.mapto = m
				out = append(out, s)
			}
		}
	}
	return
}

// fault runs the method under every fault.
func (w *worker) fault(j *Job, idx []int) (bad, outcome string) {
	sp := j.Fault
	iter := j.Out == "@sink"
	var outs []string
	for _, sc := range scenarios(sp, iter) {
		w.scen++
		b, o := w.fault1(j, idx, sp, sc, iter)
		if b != "" {
			return sc.String() + ": " + b, o
		}
		outs = append(outs, o)
	}
	return "", strings.Join(outs, ";")
}

func (w *worker) fault1(j *Job, idx []int, sp *FaultSpec, sc scenario, iter bool) (bad, outcome string) {
	q, rv, e, s := w.setup(j, idx)
	f := &fake{spec: sp, n: sc.n, point: sc.point, at: sc.at, err: errInjected}
	db := sql.OpenDB(f)
	defer db.Close()
	if sc.point == "iter" {
		s.FailAt, s.IterErr = sc.at, errInjected
	}
	if sc.point == "panic" {
		s.PanicAt = sc.at
	}
	switch sc.mapto {
	case "wrap":
		s.MapErr = func(err error) error { return fmt.Errorf("%w: %w", errMapped, err) }
	case "swallow":
		s.MapErr = func(err error) error { return nil }
	}
	env := *w.env
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	env.Ctx, env.Conn, env.DB = ctx, db, db
	if sp.CtxField {
		v, _ := at(rv, "Ctx", true)
		v.Set(reflect.ValueOf(&ctx).Elem())
	}
	if sc.point == "cancel" {
		cancel()
	}
	err, pan := call(e, q, &env)
	if pan != "" && (sc.point != "panic" || !strings.Contains(pan, "panic: iterator")) {
		return pan, "panic"
	}
	if n := db.Stats().InUse; n != 0 {
		return fmt.Sprintf("%d connections stay occupied", n), "leak"
	}
	if f.open != f.closed {
		return fmt.Sprintf("%d result sets were opened and %d closed", f.open, f.closed), "leak"
	}
	if sc.point == "cancel" {
		if len(f.queries) != 0 {
			return "a query was sent though the context is cancelled", "cancel"
		}
	} else if len(f.queries) != 1 {
		return fmt.Sprintf("%d statements were sent", len(f.queries)), "count"
	}

	if sc.point == "panic" {
		if pan == "" || len(s.Rows) != sc.at {
			return fmt.Sprintf("the iterator panicked at row %d, but was given %d rows and the method returned %v", sc.at, len(s.Rows), err), "panic"
		}
		return "", fmt.Sprintf("%s/panic", sc)
	}

	// the expected failure
	var want error
	delivered := sc.n // rows that must have been delivered
	switch sc.point {
	case "send":
		want, delivered = errInjected, 0
	case "cancel":
		want, delivered = context.Canceled, 0
	case "row":
		want, delivered = errInjected, sc.at-1
	case "decode":
		want, delivered = nil, sc.at-1
	case "end":
		want = errInjected
	case "affected":
		if j.Count != "" {
			want = errInjected
		}
	case "iter":
		want, delivered = errInjected, sc.at
	}
	fails := want != nil || sc.point == "decode"
	if sp.Kind == "single" || sp.Kind == "scalar" {
		switch {
		case sc.point == "send" || sc.point == "cancel":
		case sc.n == 0 && sc.point == "end":
		case sc.n == 0:
			want, fails = sql.ErrNoRows, true
		case (sc.point == "row" || sc.point == "decode" || sc.point == "iter") && sc.at == 1:
		default: // what follows the first row is of no interest
			want, fails = nil, false
			delivered = 1
		}
	}
	// the handler
	var raw error
	calls := 0
	for _, c := range s.Calls {
		if c.Err == nil {
			if sp.Handler == "EIH" {
				return "the error info handler was called without an error", "handler"
			}
			continue
		}
		calls++
		raw = c.Err
		if i := c.Info; i != nil {
			if len(f.queries) == 1 && i.QueryString != f.queries[0] || i.QueryString == "" {
				return fmt.Sprintf("the error information has the query %q, sent was %q", i.QueryString, f.queries), "info"
			}
			if i.QueryKind != sp.Query || i.QueryName != j.Name {
				return fmt.Sprintf("the error information has kind %q and name %q", i.QueryKind, i.QueryName), "info"
			}
			if i.QueryValue != q {
				return fmt.Sprintf("the error information has the query value %T %p, want %p", i.QueryValue, i.QueryValue, q), "info"
			}
		}
	}
	if sp.Handler == "" {
		raw = err
	} else if fails && calls != 1 || !fails && calls != 0 {
		return fmt.Sprintf("the error handler was called %d times with an error (%v)", calls, s.Calls), "handler"
	}
	if fails && (raw == nil || want != nil && !errors.Is(raw, want)) {
		return fmt.Sprintf("the failure %v was reported as %v", want, raw), "error"
	}
	if !fails && err != nil {
		return fmt.Sprintf("error %v without a failure", err), "error"
	}
	if fails && sp.Handler != "" {
		switch sc.mapto {
		case "swallow":
			if err != nil {
				return fmt.Sprintf("error %v, though the handler returned nil", err), "error"
			}
		case "wrap":
			if !errors.Is(err, errMapped) {
				return fmt.Sprintf("error %v is not what the handler returned", err), "error"
			}
		default:
			if !errors.Is(err, raw) {
				return fmt.Sprintf("error %v is not what the handler returned", err), "error"
			}
		}
	}
	if f.asked > 0 {
		return fmt.Sprintf("%d rows were asked for after the failure", f.asked), "after"
	}
	// what was delivered
	switch sp.Kind {
	case "exec":
		if j.Count != "" && !fails {
			v, _ := at(rv, j.Count, false)
			if got := text(v, ""); got != fmt.Sprint(sc.n) {
				return fmt.Sprintf("%s rows affected, want %d", got, sc.n), "count"
			}
		}
	case "scalar":
		if !fails {
			v, _ := at(rv, j.Out, false)
			if got := text(v, ""); got != sp.Expect[0] {
				return fmt.Sprintf("value %s, want %s", got, sp.Expect[0]), "scalar"
			}
		}
	default:
		rows, after := collect(j, rv, s)
		if iter && len(rows) != delivered {
			return fmt.Sprintf("the iterator was given %d rows, want %d", len(rows), delivered), "rows"
		}
		if !fails && sp.Kind == "many" && len(rows) != delivered {
			return fmt.Sprintf("%d rows, want %d", len(rows), delivered), "rows"
		}
		if !iter && sp.Kind == "many" && fails && len(rows) > delivered {
			return fmt.Sprintf("%d rows, want at most %d", len(rows), delivered), "rows"
		}
		if !iter && fails && sp.Kind == "single" {
			break
		}
		for i := 0; i < len(rows) && i < delivered; i++ {
			if rows[i] != sp.Expect[i] {
				return fmt.Sprintf("row %d is %q, want %q", i+1, rows[i], sp.Expect[i]), "rows"
			}
		}
		if sp.Kind == "inplace" {
			after = ""
			if v, _ := at(rv, j.Out, false); j.After != "" {
				for i := 0; i < v.Len(); i++ {
					want := int64(0)
					if i < delivered {
						want = 1
					}
					if n, _ := at(v.Index(i), j.After, false); n.Int() != want {
						after = fmt.Sprintf("the after-scan hook ran %d times on record %d", n.Int(), i+1)
					}
				}
			}
		}
		if after != "" {
			return after, "after"
		}
	}
	return "", fmt.Sprintf("%s/%v/%d", sc, fails, delivered)
}

var _ = vfrt.Registry
