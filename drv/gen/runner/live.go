package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	"github.com/lib/pq"

	"vfx/vfrt"
)

// Mode live executes a method with values filled in by kind, against the real database.  Whatever
// the values, the database has to accept the statement and its arguments, and the destinations
// have to match the result's columns: an empty result is answered with one row of NULLs.

// live is the driver: pq's, with the row of NULLs.
type liveConnector struct {
	dsn  string
	last *int // columns of the last result
}

func (c liveConnector) Driver() driver.Driver { return nil }
func (c liveConnector) Connect(ctx context.Context) (driver.Conn, error) {
	pc, err := pq.NewConnector(c.dsn)
	if err != nil {
		return nil, err
	}
	dc, err := pc.Connect(ctx)
	if err != nil {
		return nil, err
	}
	return &liveConn{Conn: dc}, nil
}

type liveConn struct {
	driver.Conn
	inject bool
	cols   int
	log    []string
}

func (c *liveConn) Raw() *liveConn { return c }

func (c *liveConn) CheckNamedValue(nv *driver.NamedValue) error {
	if k, ok := c.Conn.(driver.NamedValueChecker); ok {
		return k.CheckNamedValue(nv)
	}
	return driver.ErrSkip
}

func (c *liveConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	return c.Conn.(driver.ConnBeginTx).BeginTx(ctx, o)
}

func (c *liveConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	c.log = append(c.log, q)
	return c.Conn.(driver.ExecerContext).ExecContext(ctx, q, args)
}

func (c *liveConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.log = append(c.log, q)
	rows, err := c.Conn.(driver.QueryerContext).QueryContext(ctx, q, args)
	if err != nil || !c.inject {
		return rows, err
	}
	return &liveRows{Rows: rows}, nil
}

type liveRows struct {
	driver.Rows
	n int
}

func (r *liveRows) Next(dest []driver.Value) error {
	err := r.Rows.Next(dest)
	if err == io.EOF && r.n == 0 {
		for i := range dest {
			dest[i] = nil
		}
		err = nil
	}
	r.n++
	return err
}

// filler fills values; level chooses them.
type filler struct {
	level int
	list  int // length of slices
	sink  *vfrt.Sink
	depth int
	open  map[reflect.Type]bool // the named types the value is within
}

var (
	liveTime   = reflect.TypeOf(time.Time{})
	ctxType    = reflect.TypeOf((*context.Context)(nil)).Elem()
	errType    = reflect.TypeOf((*error)(nil)).Elem()
	filterType = reflect.TypeOf((*gosql.Filter)(nil)).Elem()
	sinkType   = reflect.TypeOf((*vfrt.Sink)(nil))
)

func (f *filler) fill(v reflect.Value, tag reflect.StructTag) {
	if f.depth > 24 {
		return
	}
	f.depth++
	defer func() { f.depth-- }()
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	t := v.Type()
	if t.PkgPath() != "" {
		if f.open[t] {
			return // a recursive type
		}
		if f.open == nil {
			f.open = map[reflect.Type]bool{}
		}
		f.open[t] = true
		defer delete(f.open, t)
	}
	switch t {
	case liveTime:
		if f.level > 0 {
			v.Set(reflect.ValueOf(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)))
		}
		return
	case ctxType:
		v.Set(reflect.ValueOf(context.Background()))
		return
	case filterType:
		if v.IsNil() {
			v.Set(reflect.ValueOf(vfrt.Filt{S: f.sink}))
		}
		return
	case sinkType:
		v.Set(reflect.ValueOf(f.sink))
		return
	case reflect.TypeOf(net.IPNet{}):
		if f.level > 0 {
			v.Set(reflect.ValueOf(net.IPNet{IP: net.IPv4(10, 0, 0, 0), Mask: net.CIDRMask(8, 32)}))
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(f.level == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(f.level))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(f.level))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(f.level))
	case reflect.String:
		if s := tag.Get("fill"); s != "" {
			v.SetString(s)
		} else if f.level > 0 {
			v.SetString([]string{"", "a", "b", "c"}[f.level])
		}
	case reflect.Ptr:
		e := t.Elem()
		if e.Kind() != reflect.Struct || e == liveTime {
			if f.level == 0 || f.level == 3 {
				return // a NULL
			}
		}
		if v.IsNil() {
			v.Set(reflect.New(e))
		}
		f.fill(v.Elem(), tag)
	case reflect.Slice:
		if e := t.Elem(); e.Kind() == reflect.Uint8 {
			if s := tag.Get("fill"); s != "" {
				v.SetBytes([]byte(s))
			} else if t == reflect.TypeOf(net.IP{}) {
				v.SetBytes(net.IPv4(10, 0, 0, 1))
			} else {
				v.SetBytes([]byte(`{}`))
			}
			return
		}
		v.Set(reflect.MakeSlice(t, f.list, f.list))
		for i := 0; i < f.list; i++ {
			f.fill(v.Index(i), tag)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.fill(v.Index(i), tag)
		}
	case reflect.Struct:
		if strings.HasPrefix(t.PkgPath(), "github.com/frk/gosql") || t.PkgPath() == "math/big" || t.PkgPath() == "sync" {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			if sf.Name == "_" {
				continue
			}
			f.fill(v.Field(i), sf.Tag)
		}
	case reflect.Func:
		if v.IsNil() {
			v.Set(reflect.MakeFunc(t, func(args []reflect.Value) (out []reflect.Value) {
				for _, a := range args {
					f.sink.Rows = append(f.sink.Rows, a.Interface())
				}
				for i := 0; i < t.NumOut(); i++ {
					out = append(out, reflect.Zero(t.Out(i)))
				}
				return out
			}))
		}
	case reflect.Map:
		if t.Key().Kind() == reflect.String && f.level > 0 {
			v.Set(reflect.MakeMap(t))
			e := reflect.New(t.Elem()).Elem()
			f.fill(e, "")
			k := reflect.New(t.Key()).Elem()
			k.SetString("k")
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		if v.IsNil() && t.NumMethod() == 0 {
			if s := tag.Get("fill"); s != "" {
				v.Set(reflect.ValueOf(s))
			} else if f.level > 0 {
				v.Set(reflect.ValueOf("1"))
			}
		}
	}
}

// acceptable reports whether the error comes from the values alone.
func acceptable(err error, injected bool) bool {
	if err == nil || errors.Is(err, sql.ErrNoRows) {
		return true
	}
	var pe *pq.Error
	if errors.As(err, &pe) {
		switch {
		case strings.HasPrefix(string(pe.Code), "23"), pe.Code == "21000", pe.Code == "428C9", pe.Code == "22P02", pe.Code == "22007", pe.Code == "22003", pe.Code == "2201W", pe.Code == "2201X":
			return true
		}
		return false
	}
	s := err.Error()
	if injected && strings.Contains(s, "Scan error on column") && !strings.Contains(s, "destination arguments in Scan") {
		return true // NULL into a destination that does not take it
	}
	return false
}

func (w *worker) live(j *Job) *Result {
	if w.liveDB == nil {
		w.liveDB = sql.OpenDB(liveConnector{dsn: w.dsn})
		w.liveDB.SetMaxOpenConns(1)
	}
	res := &Result{Name: j.Name}
	outs := map[string]bool{}
	bad := func(how, what string) {
		res.NBad++
		if len(res.Bad) < 3 {
			res.Bad = append(res.Bad, how+": "+what)
		}
	}
	filters := []struct {
		sql  string
		args []any
	}{{"", nil}}
	if j.Live != nil && j.Live.Filter != "" {
		filters = append(filters, struct {
			sql  string
			args []any
		}{j.Live.Filter, j.Live.Args})
	}
	type plan struct {
		level, list int
	}
	plans := []plan{{0, 1}, {1, 1}, {2, 2}, {3, 3}}
	if j.Live != nil && j.Live.Empty {
		plans = append(plans, plan{1, 0})
	}
	for _, p := range plans {
		for fi, fl := range filters {
			func() {
				how := fmt.Sprintf("values %d, lists of %d, filter %d", p.level, p.list, fi)
				defer func() {
					if x := recover(); x != nil {
						bad(how, fmt.Sprintf("runner: %v", x))
					}
				}()
				res.Runs++
				res.Total++
				q, rv, e, s := w.setup(j, nil)
				s.FilterSQL, s.FilterArgs = fl.sql, fl.args
				(&filler{level: p.level, list: p.list, sink: s}).fill(rv, "")
				conn, err := w.liveDB.Conn(context.Background())
				if err != nil {
					panic(err)
				}
				defer conn.Close()
				var lc *liveConn
				conn.Raw(func(c any) error { lc = c.(*liveConn); return nil })
				tx, err := conn.BeginTx(context.Background(), nil)
				if err != nil {
					panic(err)
				}
				defer tx.Rollback()
				if err := ownParams(j, tx); err != nil {
					panic(err)
				}
				lc.inject = true
				defer func() { lc.inject = false }()
				lc.log = nil
				env := *w.env
				env.Conn, env.Tx, env.DB = tx, tx, nil
				err, pan := call(e, q, &env)
				stmt := strings.Join(lc.log, "; ")
				cl := errClass(err)
				if strings.HasPrefix(cl, "other") {
					cl = "other"
				}
				outs[cl] = true
				switch {
				case pan != "":
					bad(how, pan+" after "+clip(stmt))
				case !acceptable(err, true):
					bad(how, fmt.Sprintf("%v: %s", err, clip(stmt)))
				case err == nil && len(lc.log) != 1:
					bad(how, fmt.Sprintf("%d statements: %s", len(lc.log), clip(stmt)))
				}
				if res.Sample == "" {
					res.Sample = clip(stmt)
				}
			}()
			if res.NBad > 8 {
				break
			}
		}
	}
	for o := range outs {
		res.Outcomes = append(res.Outcomes, o)
	}
	return res
}

// ownParams runs the statements that prepare the transaction.
func ownParams(j *Job, tx *sql.Tx) error {
	if j.Stateful == "" {
		return nil
	}
	_, err := tx.Exec(j.Stateful)
	return err
}

// LiveSpec: Filter is what the gosql.Filter gives, Empty adds empty lists.
type LiveSpec struct {
	Filter string `json:"filter"`
	Args   []any  `json:"args"`
	Empty  bool   `json:"empty"`
}

// liveFilter calls every method of a generated filter and runs what the filter makes of it.
func (w *worker) liveFilter(j *Job) *Result {
	res := &Result{Name: j.Name}
	bad := func(how, what string) {
		res.NBad++
		if len(res.Bad) < 3 {
			res.Bad = append(res.Bad, how+": "+what)
		}
	}
	ent := vfrt.Filters[j.Name]
	probe := reflect.ValueOf(ent.New())
	promoted := reflect.TypeOf((*filter.Constructor)(nil))
	var names []string
	for i := 0; i < probe.NumMethod(); i++ {
		mt := probe.Type().Method(i)
		if mt.Type.NumIn() == 3 && mt.Type.In(1).Kind() == reflect.String {
			if _, ok := promoted.MethodByName(mt.Name); ok {
				continue
			}
			names = append(names, mt.Name)
		}
	}
	names = append(names, "")
	for _, name := range names {
		for level := 0; level < 3; level++ {
			func() {
				how := fmt.Sprintf("method %s, values %d", name, level)
				defer func() {
					if x := recover(); x != nil {
						bad(how, fmt.Sprintf("panic: %v", x))
					}
				}()
				res.Runs++
				res.Total++
				q := reflect.ValueOf(ent.New())
				q.Interface().(interface{ Init() }).Init()
				if name != "" {
					m := q.MethodByName(name)
					arg := reflect.New(m.Type().In(1)).Elem()
					(&filler{level: level, list: level, sink: new(vfrt.Sink)}).fill(arg, "")
					m.Call([]reflect.Value{reflect.ValueOf("="), arg})
				}
				fi, ok := q.Interface().(interface{ Filter() gosql.Filter })
				var flt gosql.Filter
				if ok {
					flt = fi.Filter()
				} else {
					return
				}
				text, args := flt.ToSQL(0)
				rows, err := w.db.Query(j.Ref[0]+text, args...)
				if err == nil {
					for rows.Next() {
					}
					err = rows.Err()
					rows.Close()
				}
				if !acceptable(err, false) {
					bad(how, fmt.Sprintf("%v: %s %v", err, j.Ref[0]+text, args))
				}
				if res.Sample == "" {
					res.Sample = clip(text)
				}
			}()
		}
	}
	res.Outcomes = []string{fmt.Sprint(len(names))}
	return res
}
