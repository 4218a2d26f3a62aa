// Package vfrt is imported by the declarations whose generated methods are executed: it holds the
// iterators' sink, the filters, the error handlers and the registry of the generated methods.
package vfrt

import (
	"context"
	"database/sql"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
)

// Call is one call of an error handler.
type Call struct {
	Err  error
	Info *gosql.ErrorInfo
}

// Sink collects what a query's collaborators see.
type Sink struct {
	Rows    []any // the rows the iterator was given, in order
	FailAt  int   // the iterator refuses the row with this number (from 1; 0: never)
	IterErr error
	PanicAt int // the iterator panics at the row with this number

	Calls  []Call
	MapErr func(error) error // what the error handler makes of an error

	FilterSQL  string // with ? for the placeholders
	FilterArgs []any
	FilterPos  []int
}

func (s *Sink) Row(v any) error {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr {
		c := reflect.New(rv.Elem().Type())
		c.Elem().Set(rv.Elem())
		v = c.Interface()
	}
	s.Rows = append(s.Rows, v)
	if s.PanicAt == len(s.Rows) {
		panic("iterator")
	}
	if s.FailAt == len(s.Rows) {
		return s.IterErr
	}
	return nil
}

// EH is an error handler.
type EH struct{ S *Sink }

func (h EH) HandleError(err error) error {
	h.S.Calls = append(h.S.Calls, Call{Err: err})
	if err == nil || h.S.MapErr == nil {
		return err
	}
	return h.S.MapErr(err)
}

// EIH is an error handler that gets information on the query.
type EIH struct{ S *Sink }

func (h EIH) HandleErrorInfo(i *gosql.ErrorInfo) error {
	h.S.Calls = append(h.S.Calls, Call{Err: i.Error, Info: i})
	if i.Error == nil || h.S.MapErr == nil {
		return i.Error
	}
	return h.S.MapErr(i.Error)
}

// Filt is a gosql.Filter.
type Filt struct{ S *Sink }

func (f Filt) ToSQL(pos int) (string, []any) {
	f.S.FilterPos = append(f.S.FilterPos, pos)
	var b strings.Builder
	n := pos
	for _, c := range f.S.FilterSQL {
		if c == '?' {
			n++
			b.WriteString("$" + strconv.Itoa(n))
		} else {
			b.WriteRune(c)
		}
	}
	return b.String(), append([]any(nil), f.S.FilterArgs...)
}

// Env is what a generated method can be called with.
type Env struct {
	Ctx  context.Context
	Conn gosql.Conn
	DB   *sql.DB
	Tx   *sql.Tx
}

// Querier is another argument type of the methods.
type Querier interface{ gosql.Conn }

type Entry struct {
	New  func(*Sink) any
	Exec func(q any, e *Env) error
}

var Registry = map[string]Entry{}

func Register(name string, e Entry) {
	if _, ok := Registry[name]; ok {
		panic(fmt.Sprintf("%s registered twice", name))
	}
	Registry[name] = e
}

// RecCtor is a gosql.FilterConstructor that records what it is told.
type RecCtor struct {
	Inits []RecInit
	Calls []RecCall
}

type RecInit struct {
	V2  bool
	Map map[string]filter.Column
	TS  string
}

type RecCall struct {
	Kind    string // col, and, or, (, )
	Col, Op string
	Val     any
}

func (r *RecCtor) Init(m map[string]string, ts string) {
	in := RecInit{TS: ts, Map: map[string]filter.Column{}}
	for k, c := range m {
		in.Map[k] = filter.Column{Name: c}
	}
	r.Inits = append(r.Inits, in)
}

func (r *RecCtor) InitV2(m map[string]filter.Column, ts string) {
	r.Inits = append(r.Inits, RecInit{V2: true, Map: m, TS: ts})
}

func (r *RecCtor) Col(col, op string, val any) {
	r.Calls = append(r.Calls, RecCall{Kind: "col", Col: col, Op: op, Val: val})
}

func (r *RecCtor) And(nest func()) { r.boolop("and", nest) }
func (r *RecCtor) Or(nest func())  { r.boolop("or", nest) }

func (r *RecCtor) boolop(op string, nest func()) {
	r.Calls = append(r.Calls, RecCall{Kind: op})
	if nest != nil {
		r.Calls = append(r.Calls, RecCall{Kind: "("})
		nest()
		r.Calls = append(r.Calls, RecCall{Kind: ")"})
	}
}

func (r *RecCtor) Trace() string {
	var b strings.Builder
	for _, c := range r.Calls {
		b.WriteString(c.Kind)
		if c.Kind == "col" {
			fmt.Fprintf(&b, "[%s %s %#v]", c.Col, c.Op, c.Val)
		}
		b.WriteString(" ")
	}
	return b.String()
}

// FilterEntry is a generated filter.
type FilterEntry struct {
	New     func() any
	Methods map[string]any // method expressions
	Types   map[string]reflect.Type
}

var Filters = map[string]FilterEntry{}

func RegisterFilter(name string, e FilterEntry) { Filters[name] = e }

func TypeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }
