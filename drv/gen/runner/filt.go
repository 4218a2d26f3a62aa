package main

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"

	"vfx/vfrt"
)

type FilterSpec struct {
	Map     map[string]FilterCol `json:"map"`
	V2      bool                 `json:"v2"`
	TS      string               `json:"ts"`
	Methods []FilterMethod       `json:"methods"`
	Conv    map[string]string    `json:"conv"`
	Real    bool                 `json:"real"`
	Depth   int                  `json:"depth"`
	Embed   bool                 `json:"embed"`
	Ctor    string               `json:"ctor"`
}

type FilterCol struct {
	Name string `json:"name"`
	Null bool   `json:"null"`
	Conv string `json:"conv"`
}

type FilterMethod struct {
	Name string `json:"name"`
	Col  string `json:"col"`
	Type string `json:"type"`
}

// fstep is a call on a filter: a column method (or, directly, Col), or And/Or with or without nesting.
type fstep struct {
	kind byte // m, a, o
	m    int
	nest []fstep
	nil_ bool
}

func (w *worker) filt(j *Job) (res *Result) {
	sp := j.Filter
	res = &Result{Name: j.Name}
	bad := func(format string, a ...any) {
		res.NBad++
		if len(res.Bad) < 3 {
			res.Bad = append(res.Bad, fmt.Sprintf(format, a...))
		}
	}
	defer func() {
		if x := recover(); x != nil {
			bad("panic: %v\n%s", x, debug.Stack())
		}
		res.Total = res.Runs
	}()
	ent := vfrt.Filters[j.Name]
	outcomes := map[string]bool{}

	fresh := func() (q reflect.Value, rec *vfrt.RecCtor) {
		q = reflect.ValueOf(ent.New())
		c := q.Elem().FieldByName(sp.Ctor).Addr().Interface()
		if rec, _ = c.(*vfrt.RecCtor); rec == nil && q.Elem().FieldByName(sp.Ctor).Kind() == reflect.Struct {
			if f := q.Elem().FieldByName(sp.Ctor).FieldByName("RecCtor"); f.IsValid() && f.CanAddr() {
				rec, _ = f.Addr().Interface().(*vfrt.RecCtor)
			}
		}
		return q, rec
	}
	initOf := func(q reflect.Value) {
		q.Interface().(interface{ Init() }).Init()
	}

	// the map
	res.Runs++
	got := map[string]FilterCol{}
	q, rec := fresh()
	if rec != nil {
		initOf(q)
		if len(rec.Inits) != 1 {
			bad("Init initializes %d times", len(rec.Inits))
			return res
		}
		in := rec.Inits[0]
		if in.V2 != sp.V2 {
			bad("Init calls the wrong version (v2: %v)", in.V2)
		}
		if in.TS != sp.TS {
			bad("text search column %q, want %q", in.TS, sp.TS)
		}
		for k, c := range in.Map {
			got[k] = FilterCol{Name: c.Name, Null: c.IsNULLable, Conv: funcName(c.ConvertValue)}
		}
		compareMaps(bad, got, sp.Map)
	} else {
		initOf(q)
		c := q.Elem().FieldByName(sp.Ctor)
		if ts := c.FieldByName("tscol"); ts.IsValid() && ts.String() != sp.TS {
			bad("text search column %q, want %q", ts.String(), sp.TS)
		}
		// the keys, by their use
		fc := c.Addr().Interface().(*filter.Constructor)
		for k, want := range sp.Map {
			if k == "" || strings.ContainsAny(k, "+-, ") {
				continue
			}
			if err := fc.UnmarshalSort("-" + k); err != nil {
				bad("sort key %q: %v", k, err)
				continue
			}
			sql, _ := fc.Filter().ToSQL(0)
			if s := " " + sql; !strings.Contains(s, " "+want.Name+" DESC") {
				bad("sort key %q gives %q, want column %s", k, sql, want.Name)
			}
			q, _ := fresh()
			initOf(q)
			fc = q.Elem().FieldByName(sp.Ctor).Addr().Interface().(*filter.Constructor)
		}
	}

	// the methods
	want := map[string]bool{"Init": true, "And": true, "Or": true}
	for _, m := range sp.Methods {
		want[m.Name] = true
	}
	if sp.Embed {
		et := reflect.PointerTo(q.Elem().FieldByName(sp.Ctor).Type())
		for i := 0; i < et.NumMethod(); i++ {
			want[et.Method(i).Name] = true
		}
	}
	var extra []string
	for i := 0; i < q.Type().NumMethod(); i++ {
		if n := q.Type().Method(i).Name; !want[n] {
			extra = append(extra, n)
		}
	}
	if len(extra) > 0 {
		sort.Strings(extra)
		bad("unexpected methods %v", extra)
	}
	for _, m := range sp.Methods {
		f := reflect.ValueOf(ent.Methods[m.Name])
		ft := f.Type()
		if ft.NumIn() != 3 || ft.In(0) != q.Type() || ft.In(1).Kind() != reflect.String || ft.NumOut() != 1 || ft.Out(0) != q.Type() {
			bad("method %s has type %s", m.Name, ft)
			continue
		}
		if t := ent.Types[m.Name]; ft.In(2) != t {
			bad("method %s takes %s, want %s", m.Name, ft.In(2), t)
			continue
		}
		if rec == nil {
			continue
		}
		for _, op := range []string{"=", "<>", ""} {
			for _, v := range []reflect.Value{reflect.Zero(ft.In(2)), nonzero(ft.In(2))} {
				res.Runs++
				q, rec := fresh()
				out := f.Call([]reflect.Value{q, reflect.ValueOf(op), v})[0]
				if out.Pointer() != q.Pointer() {
					bad("method %s returns another filter", m.Name)
				}
				if len(rec.Calls) != 1 || rec.Calls[0].Kind != "col" {
					bad("method %s makes the calls %v", m.Name, rec.Trace())
					continue
				}
				c := rec.Calls[0]
				if c.Col != m.Col || c.Op != op || !reflect.DeepEqual(c.Val, v.Interface()) {
					bad("method %s adds (%s, %q, %v), want (%s, %q, %v)", m.Name, c.Col, c.Op, c.Val, m.Col, op, v)
				}
				outcomes["method"] = true
			}
		}
	}

	// nesting: every program over two columns up to the bound
	simple := []fstep{{kind: 'a', nil_: true}, {kind: 'o', nil_: true}}
	ms := []int{}
	if n := len(sp.Methods); n > 0 {
		ms = append(ms, 0)
		if n > 1 {
			ms = append(ms, n-1)
		}
	}
	for _, m := range ms {
		simple = append(simple, fstep{kind: 'm', m: m})
	}
	alpha := append([]fstep(nil), simple...)
	bodies := [][]fstep{{}}
	for _, s := range simple {
		bodies = append(bodies, []fstep{s})
	}
	if sp.Depth > 2 {
		for _, s := range simple {
			for _, t := range simple {
				bodies = append(bodies, []fstep{s, t})
			}
		}
		for _, b := range bodies[:len(simple)+1] {
			bodies = append(bodies, []fstep{{kind: 'o', nest: b}})
		}
	}
	for _, b := range bodies {
		alpha = append(alpha, fstep{kind: 'a', nest: b}, fstep{kind: 'o', nest: b})
	}
	var prog []fstep
	var explore func(n int)
	explore = func(n int) {
		if len(prog) > 0 {
			res.Runs++
			if msg := w.runProg(sp, ent, fresh, initOf, prog); msg != "" {
				bad("%s", msg)
			}
			outcomes["program"] = true
		}
		if n == 0 {
			return
		}
		for _, s := range alpha {
			prog = append(prog, s)
			explore(n - 1)
			prog = prog[:len(prog)-1]
		}
	}
	explore(2)
	outcomes[fmt.Sprintf("map%d", len(sp.Map))] = true
	outcomes[fmt.Sprintf("methods%d", len(sp.Methods))] = true
	for o := range outcomes {
		res.Outcomes = append(res.Outcomes, o)
	}
	sort.Strings(res.Outcomes)
	if len(got) > 0 {
		res.Sample = fmt.Sprintf("%v", got)
	}
	return res
}

func (w *worker) runProg(sp *FilterSpec, ent vfrt.FilterEntry, fresh func() (reflect.Value, *vfrt.RecCtor), initOf func(reflect.Value), prog []fstep) string {
	q, rec := fresh()
	if rec == nil {
		initOf(q)
	}
	msg := ""
	var apply func(ss []fstep)
	call := func(name string, args ...reflect.Value) {
		out := q.MethodByName(name).Call(args)
		if out[0].Pointer() != q.Pointer() {
			msg = name + " returns another filter"
		}
	}
	apply = func(ss []fstep) {
		for _, s := range ss {
			switch {
			case s.kind == 'm':
				m := sp.Methods[s.m]
				f := reflect.ValueOf(ent.Methods[m.Name])
				f.Call([]reflect.Value{q, reflect.ValueOf("="), reflect.Zero(f.Type().In(2))})
			default:
				name := map[byte]string{'a': "And", 'o': "Or"}[s.kind]
				ft := q.MethodByName(name).Type().In(0)
				if s.nil_ {
					call(name, reflect.Zero(ft))
					continue
				}
				body := s.nest
				call(name, reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
					if args[0].Pointer() != q.Pointer() {
						msg = "the nesting function is given another filter"
					}
					apply(body)
					return nil
				}))
			}
		}
	}
	apply(prog)
	if msg != "" {
		return msg
	}
	var want vfrt.RecCtor
	var ref filter.Constructor
	var on gosql.FilterConstructor = &want
	if rec == nil {
		on = &ref
	}
	var direct func(ss []fstep)
	direct = func(ss []fstep) {
		for _, s := range ss {
			switch {
			case s.kind == 'm':
				m := sp.Methods[s.m]
				on.Col(m.Col, "=", reflect.Zero(reflect.TypeOf(ent.Methods[m.Name]).In(2)).Interface())
			default:
				f := on.And
				if s.kind == 'o' {
					f = on.Or
				}
				if s.nil_ {
					f(nil)
				} else {
					body := s.nest
					f(func() { direct(body) })
				}
			}
		}
	}
	direct(prog)
	if rec != nil {
		if g, w := rec.Trace(), want.Trace(); g != w {
			return fmt.Sprintf("the calls %s are passed on as %s", w, g)
		}
		return ""
	}
	gs, ga := q.Elem().FieldByName(sp.Ctor).Addr().Interface().(*filter.Constructor).Filter().ToSQL(0)
	ws, wa := ref.Filter().ToSQL(0)
	if gs != ws || !reflect.DeepEqual(ga, wa) {
		return fmt.Sprintf("filter %q %v, want %q %v", gs, ga, ws, wa)
	}
	return ""
}

func compareMaps(bad func(string, ...any), got, want map[string]FilterCol) {
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok1 := got[k]
		w, ok2 := want[k]
		switch {
		case !ok1:
			bad("the map has no key %q (for %s)", k, w.Name)
		case !ok2:
			bad("the map has a key %q (for %s)", k, g.Name)
		case g != w:
			bad("key %q: %+v, want %+v", k, g, w)
		}
	}
}

func funcName(f any) string {
	v := reflect.ValueOf(f)
	if v.IsNil() {
		return ""
	}
	return runtime.FuncForPC(v.Pointer()).Name()
}

func nonzero(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(7)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(7)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		v.SetString("x")
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 2, 2))
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
	}
	return v
}
