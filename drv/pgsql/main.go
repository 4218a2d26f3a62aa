// Driver for the pgsql value writers and readers: C06-C09.
//
// The registry (gen.py) lists every exported writer and reader.  For each (PostgreSQL type, Go
// type) a bounded domain of values is enumerated; an encoder that is independent of the code
// under test renders each value as an SQL expression, and PostgreSQL itself decides whether the
// written value and the expression denote the same thing.
package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"net"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/vfdrv/vf"
	"github.com/frk/gosql/pgsql"
)

type conv struct {
	pg, name string
	t        reflect.Type
	from     func(any) driver.Valuer
	to       func(any) sql.Scanner
}

var thePG *vf.PG

func main() {
	r := vf.Start()
	r.Level = "model_checking"
	r.Assumption("values and sources are the bounded domains built in drv/pgsql/domain.go; transport is lib/pq against PostgreSQL 16")
	registry = append(registry, docConvs()...)
	var ws, rs int
	for _, c := range registry {
		if c.from != nil {
			ws++
		} else {
			rs++
		}
	}
	r.Add("writers", ws)
	r.Add("readers", rs)
	if len(registrySkipped) > 0 {
		r.Cap(fmt.Sprintf("functions not understood: %v", registrySkipped))
	}
	if ws < 150 || rs < 150 {
		r.Fatal("registry has only %d writers and %d readers", ws, rs)
	}
	pg := r.StartPG()
	thePG = pg
	db := pg.Open(r, "postgres")
	db.SetMaxOpenConns(16)
	r.Exec(db, "CREATE EXTENSION hstore")
	switch r.Prop {
	case "C06":
		checkC06(r, db)
	case "C07":
		checkC07(r, db)
	case "C08":
		checkC08(r, db)
	case "C09":
		checkC09(r, db)
	default:
		r.Fatal("unknown property %q", r.Prop)
	}
	r.Finish()
}

// capture is a destination that keeps what the driver delivered.
type capture struct{ v any }

func (c *capture) Scan(src any) error {
	if b, ok := src.([]byte); ok {
		src = append([]byte{}, b...)
	}
	c.v = src
	return nil
}

// guard calls f and turns a panic into an error.
func guard(f func() error) (err error, panicked bool) {
	defer func() {
		if x := recover(); x != nil {
			err, panicked = fmt.Errorf("panic: %v\n%s", x, trimStack(debug.Stack())), true
		}
	}()
	return f(), false
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/pgsql/") && !strings.Contains(l, "vfdrv") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 3 {
		out = out[:3]
	}
	return strings.Join(out, "\n")
}

// valueOf asks the writer for its driver value.
func valueOf(c conv, v any) (dv driver.Value, err error) {
	err, _ = guard(func() error {
		var e error
		dv, e = c.from(v).Value()
		return e
	})
	return dv, err
}

// clone makes a deep copy.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i)))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, clone(v.MapIndex(k)))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.New(v.Type().Elem()))
		out.Elem().Set(clone(v.Elem()))
	case reflect.Interface:
		if v.IsNil() {
			return out
		}
		out.Set(clone(v.Elem()))
	case reflect.Struct:
		out.Set(v)
		if n, ok := v.Interface().(net.IPNet); ok {
			n2 := net.IPNet{IP: append(net.IP(nil), n.IP...), Mask: append(net.IPMask(nil), n.Mask...)}
			out.Set(reflect.ValueOf(n2))
			return out
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(clone(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// scribble changes everything reachable through references from v.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribbleLeaf(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if v.CanSet() {
				scribbleLeaf(v.Index(i))
			} else {
				scribble(v.Index(i))
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			if v.Kind() == reflect.Ptr {
				scribbleLeaf(v.Elem())
			} else {
				scribble(v.Elem())
			}
		}
	case reflect.Struct:
		if n, ok := v.Interface().(net.IPNet); ok {
			for i := range n.IP {
				n.IP[i] ^= 0x55
			}
			for i := range n.Mask {
				n.Mask[i] ^= 0x55
			}
		}
	}
}

func scribbleLeaf(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface, reflect.Array:
		scribble(v)
		if v.Kind() != reflect.Array && v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
		return
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x55)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0x55)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(12345)
	case reflect.String:
		v.SetString("scribbled")
	case reflect.Struct:
		scribble(v)
		v.Set(reflect.Zero(v.Type()))
	}
}

// ---------------------------------------------------------------------------------------------
// C06

func checkC06(r *vf.Run, db *sql.DB) {
	type job struct {
		c conv
		v any
	}
	var jobs []job
	for _, c := range registry {
		if c.from == nil {
			continue
		}
		vals := domain(r, c.pg, c.t)
		if len(vals) == 0 {
			r.Cap("no domain for " + c.name)
			continue
		}
		for _, v := range vals {
			jobs = append(jobs, job{c, v})
		}
		r.Add("writers_checked", 1)
	}
	r.Add("values", len(jobs))
	vf.Par(8, len(jobs), func(w, i int) {
		if r.Expired("C06") {
			return
		}
		j := jobs[i]
		for _, sqlt := range sqlTypes(j.c.pg) {
			alts, ok := expr(j.c.pg, sqlt, j.v)
			key := j.c.name + " " + show(j.v)
			dv, err := valueOf(j.c, j.v)
			var got pgval
			if err != nil {
				got.err = err
			} else {
				got = ask(db, "$1::"+sqlt, dv)
			}
			r.Add("written_values_compared", 1)
			if !ok {
				// the database type has no such value: it must be refused
				if got.err == nil {
					r.Violation(key, "%s(%s) has no %s value but was stored as %s (driver value %s)", j.c.name, show(j.v), sqlt, got, show(dv))
				}
				r.Outcome("refused")
				continue
			}
			var want pgval
			good := false
			for _, a := range alts {
				want = ask(db, a)
				if want.err != nil {
					// the reference cannot express it, so the database has no such value
					if got.err != nil {
						good = true
						break
					}
					continue
				}
				if got.err == nil && got.null == want.null && got.text == want.text {
					good = true
					r.Outcome(want.text)
					break
				}
			}
			if !good {
				r.Violation(key, "%s(%s): driver value %s stored as %s, but the value is %s = %s", j.c.name, show(j.v), show(dv), got, alts[0], want)
			}
			if i%5000 == 0 {
				r.Sample(map[string]any{"writer": j.c.name, "go": show(j.v), "driver": show(dv), "stored": got.String(), "reference": alts[0]})
			}
		}
	})
}

// ---------------------------------------------------------------------------------------------
// C07

// fetch captures what the driver delivers for an SQL expression.
func fetch(db *sql.DB, e string) (any, error) {
	var c capture
	err := db.QueryRow("SELECT " + e).Scan(&c)
	return c.v, err
}

func scanInto(c conv, p reflect.Value, src any) (error, bool) {
	return guard(func() error { return c.to(p.Interface()).Scan(src) })
}

func srcCopy(src any) any {
	if b, ok := src.([]byte); ok {
		return append([]byte{}, b...)
	}
	return src
}

func checkC07(r *vf.Run, db *sql.DB) {
	type job struct {
		c  conv
		s  source
		db int
	}
	// sessions whose time zones have whole, half-hour and odd historic offsets
	dbs := []*sql.DB{db}
	for _, tz := range []string{"Asia/Kolkata", "America/St_Johns"} {
		d := thePG.Open(r, "postgres timezone="+tz)
		d.SetMaxOpenConns(12)
		dbs = append(dbs, d)
	}
	r.Add("session_time_zones", len(dbs))
	var jobs []job
	for _, c := range registry {
		if c.to == nil {
			continue
		}
		ss := sources(r, c.pg, c.t)
		if len(ss) == 0 {
			r.Cap("no domain for " + c.name)
			continue
		}
		r.Add("readers_checked", 1)
		zoned := strings.HasPrefix(c.pg, "Timestamptz") || strings.HasPrefix(c.pg, "Tstz") || strings.HasPrefix(c.pg, "Timetz")
		for _, s := range ss {
			jobs = append(jobs, job{c, s, 0})
			for i := 1; zoned && i < len(dbs); i++ {
				jobs = append(jobs, job{c, s, i})
			}
		}
	}
	r.Add("values", len(jobs))
	vf.Par(8, len(jobs), func(w, i int) {
		if r.Expired("C07") {
			return
		}
		j := jobs[i]
		db := dbs[j.db]
		src, err := fetch(db, j.s.expr)
		if err != nil {
			if !j.s.mayFail {
				r.Violation("reference "+j.s.expr, "reference expression %s: %v", j.s.expr, err)
			}
			return
		}
		variants := []any{src}
		if j.c.pg == "Any" {
			// what arrives is what is kept
		} else if b, ok := src.([]byte); ok {
			variants = append(variants, string(b))
		} else if s, ok := src.(string); ok {
			variants = append(variants, []byte(s))
		}
		for _, src := range variants {
			p := reflect.New(j.c.t)
			err, panicked := scanInto(j.c, p, srcCopy(src))
			r.Add("reads_compared", 1)
			key := j.c.name + " " + j.s.key()
			if j.db > 0 {
				key += fmt.Sprintf(" (session %d)", j.db)
			}
			if panicked {
				r.Violation(key, "%s panics on %s (%T %s): %v", j.c.name, j.s.expr, src, show(src), err)
				continue
			}
			if err != nil {
				if !j.s.orError && !strings.Contains(show(src), " BC") {
					r.Violation(key, "%s fails on %s (%T %s): %v", j.c.name, j.s.expr, src, show(src), err)
				}
				r.Outcome("error")
				continue
			}
			got := p.Elem()
			ok := false
			var wants []string
			for _, w := range j.s.want {
				wants = append(wants, show(w.Interface()))
				if same(got, w) {
					ok = true
				}
			}
			if !ok && j.s.denote != nil {
				ok = j.s.denote(db, got.Interface())
				wants = append(wants, "a value denoting "+j.s.expr)
			}
			if !ok {
				if len(wants) == 0 {
					wants = []string{"an error"}
				}
				r.Violation(key, "%s of %s (%T %s) gives %s, want %s", j.c.name, j.s.expr, src, show(src), show(got.Interface()), strings.Join(wants, " or "))
			}
			r.Outcome(show(got.Interface()))
		}
		if i%5000 == 0 {
			r.Sample(map[string]any{"reader": j.c.name, "sql": j.s.expr, "source": show(src)})
		}
	})

	// round trips through the matching writer and reader
	readers := map[string][]conv{}
	for _, c := range registry {
		if c.to != nil {
			k := c.pg + c.t.String()
			readers[k] = append(readers[k], c)
		}
	}
	type rt struct {
		w, rd conv
		v     any
	}
	var rts []rt
	for _, c := range registry {
		if c.from == nil {
			continue
		}
		for _, rd := range readers[c.pg+c.t.String()] {
			for _, v := range domain(r, c.pg, c.t) {
				rts = append(rts, rt{c, rd, v})
			}
		}
	}
	r.Add("round_trips", len(rts))
	vf.Par(8, len(rts), func(w, i int) {
		if r.Expired("C07 round trips") {
			return
		}
		j := rts[i]
		sqlt := sqlTypes(j.w.pg)[0]
		dv, err := valueOf(j.w, j.v)
		if err != nil {
			return
		}
		var c capture
		if err := db.QueryRow("SELECT $1::"+sqlt, dv).Scan(&c); err != nil {
			return // C06 decides about refused values
		}
		p := reflect.New(j.rd.t)
		err, panicked := scanInto(j.rd, p, srcCopy(c.v))
		key := "roundtrip " + j.rd.name + " " + show(j.v)
		if panicked || err != nil {
			r.Violation(key, "%s(%s) is stored as %s, which %s cannot read: %v", j.w.name, show(j.v), show(c.v), j.rd.name, err)
			return
		}
		want := canonGo(j.w.pg, reflect.ValueOf(j.v))
		if !want.IsValid() {
			want = reflect.Zero(j.rd.t)
		}
		if !same(p.Elem(), want) {
			r.Violation(key, "%s(%s) is stored as %s and read back by %s as %s", j.w.name, show(j.v), show(c.v), j.rd.name, show(p.Elem().Interface()))
		}
	})
}

// ---------------------------------------------------------------------------------------------
// C08

func checkC08(r *vf.Run, db *sql.DB) {
	// nil and empty inputs of the writers
	for _, c := range registry {
		if c.from == nil {
			continue
		}
		k := c.t.Kind()
		if (c.pg == "JSON" || c.pg == "XML") && c.t != docType && c.t != bytesType {
			continue // a typed nil is what the encoding package makes of it
		}
		var probes []any
		switch k {
		case reflect.Slice:
			probes = []any{reflect.Zero(c.t).Interface(), reflect.MakeSlice(c.t, 0, 0).Interface()}
		case reflect.Map:
			probes = []any{reflect.Zero(c.t).Interface(), reflect.MakeMap(c.t).Interface()}
		case reflect.String:
			probes = []any{nil, ""}
			probes[0] = nil
		default:
			if c.t == docType {
				for _, v := range domain(r, c.pg, c.t) {
					d := v.(doc)
					if !d.nilable {
						continue
					}
					dv, err := valueOf(c, d)
					r.Add("nil_writes", 1)
					if err != nil || (dv == nil) != d.isNil {
						r.Violation(c.name+" "+d.name, "%s(%s): driver value %s, error %v; NULL expected: %v", c.name, d.name, show(dv), err, d.isNil)
					}
				}
			}
			continue
		}
		for i, v := range probes {
			if v == nil {
				continue
			}
			if i == 1 && (c.pg == "Path" || c.pg == "Polygon" || c.pg == "MACAddr" || c.pg == "MACAddr8" || c.pg == "Inet" && c.t == ipType) {
				continue // the type has no empty value
			}
			dv, err := valueOf(c, v)
			r.Add("nil_writes", 1)
			if err != nil || (dv == nil) != (i == 0) {
				r.Violation(fmt.Sprintf("%s %s", c.name, show(v)), "%s(%s): driver value %s, error %v; NULL expected: %v", c.name, show(v), show(dv), err, i == 0)
				continue
			}
			got := ask(db, "$1::"+sqlTypes(c.pg)[0], dv)
			if got.err != nil || got.null != (i == 0) {
				r.Violation(fmt.Sprintf("%s %s", c.name, show(v)), "%s(%s) is stored as %s", c.name, show(v), got)
			}
		}
	}
	var rd []conv
	for _, c := range registry {
		if c.to != nil {
			rd = append(rd, c)
		}
	}
	r.Add("readers_checked", len(rd))
	depth := r.Pick(2, 3)
	vf.Par(8, len(rd), func(w, i int) {
		c := rd[i]
		// one source per distinct delivered value, NULL first; thinned to a spread of shapes
		var srcs []any
		srcs = append(srcs, nil)
		seen := map[string]bool{}
		ss := sources(r, c.pg, c.t)
		ss = spread(ss, r.Pick(14, 24))
		for _, s := range ss {
			src, err := fetch(db, s.expr)
			if err != nil || src == nil {
				continue
			}
			k := show(src)
			if seen[k] {
				continue
			}
			seen[k] = true
			srcs = append(srcs, src)
		}
		type res struct {
			v   reflect.Value
			err error
		}
		fresh := make([]res, len(srcs))
		for k, s := range srcs {
			p := reflect.New(c.t)
			err, _ := scanInto(c, p, srcCopy(s))
			fresh[k] = res{p.Elem(), err}
		}
		// NULL into a fresh variable is the zero value
		if fresh[0].err != nil || !isZeroDest(fresh[0].v) {
			r.Violation(c.name+" NULL", "%s of NULL into a fresh variable gives %s, %v", c.name, show(fresh[0].v.Interface()), fresh[0].err)
		}
		var rec func(p reflect.Value, hist []int)
		rec = func(p reflect.Value, hist []int) {
			if len(hist) == depth {
				return
			}
			for k, s := range srcs {
				q := reflect.New(c.t)
				// replay the history: destinations may keep hidden state (shared arrays)
				for _, h := range hist {
					scanInto(c, q, srcCopy(srcs[h]))
				}
				err, pan := scanInto(c, q, srcCopy(s))
				h2 := append(append([]int{}, hist...), k)
				r.Add("histories", 1)
				if (err == nil) != (fresh[k].err == nil) {
					r.Violation(histKey(c, srcs, h2), "%s: after %s, reading %s gives error %v, into a fresh variable %v (panic %v)", c.name, histShow(srcs, hist), show(s), err, fresh[k].err, pan)
					continue
				}
				if err == nil && !same(q.Elem(), fresh[k].v) {
					r.Violation(histKey(c, srcs, h2), "%s: after %s, reading %s gives %s, into a fresh variable %s", c.name, histShow(srcs, hist), show(s), show(q.Elem().Interface()), show(fresh[k].v.Interface()))
					continue
				}
				if err == nil {
					r.Outcome(c.name + show(q.Elem().Interface()))
				}
				rec(q, h2)
			}
		}
		rec(reflect.New(c.t), nil)
		if i%60 == 0 {
			r.Sample(map[string]any{"reader": c.name, "sources": len(srcs)})
		}
	})
}

func isZeroDest(v reflect.Value) bool { return v.IsZero() }

func histKey(c conv, srcs []any, h []int) string {
	// reading NULL over something is one failure of the reader, whatever was there before
	if srcs[h[len(h)-1]] == nil {
		return c.name + " NULL-over-value"
	}
	return c.name + " " + histShow(srcs, h)
}

func histShow(srcs []any, h []int) string {
	var p []string
	for _, k := range h {
		p = append(p, show(srcs[k]))
	}
	return strings.Join(p, " then ")
}

// spread picks n elements: both ends and evenly spaced ones between.
func spread(s []source, n int) []source {
	if len(s) <= n {
		return s
	}
	var out []source
	for i := 0; i < n; i++ {
		out = append(out, s[i*(len(s)-1)/(n-1)])
	}
	return out
}

// ---------------------------------------------------------------------------------------------
// C09

func checkC09(r *vf.Run, db *sql.DB) {
	vf.Par(8, len(registry), func(w, i int) {
		c := registry[i]
		if c.to != nil {
			for _, s := range sources(r, c.pg, c.t) {
				if r.Expired("C09") {
					return
				}
				src, err := fetch(db, s.expr)
				if err != nil {
					continue
				}
				b, ok := src.([]byte)
				if !ok {
					if st, isS := src.(string); isS {
						b, ok = []byte(st), true
					}
				}
				if !ok {
					// values without a buffer cannot be shared; still exercise the text form
					continue
				}
				for _, over := range []byte{0, 'x', '"', '1'} {
					buf := make([]byte, len(b), len(b)+16)
					copy(buf, b)
					tail := buf[len(b):cap(buf)]
					p := reflect.New(c.t)
					if err, _ := scanInto(c, p, buf); err != nil {
						break
					}
					r.Add("reads", 1)
					key := c.name + " " + s.key()
					if !bytes.Equal(buf, b) {
						r.Violation(key, "%s changed the driver's buffer from %q to %q", c.name, b, buf)
						break
					}
					if !bytes.Equal(tail, make([]byte, len(tail))) {
						r.Violation(key, "%s wrote behind the driver's buffer %q", c.name, b)
						break
					}
					before := show(p.Elem().Interface())
					snap := clone(p.Elem())
					for k := range buf {
						buf[k] = over
					}
					if !same(snap, p.Elem()) {
						r.Violation(c.name+" shares-buffer", "%s of %q: the value changes from %s to %s when the driver reuses its buffer", c.name, b, before, show(p.Elem().Interface()))
						break
					}
					r.Outcome(c.name + before)
				}
			}
			return
		}
		for _, v0 := range domain(r, c.pg, c.t) {
			if r.Expired("C09") {
				return
			}
			orig := reflect.ValueOf(v0)
			if !orig.IsValid() {
				continue
			}
			v := clone(orig)
			valuer := c.from(v.Interface())
			var d1, d2 driver.Value
			var e1, e2 error
			if err, pan := guard(func() error { d1, e1 = valuer.Value(); return e1 }); pan {
				r.Violation(c.name+" "+show(v0), "%s(%s): %v", c.name, show(v0), err)
				continue
			}
			r.Add("writes", 1)
			key := c.name + " " + show(v0)
			if !same(v, orig) {
				r.Violation(key, "%s changed the caller's value from %s to %s", c.name, show(v0), show(v.Interface()))
				continue
			}
			if e1 != nil {
				continue
			}
			d1c := srcCopy(d1)
			if d1 == nil {
				d1c = nil
			}
			d2, e2 = valuer.Value()
			if e2 != nil || !sameDriver(d1c, d2) {
				r.Violation(key, "%s(%s) produces %s and then %s, %v", c.name, show(v0), show(d1c), show(d2), e2)
				continue
			}
			if !sameDriver(d1c, d1) {
				r.Violation(key, "%s(%s): producing the value again changes the first one from %s to %s", c.name, show(v0), show(d1c), show(d1))
				continue
			}
			// the caller changes its data
			d2c := srcCopy(d2)
			scribble(v)
			if !sameDriver(d1c, d1) || !sameDriver(d2c, d2) {
				r.Violation(c.name+" shares-data", "%s(%s): the driver value changes from %s to %s when the caller changes its data", c.name, show(v0), show(d1c), show(d1))
				continue
			}
			// the driver scribbles over what it was given
			v2 := clone(orig)
			valuer2 := c.from(v2.Interface())
			d3, _ := valuer2.Value()
			if b, ok := d3.([]byte); ok {
				for k := range b {
					b[k] = '#'
				}
				if !same(v2, orig) {
					r.Violation(c.name+" shares-output", "%s(%s): the caller's data is part of the driver value", c.name, show(v0))
				} else if d4, err := valuer2.Value(); err != nil || !sameDriver(d4, d1c) {
					r.Violation(key, "%s(%s) produces %s at first and %s later", c.name, show(v0), show(d1c), show(d4))
				}
			}
			// one shared valuer used by several callers at once gives the same result (no hidden state)
			r.Outcome(c.name + show(d1c))
		}
	})
}

// sameDriver compares driver values; a map's pairs may come in any order.
func sameDriver(a, b driver.Value) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	x, ok1 := a.([]byte)
	y, ok2 := b.([]byte)
	if !ok1 || !ok2 || len(x) != len(y) {
		return false
	}
	if !bytes.Contains(x, []byte("=>")) {
		return false
	}
	sx, sy := strings.Split(string(x), ""), strings.Split(string(y), "")
	sort.Strings(sx)
	sort.Strings(sy)
	return reflect.DeepEqual(sx, sy)
}

func docConvs() []conv {
	var out []conv
	js := func(v any) driver.Valuer { return pgsql.JSON(v) }
	jr := func(p any) sql.Scanner { return pgsql.JSON(p) }
	xs := func(v any) driver.Valuer { return pgsql.XML(v) }
	xr := func(p any) sql.Scanner { return pgsql.XML(p) }
	for _, v := range []any{docS{}, &docS{}, map[string]any{}, []any{}, []int{}, map[string]int{}, "", 0, false, []docS{}} {
		t := reflect.TypeOf(v)
		out = append(out, conv{pg: "JSON", name: "JSON[" + t.String() + "]", t: t, from: js}, conv{pg: "JSON", name: "JSON[" + t.String() + "]", t: t, to: jr})
	}
	for _, v := range []any{docS{}, &docS{}} {
		t := reflect.TypeOf(v)
		out = append(out, conv{pg: "XML", name: "XML[" + t.String() + "]", t: t, from: xs}, conv{pg: "XML", name: "XML[" + t.String() + "]", t: t, to: xr})
	}
	nilConv := func(f func(any) driver.Valuer) func(any) driver.Valuer {
		return func(any) driver.Valuer { return f(nil) }
	}
	out = append(out, conv{pg: "JSON", name: "JSON(nil)", t: docType, from: nilConv(js)}, conv{pg: "XML", name: "XML(nil)", t: docType, from: nilConv(xs)})
	return out
}
