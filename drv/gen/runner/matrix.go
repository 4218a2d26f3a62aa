package main

import (
	"database/sql"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/lib/pq"

	"vfx/vfrt"
)

// MatrixSpec describes a field of some Go type that the tool accepted for a column of some type.
type MatrixSpec struct {
	Kind    string   `json:"kind"` // insert, select, where
	Table   string   `json:"table"`
	PG      string   `json:"pg"`   // the column's type, named as the converters name it
	Cast    string   `json:"cast"` // its name without length modifier
	Text    bool     `json:"text"` // strings are the type's values themselves
	Samples []string `json:"samples"`
	Null    bool     `json:"null"` // the column may be NULL
	Op      string   `json:"op"`   // reference operator, with ? for the argument
	Array   bool     `json:"array"`
	Path    string   `json:"path"` // of the field
	List    bool     `json:"list"` // its elements are the arguments
	Num     bool     `json:"num"`  // the field's []uint8 are lists of numbers
}

type tier bool

func (t tier) Pick(a, b int) int {
	if t {
		return b
	}
	return a
}

// rich names the Go type whose domain covers most of a PostgreSQL type.
func rich(pg string) reflect.Type {
	s, arr := scalarOf(pg)
	var v any
	switch s {
	case "Bit":
		v = uint(0)
	case "Bool":
		v = false
	case "Box", "Lseg":
		v = [2][2]float64{}
	case "CIDR", "Inet":
		return wrapArr(ipnetType, arr)
	case "Date", "Time", "Timetz", "Timestamp", "Timestamptz":
		return wrapArr(timeType, arr)
	case "DateRange", "TsRange", "TstzRange":
		return wrapArr(reflect.ArrayOf(2, timeType), arr)
	case "Float4":
		v = float32(0)
	case "Float8":
		v = float64(0)
	case "Numeric":
		v = float64(0)
	case "NumRange":
		v = [2]float64{}
	case "HStore":
		v = map[string]*string{}
	case "Int2", "Int4", "Int8", "Money":
		v = int64(0)
	case "Int4Range", "Int8Range":
		v = [2]int64{}
	case "Int2Vector":
		v = []int16{}
	case "JSON", "XML", "Bytea":
		v = []byte{}
	case "Line":
		v = [3]float64{}
	case "MACAddr", "MACAddr8":
		return wrapArr(macType, arr)
	case "Path", "Polygon":
		v = [][2]float64{}
	case "Point":
		v = [2]float64{}
	case "TSVector":
		v = []string{}
	case "UUID":
		v = [16]byte{}
	case "Text", "VarChar", "BPChar", "Char", "TSQuery", "VarBit":
		v = ""
	default:
		return nil
	}
	return wrapArr(reflect.TypeOf(v), arr)
}

func wrapArr(t reflect.Type, arr bool) reflect.Type {
	if arr {
		return reflect.SliceOf(t)
	}
	return t
}

// plain is the predeclared type a (possibly defined) type is made of.
func plain(t reflect.Type) reflect.Type {
	switch t {
	case timeType, ipType, ipnetType, macType, nullStrType, docType:
		return t
	}
	switch t.Kind() {
	case reflect.Slice:
		if t.PkgPath() != "" && t.ConvertibleTo(ipType) && strings.HasPrefix(t.PkgPath(), "net") {
			return t
		}
		return reflect.SliceOf(plain(t.Elem()))
	case reflect.Array:
		return reflect.ArrayOf(t.Len(), plain(t.Elem()))
	case reflect.Map:
		return reflect.MapOf(plain(t.Key()), plain(t.Elem()))
	case reflect.Ptr:
		return reflect.PointerTo(plain(t.Elem()))
	case reflect.Struct:
		for _, k := range []reflect.Type{timeType, ipnetType, nullStrType, reflect.TypeOf(docS{})} {
			if t.ConvertibleTo(k) {
				return k
			}
		}
		return t
	case reflect.Bool:
		return reflect.TypeOf(false)
	case reflect.String:
		return stringType
	case reflect.Int:
		return reflect.TypeOf(int(0))
	case reflect.Int8:
		return reflect.TypeOf(int8(0))
	case reflect.Int16:
		return reflect.TypeOf(int16(0))
	case reflect.Int32:
		return reflect.TypeOf(int32(0))
	case reflect.Int64:
		return reflect.TypeOf(int64(0))
	case reflect.Uint:
		return reflect.TypeOf(uint(0))
	case reflect.Uint8:
		return reflect.TypeOf(uint8(0))
	case reflect.Uint16:
		return reflect.TypeOf(uint16(0))
	case reflect.Uint32:
		return reflect.TypeOf(uint32(0))
	case reflect.Uint64:
		return reflect.TypeOf(uint64(0))
	case reflect.Float32:
		return reflect.TypeOf(float32(0))
	case reflect.Float64:
		return reflect.TypeOf(float64(0))
	}
	return t
}

// plain: a document's byte slice holds its text, whatever it is called.
func (m *MatrixSpec) plain(t reflect.Type) reflect.Type {
	if (m.PG == "JSON" || m.PG == "XML") && isBytes(t) {
		return bytesType
	}
	return plain(t)
}

// recast gives v as a value of t, which is made of the same parts.
func recast(v reflect.Value, t reflect.Type) reflect.Value {
	if !v.IsValid() {
		return reflect.Zero(t)
	}
	if v.Type() == t {
		return v
	}
	if v.Type().ConvertibleTo(t) {
		return v.Convert(t)
	}
	switch t.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return reflect.Zero(t)
		}
		out := reflect.MakeSlice(t, v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(recast(v.Index(i), t.Elem()))
		}
		return out
	case reflect.Array:
		out := reflect.New(t).Elem()
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(recast(v.Index(i), t.Elem()))
		}
		return out
	case reflect.Map:
		if v.IsNil() {
			return reflect.Zero(t)
		}
		out := reflect.MakeMap(t)
		for _, k := range v.MapKeys() {
			out.SetMapIndex(recast(k, t.Key()), recast(v.MapIndex(k), t.Elem()))
		}
		return out
	case reflect.Ptr:
		if v.IsNil() {
			return reflect.Zero(t)
		}
		out := reflect.New(t.Elem())
		out.Elem().Set(recast(v.Elem(), t.Elem()))
		return out
	}
	panic("cannot make a " + t.String() + " of a " + v.Type().String())
}

// mval is a Go value and the expressions that denote it (none: no such value).
type mval struct {
	v       reflect.Value // of the plain type
	nul     bool          // the nil pointer
	exprs   []string
	mayFail bool // the database may refuse it
	vague   bool // its meaning is not known to the harness
}

var (
	textMu    sync.Mutex
	textCache = map[string][]string{}
)

// texts lists canonical texts of the type's values.
func (w *worker) texts(pg, cast string, samples []string) []string {
	key := pg + "/" + cast
	textMu.Lock()
	defer textMu.Unlock()
	if t, ok := textCache[key]; ok {
		return t
	}
	out := append([]string{}, samples...)
	if t := rich(pg); t != nil && len(samples) == 0 {
		seen := map[string]bool{}
		for _, v := range spreadAny(domain(tier(false), pg, t), 60) {
			es, ok := expr(pg, cast, v)
			if !ok || es[0] == "" {
				continue
			}
			x := ask(w.db, es[0])
			if x.err == nil && !x.null && !seen[x.text] {
				seen[x.text] = true
				out = append(out, x.text)
			}
		}
	}
	textCache[key] = out
	return out
}

func spreadAny(s []any, n int) []any {
	if len(s) <= n {
		return s
	}
	return pick(s, n)
}

// values lists the values of the field's type to try.
func (w *worker) values(m *MatrixSpec, t reflect.Type, n int) []mval {
	out := w.values1(m, t, n)
	for i := range out {
		v := &out[i]
		if v.v.IsValid() && isBytes(v.v.Type()) && v.v.IsNil() && !m.docType(t) {
			// the driver sends an empty text
			cast := m.Cast
			if m.Array {
				cast += "[]"
			}
			v.exprs, v.mayFail = []string{"NULL::" + cast, "''::" + cast}, true
		}
	}
	return out
}

func isBytes(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8
}

// docType: what the field holds is encoded as a document.
func (m *MatrixSpec) docType(t reflect.Type) bool {
	if m.PG != "JSON" && m.PG != "XML" || m.Array {
		return false
	}
	if b := t; b.Kind() == reflect.Ptr {
		t = b.Elem()
	}
	if m.PG == "JSON" && t == rawType {
		return true
	}
	k := t.Kind()
	return k != reflect.Interface && k != reflect.String && !isBytes(t)
}

var rawType = reflect.TypeOf(json.RawMessage{})

func (w *worker) values1(m *MatrixSpec, t reflect.Type, n int) []mval {
	pg, cast := m.PG, m.Cast
	if m.Array {
		pg, cast = pg+"Array", cast+"[]"
	}
	if t.Kind() == reflect.Ptr {
		out := []mval{{nul: true, v: reflect.Value{}, exprs: []string{"NULL::" + cast}}}
		if pg == "JSON" || pg == "XML" {
			b, _ := marshal(pg, nil)
			out[0].exprs = append(out[0].exprs, q(string(b))+"::"+cast)
		}
		if m.docType(t) {
			for _, v := range docValues(t.Elem()) {
				p := reflect.New(t.Elem())
				p.Elem().Set(v)
				b, err := marshal(pg, p.Interface())
				mv := mval{v: v}
				if err == nil {
					mv.exprs = []string{q(string(b)) + "::" + cast}
				}
				out = append(out, mv)
			}
			return out
		}
		return append(out, w.values(m, t.Elem(), n)...)
	}
	p := m.plain(t)
	var out []mval
	if m.docType(t) {
		for _, v := range docValues(t) {
			b, err := marshal(pg, v.Interface())
			mv := mval{v: v}
			if err == nil {
				mv.exprs = []string{q(string(b)) + "::" + cast}
			}
			out = append(out, mv)
		}
		return out
	}
	if m.isText(pg, p) && !m.Text && !(p == bytesType && hasBytes(pg)) && !(p == stringType && pg == "Bytea") {
		if p == bytesType {
			out = append(out, mval{v: reflect.Zero(p)})
		}
		ts := w.texts(pg, cast, m.Samples)
		for i, x := range ts {
			if len(ts) > n && i%((len(ts)+n-1)/n) != 0 {
				continue
			}
			out = append(out, mval{v: reflect.ValueOf(x).Convert(p), exprs: []string{q(x) + "::" + cast}})
		}
		if len(ts) == 0 {
			out = append(out, mval{v: reflect.ValueOf("x").Convert(p), vague: true})
		}
		return out
	}
	if m.Text && isText(p) {
		if p == bytesType {
			out = append(out, mval{v: reflect.Zero(p)})
		}
		for _, x := range append(append([]string{}, m.Samples...), specials...) {
			if len(out) < n || len(x) < 6 {
				out = append(out, mval{v: reflect.ValueOf(x).Convert(p), exprs: []string{q(x) + "::" + cast}})
			}
		}
		return out
	}
	if p.Kind() == reflect.Interface {
		if pg == "JSON" {
			for _, x := range []any{map[string]any{"a": []any{1.5, nil, "x"}}, []any{"a"}, "s", 1.5, true, nil} {
				mv := mval{v: reflect.ValueOf(x)}
				if x == nil {
					mv = mval{nul: true, exprs: []string{"NULL::" + cast}}
				} else {
					mv.exprs, _ = expr(pg, cast, x)
				}
				out = append(out, mv)
			}
			return out
		}
		return []mval{{nul: true, exprs: []string{"NULL::" + cast}}}
	}
	var dom []any
	if s, _ := scalarOf(pg); scalarSQL[s] != nil {
		func() {
			defer func() { recover() }() // the type has no values of this column's type
			dom = domain(tier(false), pg, p)
			if len(dom) > 0 {
				expr(pg, cast, dom[0])
			}
		}()
	}
	for _, x := range spreadAny(dom, n) {
		rv := reflect.ValueOf(x)
		if rv.CanUint() && rv.Uint() > math.MaxInt64 {
			continue // the driver refuses them
		}
		es, ok := func() (es []string, ok bool) {
			defer func() {
				if recover() != nil {
					es, ok = nil, false
				}
			}()
			return expr(pg, cast, x)
		}()
		if !ok {
			es = nil
		}
		out = append(out, mval{v: rv, exprs: es})
	}
	if len(dom) == 0 {
		out = append(out, mval{v: reflect.Zero(p), vague: true})
	}
	return out
}

// isText: the field holds the value's text (and not what a list of numbers or characters denotes).
func (m *MatrixSpec) isText(pg string, p reflect.Type) bool {
	if !isText(p) || strings.HasPrefix(pg, "BPCharArray") && !m.Text && !pattern(m.Op) {
		return false
	}
	_, arr := scalarOf(pg)
	return !(m.Num && p == bytesType && (arr || pg == "VarBit" || pg == "Int2Vector") && pg != "ByteaArray")
}

// isText: the field holds the value's text.
func isText(p reflect.Type) bool { return p == stringType || p == bytesType }

func marshal(pg string, v any) ([]byte, error) {
	if pg == "XML" {
		return xml.Marshal(v)
	}
	return json.Marshal(v)
}

func unmarshal(pg string, b []byte, p any) error {
	if pg == "XML" {
		if len(b) == 0 {
			return nil
		}
		return xml.Unmarshal(b, p)
	}
	return json.Unmarshal(b, p)
}

// docValues are some values of any type.
func docValues(t reflect.Type) (out []reflect.Value) {
	for level := 0; level < 4; level++ {
		for list := 0; list < 3; list++ {
			v := reflect.New(t).Elem()
			if level > 0 || list > 0 {
				(&filler{level: level, list: list, sink: &vfrt.Sink{}}).fill(v, "")
			}
			seen := false
			for _, o := range out {
				seen = seen || reflect.DeepEqual(o.Interface(), v.Interface())
			}
			if !seen {
				out = append(out, v)
			}
		}
	}
	return out
}

func hasBytes(pg string) bool { return pg == "Bytea" || pg == "JSON" || pg == "XML" }

func class(err error) string {
	if err == nil {
		return ""
	}
	if e, ok := err.(*pq.Error); ok {
		return string(e.Code)
	}
	return "go"
}

// noSuch tells whether the statement itself is at fault (no such operator, function, column, ...).
func noSuch(err error) bool {
	c := class(err)
	return strings.HasPrefix(c, "42")
}

type mrun struct {
	w    *worker
	j    *Job
	m    *MatrixSpec
	res  *Result
	outs map[string]bool
}

func (r *mrun) bad(f string, args ...any) {
	r.res.NBad++
	if len(r.res.Bad) < 4 {
		r.res.Bad = append(r.res.Bad, fmt.Sprintf(f, args...))
	}
}

func (w *worker) matrix(j *Job) *Result {
	res := &Result{Name: j.Name}
	r := &mrun{w: w, j: j, m: j.Matrix, res: res, outs: map[string]bool{}}
	e, ok := vfrt.Registry[j.Name]
	if !ok {
		r.bad("not registered")
		return res
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.bad("harness: %v", x)
			}
		}()
		switch j.Matrix.Kind {
		case "insert", "update", "slice", "updateslice":
			r.insert(e)
		case "key", "keyslice":
			r.key(e)
		case "select":
			r.sel(e)
		case "where":
			r.where(e)
		}
	}()
	for o := range r.outs {
		res.Outcomes = append(res.Outcomes, o)
	}
	res.Total = res.Runs
	return res
}

func (r *mrun) exec(s string, args ...any) {
	if _, err := r.w.db.Exec(s, args...); err != nil {
		panic(fmt.Sprintf("%s: %v", s, err))
	}
}

// call runs the method; a panic is an error of its own kind.
func (r *mrun) call(e vfrt.Entry, q any) (err error, panicked bool) {
	defer func() {
		if x := recover(); x != nil {
			err, panicked = fmt.Errorf("panic: %v", x), true
		}
	}()
	r.res.Runs++
	r.w.env.Conn = r.w.db
	return e.Exec(q, r.w.env), false
}

func field(q any, path string) reflect.Value {
	v, ok := at(reflect.ValueOf(q), path, true)
	if !ok {
		panic("no field " + path)
	}
	return v
}

func leafType(q any, path string) reflect.Type {
	t := reflect.TypeOf(q).Elem()
	for _, n := range strings.Split(path, ".") {
		for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		f, ok := t.FieldByName(n)
		if !ok {
			panic("no field " + n)
		}
		t = f.Type
	}
	return t
}

func (r *mrun) showVal(v mval) string {
	if v.nul {
		return "nil"
	}
	return fmt.Sprintf("%s(%s)", v.v.Type(), show(v.v.Interface()))
}

// isZeroTime: midnight is the zero value of the time types.
func isZeroTime(pg string, v reflect.Value) bool {
	if v.Type() != timeType {
		return false
	}
	t := v.Interface().(time.Time)
	if pg == "Time" || pg == "Timetz" {
		return t.Hour() == 0 && t.Minute() == 0 && t.Second() == 0 && t.Nanosecond() == 0
	}
	return t.UTC().IsZero()
}

func setVal(f reflect.Value, v mval) {
	if v.nul || !v.v.IsValid() {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	if f.Kind() == reflect.Ptr {
		p := reflect.New(f.Type().Elem())
		p.Elem().Set(recast(v.v, f.Type().Elem()))
		f.Set(p)
		return
	}
	f.Set(recast(v.v, f.Type()))
}

func (r *mrun) stored(k int) (out pgval) {
	var s sql.NullString
	out.err = r.w.db.QueryRow(fmt.Sprintf("SELECT CASE WHEN v IS NULL THEN NULL ELSE format('%%s', v) END FROM %s WHERE k = %d", r.m.Table, k)).Scan(&s)
	out.null, out.text = !s.Valid, s.String
	return
}

// insert: what the method stores is what the value denotes; what the column cannot hold is refused.
func (r *mrun) insert(e vfrt.Entry) {
	m := r.m
	t := leafType(e.New(&vfrt.Sink{}), m.Path)
	nvals := 48
	if m.Kind != "insert" {
		nvals = 12
	}
	vals := r.w.values(m, t, nvals)
	if m.Null && t.Kind() != reflect.Ptr {
		has := false
		for _, v := range vals {
			has = has || v.v.IsValid() && v.v.IsZero()
		}
		if !has {
			z := mval{v: reflect.Zero(m.plain(t)), exprs: []string{"NULL::" + m.Cast}}
			func() {
				defer func() { recover() }()
				es, _ := expr(m.PG, m.Cast, z.v.Interface())
				z.exprs = append(z.exprs, es...)
			}()
			z.mayFail = len(z.exprs) == 1 // its own meaning may be none
			vals = append(vals, z)
		}
	}
	for i, v := range vals {
		r.exec("DELETE FROM " + m.Table)
		var want []pgval
		for a, x := range v.exprs {
			if x == "" {
				continue
			}
			if _, err := r.w.db.Exec(fmt.Sprintf("INSERT INTO %s (k, v) VALUES (%d, %s)", m.Table, a, x)); err == nil {
				want = append(want, r.stored(a))
			} else if v.mayFail = true; noSuch(err) && !strings.HasPrefix(class(err), "428") {
				panic(fmt.Sprintf("reference: %s: %v", x, err))
			}
		}
		zero := !v.nul && v.v.IsValid() && (v.v.IsZero() || v.v.Kind() == reflect.Slice && v.v.Len() == 0)
		if m.Null && zero && t.Kind() != reflect.Ptr {
			v.mayFail = v.mayFail || len(want) == 0
			want = append(want, pgval{null: true})
		}
		r.exec("DELETE FROM " + m.Table)
		q := e.New(&vfrt.Sink{})
		k := 1000 + i
		base := m.Path[:strings.LastIndex(m.Path, ".")]
		if strings.HasPrefix(m.Kind, "update") {
			r.exec(fmt.Sprintf("INSERT INTO %s (k, v) VALUES (%d, NULL), (%d, NULL), (%d, NULL)", m.Table, k, k+1000, k+2000))
		}
		if strings.HasSuffix(m.Kind, "slice") {
			rel := field(q, base)
			et := rel.Type().Elem()
			for j := 0; j < 2; j++ {
				rec := reflect.New(et.Elem())
				rec.Elem().FieldByName("K").SetInt(int64(k + 1000*j))
				setVal(rec.Elem().FieldByName("V"), v)
				rel.Set(reflect.Append(rel, rec))
			}
		} else {
			field(q, base+".K").SetInt(int64(k))
			setVal(field(q, m.Path), v)
		}
		if m.Kind == "update" {
			field(q, "Where.K").SetInt(int64(k))
		}
		err, panicked := r.call(e, q)
		switch {
		case panicked:
			r.bad("writing %s panics: %v", r.showVal(v), err)
		case err != nil && noSuch(err):
			r.bad("writing %s: %v", r.showVal(v), err)
		case v.vague:
			r.bad("accepted, but no value of the field's type is known to be one of the column's (writing %s: %v)", r.showVal(v), err)
		case err != nil:
			if len(want) > 0 && !v.mayFail {
				r.bad("writing %s, which denotes %s: %v", r.showVal(v), want[0], err)
			}
			r.outs["refused"] = true
		default:
			got := r.stored(k)
			if strings.HasSuffix(m.Kind, "slice") {
				if g2 := r.stored(k + 1000); g2 != got {
					r.bad("writing %s in two records stores %s and %s", r.showVal(v), got, g2)
				}
			}
			if strings.HasPrefix(m.Kind, "update") {
				if g3 := r.stored(k + 2000); !g3.null {
					r.bad("writing %s changes another row to %s", r.showVal(v), g3)
				}
			}
			ok := false
			for _, x := range want {
				ok = ok || x.null == got.null && x.text == got.text && got.err == nil
			}
			if !ok {
				if len(want) == 0 {
					r.bad("writing %s, which the column cannot hold, stores %s", r.showVal(v), got)
				} else {
					r.bad("writing %s stores %s, want %s", r.showVal(v), got, want[0])
				}
			}
			r.outs["stored"] = true
			if r.res.Sample == "" && i > 2 {
				r.res.Sample = r.showVal(v) + " stored as " + got.String()
			}
		}
	}
}

// key: the rows updated are the ones whose keys are the values.
func (r *mrun) key(e vfrt.Entry) {
	m := r.m
	t := leafType(e.New(&vfrt.Sink{}), m.Path)
	vals := r.w.values(m, t, 12)
	// the rows: what the values denote
	r.exec("DELETE FROM " + m.Table)
	n := 0
	for _, v := range vals {
		for _, x := range v.exprs {
			if x == "" {
				continue
			}
			if _, err := r.w.db.Exec(fmt.Sprintf("INSERT INTO %s (k, v) VALUES (%d, %s)", m.Table, n, x)); err == nil {
				n++
			} else if noSuch(err) && !strings.HasPrefix(class(err), "428") {
				panic(fmt.Sprintf("reference: %s: %v", x, err))
			}
		}
	}
	state := func() string {
		s, err := r.keys("SELECT format('%s', v) || ' ' || k FROM " + m.Table + " ORDER BY v")
		if err != nil {
			panic(err)
		}
		return s
	}
	for i, v := range vals {
		others := []int{-1}
		if m.Kind == "keyslice" {
			others = []int{(i + 1) % len(vals)}
		}
		for _, o := range others {
			r.exec("UPDATE " + m.Table + " SET k = 0")
			var want []string
			bad := v.vague || v.mayFail
			ys := []string{""}
			if o >= 0 && o != i {
				ys = vals[o].exprs
				bad = bad || vals[o].vague || vals[o].mayFail
			}
			for _, x := range v.exprs {
				for _, y := range ys {
					if x == "" || y == "" && o >= 0 && o != i {
						continue
					}
					r.exec("UPDATE " + m.Table + " SET k = 0")
					_, err := r.w.db.Exec("UPDATE " + m.Table + " SET k = 77 WHERE v = " + x)
					if err == nil && y != "" {
						if same, e := r.keys("SELECT (" + x + ") = (" + y + ")"); e != nil || same == "true" {
							bad = true
						}
						_, err = r.w.db.Exec("UPDATE " + m.Table + " SET k = 78 WHERE v = " + y)
					}
					if err == nil {
						want = append(want, state())
					} else {
						bad = true
					}
				}
			}
			r.exec("UPDATE " + m.Table + " SET k = 0")
			q := e.New(&vfrt.Sink{})
			if o >= 0 {
				rel := field(q, "Rel")
				et := rel.Type().Elem()
				for j, a := range []int{i, o} {
					if j == 1 && o == i {
						break
					}
					rec := reflect.New(et.Elem())
					rec.Elem().FieldByName("K").SetInt(int64(77 + j))
					setVal(rec.Elem().FieldByName("V"), vals[a])
					rel.Set(reflect.Append(rel, rec))
				}
			} else {
				field(q, "Rel.K").SetInt(77)
				setVal(field(q, m.Path), v)
			}
			err, panicked := r.call(e, q)
			what := r.showVal(v)
			if o >= 0 {
				what += " and " + r.showVal(vals[o])
			}
			switch {
			case panicked:
				r.bad("key %s panics: %v", what, err)
			case err != nil && noSuch(err):
				r.bad("key %s: %v", what, err)
			case err != nil:
				if len(want) > 0 && !bad {
					r.bad("key %s: %v; want %s", what, err, want[0])
				}
				r.outs["refused"] = true
			case bad || len(want) == 0:
			default:
				got := state()
				ok := false
				for _, x := range want {
					ok = ok || x == got
				}
				if !ok {
					r.bad("key %s gives the rows %s, want %s", what, got, want[0])
				}
				r.outs[got] = true
			}
		}
	}
}

// sel: what the method reads is the value in the column.
func (r *mrun) sel(e vfrt.Entry) {
	m := r.m
	t := leafType(e.New(&vfrt.Sink{}), m.Path)
	ptr := t.Kind() == reflect.Ptr
	base := t
	if ptr {
		base = t.Elem()
	}
	p := m.plain(base)
	var srcs []source
	textual := m.isText(m.PG, p)
	doc := m.docType(t)
	textual = textual && !doc
	switch {
	case textual || p.Kind() == reflect.Interface:
		mm := *m
		for _, v := range r.w.values(&mm, stringType, 60) {
			if len(v.exprs) > 0 {
				srcs = append(srcs, source{expr: v.exprs[0]})
			}
		}
	case doc:
		for _, v := range docValues(t) {
			b, err := marshal(m.PG, v.Interface())
			if err != nil {
				continue
			}
			src := source{expr: q(string(b)) + "::" + m.Cast}
			w := reflect.New(t)
			if st := ask(r.w.db, src.expr); st.err != nil || unmarshal(m.PG, []byte(st.text), w.Interface()) != nil {
				src.orError = true
			} else {
				src.want = []reflect.Value{w.Elem()}
			}
			srcs = append(srcs, src)
		}
	default:
		if s, _ := scalarOf(m.PG); scalarSQL[s] != nil {
			func() {
				defer func() {
					if recover() != nil {
						srcs = nil
					}
				}()
				srcs = sources(tier(false), m.PG, p)
			}()
		}
		if len(srcs) > 80 {
			var s2 []source
			step := (len(srcs) + 79) / 80
			for i, s := range srcs {
				if i%step == 0 {
					s2 = append(s2, s)
				}
			}
			srcs = s2
		}
		if len(srcs) == 0 && m.PG != "JSON" && m.PG != "XML" {
			r.bad("accepted, but no value of the column's type is known to be one of the field's")
			return
		}
	}
	if m.Null {
		srcs = append(srcs, source{expr: "NULL::" + m.Cast})
	}
	r.exec("DELETE FROM " + m.Table)
	for i, s := range srcs {
		if _, err := r.w.db.Exec(fmt.Sprintf("INSERT INTO %s (k, v) VALUES (%d, %s)", m.Table, i, s.expr)); err != nil {
			continue
		}
		st := r.stored(i)
		if st.err != nil {
			panic(st.err)
		}
		if a := ask(r.w.db, s.expr); !doc && (a.null != st.null || a.text != st.text) {
			continue // the column's modifier makes another value of it
		}
		if r.out(p, st) {
			continue
		}
		q := e.New(&vfrt.Sink{})
		field(q, "Where.K").SetInt(int64(i))
		err, panicked := r.call(e, q)
		if panicked {
			r.bad("reading %s panics: %v", st, err)
			continue
		}
		if err != nil && noSuch(err) {
			r.bad("reading %s: %v", st, err)
			continue
		}
		var got reflect.Value
		if err == nil {
			got = field(q, m.Path)
			if ptr && !doc {
				if got.IsNil() != st.null {
					r.bad("reading %s gives %s", st, show(got.Interface()))
					continue
				}
				if st.null {
					continue
				}
				got = got.Elem()
			}
		}
		switch {
		case textual || p.Kind() == reflect.Interface:
			if err != nil {
				r.bad("reading %s into %s: %v", st, t, err)
				continue
			}
			r.outs["read"] = true
			if _, isAny := got.Interface().([]byte); st.text == "null" && m.PG == "JSON" && p.Kind() == reflect.Interface && !isAny && got.IsZero() {
				continue
			}
			if st.null {
				if x := recast(got, p); !x.IsZero() && !(x.Kind() == reflect.Slice && x.Len() == 0) {
					r.bad("reading NULL gives %s", show(x.Interface()))
				}
				continue
			}
			if ok, what := r.denotes(recast(got, p), st); !ok {
				r.bad("reading %s gives %s, which denotes %s", st, show(got.Interface()), what)
			}
		case st.null:
			if err != nil {
				r.bad("reading NULL: %v", err)
			} else if x := got; !x.IsZero() && !isZeroTime(m.PG, x) {
				r.bad("reading NULL gives %s", show(x.Interface()))
			}
		case err != nil:
			if !s.orError {
				r.bad("reading %s into %s: %v", st, t, err)
			}
			r.outs["error"] = true
		default:
			r.outs["read"] = true
			x := got
			if !doc {
				x = recast(got, p)
			}
			ok := false
			for _, want := range s.want {
				ok = ok || want.IsValid() && same(x, want)
			}
			if !ok && s.denote != nil {
				ok = s.denote(r.w.db, x.Interface())
			}
			if !ok {
				ws := ""
				for _, want := range s.want {
					ws += " " + show(want.Interface())
				}
				r.bad("reading %s gives %s, want%s", st, show(x.Interface()), ws)
			} else if r.res.Sample == "" && i > 2 {
				r.res.Sample = st.String() + " read as " + show(x.Interface())
			}
		}
	}
}

// out: texts which the server or the driver do not give as they are.
func (r *mrun) out(p reflect.Type, st pgval) bool {
	if st.null {
		return false
	}
	if p == timeType && strings.HasPrefix(st.text, "24:00:00") {
		return true
	}
	// the driver decodes time stamps and refuses offsets with seconds
	return r.m.PG == "Timestamptz" && isText(p) && secOffset.MatchString(st.text)
}

var secOffset = regexp.MustCompile(`[+-]\d\d:\d\d:\d\d`)

// denotes tells whether the Go value read (a text, or what the driver made of it) is the stored one.
func (r *mrun) denotes(v reflect.Value, st pgval) (bool, string) {
	m := r.m
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return st.null, "NULL"
		}
		v = v.Elem()
	}
	var e string
	switch x := v.Interface().(type) {
	case string, []byte:
		s := fmt.Sprintf("%s", x)
		if m.PG == "Bytea" {
			es, _ := expr("Bytea", "bytea", []byte(s))
			e = es[0]
		} else if m.PG == "JSON" && r.jsonAny() {
			es, _ := expr("JSON", m.Cast, s)
			e = es[0]
		} else {
			e = q(s) + "::" + m.Cast
		}
	default:
		func() {
			defer func() { recover() }()
			if es, ok := expr(m.PG, m.Cast, x); ok {
				e = es[0]
			}
		}()
		if e == "" {
			e = q(fmt.Sprint(x)) + "::" + m.Cast
		}
	}
	if m.PG == "JSON" {
		e += "::jsonb"
		g := ask(r.w.db, e)
		w := ask(r.w.db, q(st.text)+"::jsonb")
		return g.err == nil && g.text == w.text, g.String()
	}
	g := ask(r.w.db, e)
	st = ask(r.w.db, q(st.text)+"::"+m.Cast)
	return g.err == nil && g.null == st.null && g.text == st.text, g.String()
}

// jsonAny: the field holds what the JSON means, not its text.
func (r *mrun) jsonAny() bool {
	e := vfrt.Registry[r.j.Name]
	t := leafType(e.New(&vfrt.Sink{}), r.m.Path)
	return t.Kind() == reflect.Interface
}

// where: the condition selects what the same condition on the denoted value selects.
func (r *mrun) where(e vfrt.Entry) {
	m := r.m
	t := leafType(e.New(&vfrt.Sink{}), m.Path)
	r.exec("DELETE FROM " + m.Table)
	// rows: the column's values
	var rows []string
	if rt := rich(m.PG); rt != nil {
		for _, x := range spreadAny(domain(tier(false), m.PG, rt), 10) {
			if es, ok := expr(m.PG, m.Cast, x); ok && es[0] != "" {
				rows = append(rows, es[0])
			}
		}
	}
	for _, x := range m.Samples {
		rows = append(rows, q(x))
	}
	if m.Null {
		rows = append(rows, "NULL")
	}
	params := r.w.values(m, t, 9)
	if !m.Array {
		for _, v := range params {
			for _, x := range v.exprs {
				if x != "" {
					rows = append(rows, x)
				}
			}
		}
	}
	for i, x := range rows {
		r.w.db.Exec(fmt.Sprintf("INSERT INTO %s (k, v) VALUES (%d, %s)", m.Table, i, x))
	}
	for _, v := range params {
		if v.v.IsValid() && v.v.Kind() == reflect.Slice && (isBytes(v.v.Type().Elem()) && hasNilElem(v.v) || m.List && hasBig(v.v)) {
			continue // nil []byte; numbers that the driver refuses
		}
		if m.List && v.v.IsValid() && v.v.Len() == 0 {
			continue // C11 records what becomes of empty lists
		}
		var want []string
		var refErr error
		for _, x := range v.exprs {
			if x == "" {
				continue
			}
			if m.Text && pattern(m.Op) {
				x = strings.ReplaceAll(x, `"bpchar"`, "text")
			}
			ks, err := r.keys("SELECT k FROM " + m.Table + " WHERE " + strings.ReplaceAll(m.Op, "?", x) + " ORDER BY k")
			if err != nil {
				refErr = err
				continue
			}
			want = append(want, ks)
		}
		q := e.New(&vfrt.Sink{})
		setVal(field(q, m.Path), v)
		err, panicked := r.call(e, q)
		switch {
		case panicked:
			r.bad("%s: panic: %v", r.showVal(v), err)
		case err != nil && noSuch(err):
			r.bad("%s: %v", r.showVal(v), err)
		case refErr != nil && noSuch(refErr) && len(want) == 0:
			r.bad("accepted, but there is no such comparison: %v", refErr)
		case v.vague:
			if err != nil && !strings.HasPrefix(class(err), "22") {
				r.bad("%s: %v", r.showVal(v), err)
			}
		case err != nil:
			if len(want) > 0 && !v.mayFail {
				r.bad("%s: %v; want the rows %s", r.showVal(v), err, want[0])
			}
			r.outs["refused"] = true
		case len(want) > 0:
			got := r.gotKeys(q)
			ok := false
			for _, x := range want {
				ok = ok || x == got
			}
			if !ok {
				r.bad("%s selects the rows %s, want %s", r.showVal(v), got, want[0])
			}
			r.outs[got] = true
			if r.res.Sample == "" {
				r.res.Sample = r.showVal(v) + " selects " + got
			}
		default:
			r.outs["no reference"] = true
		}
	}
}

func pattern(op string) bool {
	return strings.Contains(op, "~") || strings.Contains(op, "LIKE") || strings.Contains(op, "SIMILAR")
}

func hasBig(v reflect.Value) bool {
	for i := 0; i < v.Len(); i++ {
		if e := v.Index(i); e.CanUint() && e.Uint() > math.MaxInt64 {
			return true
		}
	}
	return false
}

func hasNilElem(v reflect.Value) bool {
	for i := 0; i < v.Len(); i++ {
		if v.Index(i).IsNil() {
			return true
		}
	}
	return false
}

func (r *mrun) keys(s string) (string, error) {
	rows, err := r.w.db.Query(s)
	if err != nil {
		return "", err
	}
	defer rows.Close()
	var out []string
	for rows.Next() {
		var k string
		if err := rows.Scan(&k); err != nil {
			return "", err
		}
		out = append(out, k)
	}
	return strings.Join(out, ","), rows.Err()
}

func (r *mrun) gotKeys(q any) string {
	v := field(q, "Rel")
	var out []int
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		for e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		out = append(out, int(e.FieldByName("K").Int()))
	}
	sortInts(out)
	var s []string
	for _, k := range out {
		s = append(s, fmt.Sprint(k))
	}
	return strings.Join(s, ",")
}

func sortInts(x []int) {
	for i := range x {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
