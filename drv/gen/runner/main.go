// Runner of generated methods: reads jobs from stdin (JSON), executes every combination of their
// parameters against its databases and reports the differences from the reference on stdout (JSON).
package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/lib/pq"

	"vfx/vfrt"
)

// Val is one value of a parameter: its JSON form for the Go field, and the text for the reference.
type Val struct {
	Go   json.RawMessage              `json:"go,omitempty"`
	Recs []map[string]json.RawMessage `json:"recs"`
	SQL  string                       `json:"sql"`
	Subs []map[string]string          `json:"subs,omitempty"`
	Zero bool                         `json:"zero,omitempty"`
}

type Param struct {
	Path string `json:"path"`
	Vals []Val  `json:"vals"`
}

type Leaf struct {
	Path string `json:"path"`
	Kind string `json:"kind"`
}

type Job struct {
	Name       string      `json:"name"`
	Mode       string      `json:"mode"` // select, scalar, write, exec, fault
	Params     []Param     `json:"params"`
	Out        string      `json:"out"` // path of the result, or "@sink"
	Leaves     []Leaf      `json:"leaves"`
	Cmp        string      `json:"cmp"`  // exact, multiset, member
	Ref        []string    `json:"ref"`  // reference statements, ~i~ stands for parameter i
	Each       int         `json:"each"` // the reference is repeated per record of this parameter (-1: not)
	Tables     []string    `json:"tables"`
	Count      string      `json:"count"` // path of the rows affected field
	Keep       []string    `json:"keep"`  // paths that must be left as they were
	NoErr      bool        `json:"noerr"`
	IntoInput  bool        `json:"into_input"`
	After      string      `json:"after"` // path of the counter of after-scan hooks
	Stateful   string      `json:"stateful"`
	MaxRuns    int         `json:"max_runs"`
	Repeat     int         `json:"repeat"`
	KeepLeaves []Leaf      `json:"keep_leaves"`
	KeepOut    string      `json:"keep_out"`
	Fault      *FaultSpec  `json:"fault,omitempty"`
	Matrix     *MatrixSpec `json:"matrix,omitempty"`
	Filter     *FilterSpec `json:"filter,omitempty"`
	Live       *LiveSpec   `json:"live,omitempty"`
}

type Result struct {
	Name     string   `json:"name"`
	Runs     int      `json:"runs"`
	Total    int      `json:"total"`
	Bad      []string `json:"bad"`
	NBad     int      `json:"nbad"`
	Outcomes []string `json:"outcomes"`
	Sample   string   `json:"sample"`
	Scen     int      `json:"scen"`
}

func main() {
	var in struct {
		DSNs     []string `json:"dsns"`
		Jobs     []Job    `json:"jobs"`
		Deadline float64  `json:"deadline"`
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	deadline := time.Now().Add(time.Duration(in.Deadline * float64(time.Second)))
	results := make([]*Result, len(in.Jobs))
	ch := make(chan int)
	var wg sync.WaitGroup
	for _, dsn := range in.DSNs {
		w, err := newWorker(dsn)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				results[i] = w.run(&in.Jobs[i], deadline)
			}
		}()
	}
	for i := range in.Jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	json.NewEncoder(os.Stdout).Encode(results)
}

type worker struct {
	dsn  string
	db   *sql.DB
	env  *vfrt.Env
	refs map[string]refOut // reference results of selects (the tables never change)
	scen int

	liveDB *sql.DB
}

type refOut struct {
	rows []string
	err  string
}

func open(dsn string) (*sql.DB, error) {
	db, err := sql.Open("postgres", dsn)
	if err != nil {
		return nil, err
	}
	db.SetMaxOpenConns(3)
	db.SetMaxIdleConns(3)
	return db, db.Ping()
}

func newWorker(dsn string) (*worker, error) {
	db, err := open(dsn)
	if err != nil {
		return nil, err
	}
	return &worker{dsn: dsn, db: db, refs: map[string]refOut{}, env: &vfrt.Env{Ctx: context.Background(), DB: db}}, nil
}

func (w *worker) run(j *Job, deadline time.Time) *Result {
	if j.Mode == "filter" {
		return w.filt(j)
	}
	if j.Mode == "live" {
		return w.live(j)
	}
	if j.Mode == "livefilter" {
		return w.liveFilter(j)
	}
	if j.Mode == "matrix" {
		return w.matrix(j)
	}
	res := &Result{Name: j.Name}
	outs := map[string]bool{}
	res.Total = 1
	for _, p := range j.Params {
		res.Total *= len(p.Vals)
	}
	idx := make([]int, len(j.Params))
	for n := 0; n < res.Total; n++ {
		if time.Now().After(deadline) || j.MaxRuns > 0 && res.Runs >= j.MaxRuns {
			break
		}
		k := n
		for i := len(idx) - 1; i >= 0; i-- {
			idx[i] = k % len(j.Params[i].Vals)
			k /= len(j.Params[i].Vals)
		}
		w.scen = 0
		bad, out := w.one(j, idx)
		res.Scen += w.scen
		res.Runs++
		outs[out] = true
		if bad != "" {
			res.NBad++
			if len(res.Bad) < 3 {
				res.Bad = append(res.Bad, describe(j, idx)+": "+bad)
			}
			if res.NBad >= 40 {
				break // enough
			}
		} else if res.Sample == "" && n == res.Total/2 {
			res.Sample = describe(j, idx) + " => " + out
		}
	}
	for o := range outs {
		res.Outcomes = append(res.Outcomes, o)
	}
	sort.Strings(res.Outcomes)
	if len(res.Outcomes) > 2000 {
		res.Outcomes = res.Outcomes[:2000]
	}
	return res
}

func describe(j *Job, idx []int) string {
	var b []string
	for i, p := range j.Params {
		v := p.Vals[idx[i]]
		s := string(v.Go)
		if v.Recs != nil {
			d, _ := json.Marshal(v.Recs)
			s = string(d)
		} else if v.Go == nil {
			s = v.SQL
		}
		b = append(b, p.Path+"="+s)
	}
	return "with " + strings.Join(b, ", ")
}

// at returns the addressable value at path, allocating pointers on the way if alloc is set.
func at(v reflect.Value, path string, alloc bool) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			if !alloc {
				return v, false
			}
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	if path == "" {
		return v, true
	}
	for _, name := range strings.Split(path, ".") {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				if !alloc {
					return v, false
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		if name == "[0]" {
			v = v.Index(0)
			continue
		}
		f := v.FieldByName(name)
		if !f.IsValid() {
			panic(fmt.Sprintf("no field %s in %s (%s)", name, v.Type(), path))
		}
		if !f.CanSet() {
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		}
		v = f
	}
	return v, true
}

func setJSON(v reflect.Value, raw json.RawMessage) {
	if b, ok := v.Interface().([]byte); ok && b == nil && len(raw) > 0 && raw[0] == '"' {
		var s string
		json.Unmarshal(raw, &s)
		v.SetBytes([]byte(s))
		return
	}
	p := reflect.New(v.Type())
	if err := json.Unmarshal(raw, p.Interface()); err != nil {
		panic(fmt.Sprintf("set %s to %s: %v", v.Type(), raw, err))
	}
	v.Set(p.Elem())
}

// setRecs sets the relation field to the given records.
func setRecs(v reflect.Value, recs []map[string]json.RawMessage) {
	fill := func(e reflect.Value, rec map[string]json.RawMessage) {
		keys := make([]string, 0, len(rec))
		for k := range rec {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if f, ok := at(e, k, true); ok {
				setJSON(f, rec[k])
			}
		}
	}
	if v.Kind() == reflect.Slice {
		s := reflect.MakeSlice(v.Type(), len(recs), len(recs))
		for i, r := range recs {
			e := s.Index(i)
			if e.Kind() == reflect.Ptr {
				e.Set(reflect.New(e.Type().Elem()))
			}
			fill(e, r)
		}
		v.Set(s)
		return
	}
	if v.Kind() == reflect.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
	}
	fill(v, recs[0])
}

func text(v reflect.Value, kind string) string {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "<NULL>"
		}
		v = v.Elem()
	}
	switch kind {
	case "json":
		d, err := json.Marshal(v.Interface())
		if err != nil {
			return "<" + err.Error() + ">"
		}
		return string(d)
	case "bytes":
		return string(v.Bytes())
	}
	switch x := v.Interface().(type) {
	case time.Time:
		if x.IsZero() {
			return "<ZEROTIME>"
		}
		if kind == "date" {
			return x.Format("2006-01-02")
		}
		return x.UTC().Format("2006-01-02T15:04:05.000000")
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.String:
		return v.String()
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return string(v.Bytes())
		}
	}
	d, _ := json.Marshal(v.Interface())
	return string(d)
}

func row(v reflect.Value, leaves []Leaf) string {
	var b []string
	for _, l := range leaves {
		f, ok := at(v, l.Path, false)
		if !ok {
			b = append(b, "<NULL>")
			continue
		}
		b = append(b, text(f, l.Kind))
	}
	return strings.Join(b, "|")
}

func subst(ref string, j *Job, idx []int) string {
	if !strings.Contains(ref, "§") {
		return ref
	}
	var b strings.Builder
	parts := strings.Split(ref, "§")
	for i, p := range parts {
		if i%2 == 0 {
			b.WriteString(p)
			continue
		}
		n, err := strconv.Atoi(p)
		if err != nil {
			panic("bad reference " + ref)
		}
		b.WriteString(j.Params[n].Vals[idx[n]].SQL)
	}
	return b.String()
}

type queryer interface {
	Query(string, ...any) (*sql.Rows, error)
}

func refRows(q queryer, stmt string) (rows []string, err error) {
	rs, err := q.Query(stmt)
	if err != nil {
		return nil, err
	}
	defer rs.Close()
	cols, err := rs.Columns()
	if err != nil {
		return nil, err
	}
	for rs.Next() {
		vals := make([]sql.NullString, len(cols))
		ptrs := make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rs.Scan(ptrs...); err != nil {
			return nil, err
		}
		var b []string
		for _, v := range vals {
			if v.Valid {
				b = append(b, v.String)
			} else {
				b = append(b, "<NULL>")
			}
		}
		rows = append(rows, strings.Join(b, "|"))
	}
	return rows, rs.Err()
}

func errClass(err error) string {
	if err == nil {
		return ""
	}
	var pe *pq.Error
	if errors.As(err, &pe) {
		return "pq:" + string(pe.Code)
	}
	if errors.Is(err, sql.ErrNoRows) {
		return "norows"
	}
	return "other:" + err.Error()
}

// setup makes the query value for one combination.
func (w *worker) setup(j *Job, idx []int) (q any, rv reflect.Value, e vfrt.Entry, s *vfrt.Sink) {
	e, ok := vfrt.Registry[j.Name]
	if !ok {
		panic("not registered: " + j.Name)
	}
	s = new(vfrt.Sink)
	q = e.New(s)
	rv = reflect.ValueOf(q).Elem()
	for i, p := range j.Params {
		v := p.Vals[idx[i]]
		switch {
		case p.Path == "@pre":
		case p.Path == "@filter":
			var f struct {
				SQL  string `json:"sql"`
				Args []any  `json:"args"`
			}
			if err := json.Unmarshal(v.Go, &f); err != nil {
				panic(err)
			}
			s.FilterSQL, s.FilterArgs = f.SQL, f.Args
			for i, a := range s.FilterArgs {
				if x, ok := a.(float64); ok {
					s.FilterArgs[i] = int64(x)
				}
			}
		case v.Zero:
		case v.Recs != nil:
			f, _ := at(rv, p.Path, true)
			setRecs(f, v.Recs)
		default:
			f, _ := at(rv, p.Path, true)
			setJSON(f, v.Go)
		}
	}
	return q, rv, e, s
}

func call(e vfrt.Entry, q any, env *vfrt.Env) (err error, panicked string) {
	defer func() {
		if x := recover(); x != nil {
			panicked = fmt.Sprintf("panic: %v at %s", x, where(debug.Stack()))
		}
	}()
	return e.Exec(q, env), ""
}

func where(stack []byte) string {
	for _, l := range strings.Split(string(stack), "\n") {
		if i := strings.Index(l, "_gosql.go:"); i >= 0 {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

// collect returns the rows the method delivered.
func collect(j *Job, rv reflect.Value, s *vfrt.Sink) (rows []string, after string) {
	add := func(v reflect.Value) {
		rows = append(rows, row(v, j.Leaves))
		if j.After != "" {
			if f, ok := at(v, j.After, false); !ok || f.Int() != 1 {
				after = "the after-scan hook did not run exactly once on a row"
			}
		}
	}
	if j.Out == "@sink" {
		for _, r := range s.Rows {
			v := reflect.New(reflect.TypeOf(r)).Elem()
			v.Set(reflect.ValueOf(r))
			add(v)
		}
		return
	}
	v, _ := at(rv, j.Out, false)
	if v.Kind() == reflect.Slice {
		for i := 0; i < v.Len(); i++ {
			add(v.Index(i))
		}
		return
	}
	if len(j.Leaves) == 0 {
		return []string{text(v, "")}, ""
	}
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return
	}
	add(v)
	return
}

func (w *worker) one(j *Job, idx []int) (bad, outcome string) {
	defer func() {
		if x := recover(); x != nil {
			bad = fmt.Sprintf("runner: %v\n%s", x, debug.Stack())
		}
	}()
	switch j.Mode {
	case "select":
		return w.sel(j, idx)
	case "write":
		return w.write(j, idx)
	case "exec":
		return w.exec(j, idx)
	case "fault":
		return w.fault(j, idx)
	}
	panic("mode " + j.Mode)
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func (w *worker) sel(j *Job, idx []int) (bad, outcome string) {
	q, rv, e, s := w.setup(j, idx)
	env := *w.env
	env.Conn = w.db
	err, pan := call(e, q, &env)
	if n := w.db.Stats().InUse; n > 0 {
		go w.db.Close()
		if w.db, err = open(w.dsn); err != nil {
			panic(err)
		}
		if pan == "" {
			return fmt.Sprintf("%d connections stay occupied", n), "leak"
		}
	}
	if pan != "" {
		return pan, "panic"
	}
	stmt := subst(j.Ref[0], j, idx)
	ref, ok := w.refs[stmt]
	if !ok {
		rows, rerr := refRows(w.db, stmt)
		ref = refOut{rows: rows, err: errClass(rerr)}
		if strings.HasPrefix(ref.err, "pq:42") {
			return "runner: the reference fails: " + rerr.Error() + ": " + stmt, "reference"
		}
		w.refs[stmt] = ref
	}
	want := ref.rows
	if ref.err != "" {
		// an error that depends on the data, e.g. an invalid regular expression
		if errClass(err) != ref.err {
			return fmt.Sprintf("error %v, but %s gives %s", err, stmt, ref.err), "err"
		}
		return "", ref.err
	}
	if j.Cmp == "single" || j.Cmp == "single-member" {
		if len(want) == 0 {
			if !errors.Is(err, sql.ErrNoRows) {
				return fmt.Sprintf("error %v, want sql.ErrNoRows as nothing matches: %s", err, stmt), "err"
			}
			return "", "norows"
		}
	}
	if err != nil {
		return fmt.Sprintf("error %v, want the rows of %s", err, stmt), "err"
	}
	got, after := collect(j, rv, s)
	if after != "" {
		return after, "after"
	}
	outcome = strings.Join(got, "\n")
	switch j.Cmp {
	case "exact":
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Sprintf("rows %q, want %q of %s", clip(fmt.Sprint(got)), clip(fmt.Sprint(want)), stmt), outcome
		}
	case "multiset":
		g, x := append([]string(nil), got...), append([]string(nil), want...)
		sort.Strings(g)
		sort.Strings(x)
		if strings.Join(g, "\n") != strings.Join(x, "\n") {
			return fmt.Sprintf("rows %q, want %q of %s", clip(fmt.Sprint(g)), clip(fmt.Sprint(x)), stmt), outcome
		}
	case "single":
		if len(got) != 1 || got[0] != want[0] {
			return fmt.Sprintf("row %q, want %q of %s", got, want[0], stmt), outcome
		}
	case "single-member":
		if len(got) != 1 || !contains(want, got[0]) {
			return fmt.Sprintf("row %q, want one of %q of %s", got, clip(fmt.Sprint(want)), stmt), outcome
		}
	default:
		// "member:N": N rows (or all, if fewer) out of the reference's
		var limit, offset int
		fmt.Sscanf(subst(j.Cmp, j, idx), "member:%d:%d", &limit, &offset)
		n := len(want) - offset
		if n < 0 {
			n = 0
		}
		if limit >= 0 && limit < n {
			n = limit
		}
		if len(got) != n {
			return fmt.Sprintf("%d rows, want %d of %s", len(got), n, stmt), outcome
		}
		pool := map[string]int{}
		for _, r := range want {
			pool[r]++
		}
		for _, r := range got {
			if pool[r]--; pool[r] < 0 {
				return fmt.Sprintf("row %q is not (so often) among those of %s", r, stmt), outcome
			}
		}
	}
	return "", outcome
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (w *worker) exec(j *Job, idx []int) (bad, outcome string) {
	q, _, e, _ := w.setup(j, idx)
	tx, err := w.db.Begin()
	if err != nil {
		panic(err)
	}
	defer tx.Rollback()
	env := *w.env
	env.Conn, env.Tx = tx, tx
	err, pan := call(e, q, &env)
	if pan != "" {
		return pan, "panic"
	}
	cl := errClass(err)
	if strings.HasPrefix(cl, "pq:42") || strings.HasPrefix(cl, "pq:08") || strings.HasPrefix(cl, "pq:0A") {
		return "the database rejects the statement: " + err.Error(), cl
	}
	if strings.HasPrefix(cl, "other:") {
		return "the statement fails: " + err.Error(), cl
	}
	return "", cl
}

// dump returns the contents of the tables.
func dump(tx *sql.Tx, tables []string) ([]string, error) {
	var out []string
	for _, t := range tables {
		rows, err := refRows(tx, "SELECT x::text FROM "+t+" x ORDER BY x::text")
		if err != nil {
			return nil, err
		}
		out = append(out, t+": "+strings.Join(rows, " "))
	}
	return out, nil
}

// keepRows renders the fields that must stay as they are.
func keepRows(j *Job, rv reflect.Value) (out []string) {
	if j.KeepOut == "" {
		return nil
	}
	v, ok := at(rv, j.KeepOut, false)
	if !ok {
		return nil
	}
	if v.Kind() == reflect.Slice {
		for i := 0; i < v.Len(); i++ {
			out = append(out, row(v.Index(i), j.KeepLeaves))
		}
		return
	}
	return []string{row(v, j.KeepLeaves)}
}

func (w *worker) write(j *Job, idx []int) (bad, outcome string) {
	reset := func(tx *sql.Tx) {
		stmts := []string{j.Stateful}
		for i, p := range j.Params {
			if p.Path == "@pre" {
				stmts = append(stmts, p.Vals[idx[i]].SQL)
			}
		}
		for _, s := range stmts {
			if s == "" {
				continue
			}
			if _, err := tx.Exec(s); err != nil {
				panic(err)
			}
		}
	}
	times := j.Repeat
	if times == 0 {
		times = 1
	}
	// the reference
	tx, err := w.db.Begin()
	if err != nil {
		panic(err)
	}
	reset(tx)
	var want []string
	var wantBy [][]string
	var wantN int64
	var wantErr error
	run := func(stmt string) {
		if wantErr != nil || stmt == "" {
			return
		}
		if len(j.Leaves) > 0 {
			var rows []string
			rows, wantErr = refRows(tx, stmt)
			want = append(want, rows...)
			wantBy = append(wantBy, rows)
		} else {
			var r sql.Result
			if r, wantErr = tx.Exec(stmt); wantErr == nil {
				n, _ := r.RowsAffected()
				wantN += n
			}
		}
	}
	for n := 0; n < times; n++ {
		want, wantBy, wantN = nil, nil, 0
		for _, ref := range j.Ref {
			if j.Each >= 0 {
				for _, sub := range j.Params[j.Each].Vals[idx[j.Each]].Subs {
					stmt := ref
					for k, v := range sub {
						stmt = strings.ReplaceAll(stmt, "{"+k+"}", v)
					}
					run(subst(stmt, j, idx))
				}
			} else {
				run(subst(ref, j, idx))
			}
		}
	}
	if c := errClass(wantErr); strings.HasPrefix(c, "pq:42") && c != "pq:428C9" {
		tx.Rollback()
		return "runner: the reference fails: " + wantErr.Error() + fmt.Sprint(j.Ref), "reference"
	}
	var wantDump []string
	if wantErr == nil {
		if wantDump, err = dump(tx, j.Tables); err != nil {
			panic(err)
		}
	}
	tx.Rollback()

	// the method
	q, rv, e, s := w.setup(j, idx)
	if tx, err = w.db.Begin(); err != nil {
		panic(err)
	}
	defer tx.Rollback()
	reset(tx)
	keep := keepRows(j, rv)
	var before []string
	if j.Cmp == "by-key" {
		before, _ = collect(j, rv, s)
	}
	env := *w.env
	env.Conn, env.Tx = tx, tx
	var gotErr error
	for n := 0; n < times && gotErr == nil; n++ {
		var pan string
		if gotErr, pan = call(e, q, &env); pan != "" {
			return pan, "panic"
		}
	}
	if strings.HasPrefix(j.Cmp, "single") && wantErr == nil && len(want) == 0 {
		if !errors.Is(gotErr, sql.ErrNoRows) {
			return fmt.Sprintf("error %v, want sql.ErrNoRows", gotErr), "err"
		}
		gotErr = nil
		outcome = "norows "
	} else {
		if errClass(gotErr) != errClass(wantErr) {
			return fmt.Sprintf("error %v, the reference's is %v", gotErr, wantErr), "err"
		}
		if gotErr != nil {
			return "", errClass(gotErr)
		}
	}
	got, err := dump(tx, j.Tables)
	if err != nil {
		return fmt.Sprintf("the connection is not usable after the call: %v", err), "conn"
	}
	for i := range got {
		if got[i] != wantDump[i] {
			return fmt.Sprintf("the table is %s\n    want %s", clip(got[i]), clip(wantDump[i])), "dump"
		}
	}
	if k := keepRows(j, rv); fmt.Sprint(k) != fmt.Sprint(keep) {
		return fmt.Sprintf("the method changed the fields %v of %s from %q to %q", j.KeepLeaves, j.KeepOut, keep, k), "keep"
	}
	norows := outcome != ""
	outcome += strings.Join(got, "\n")
	if len(j.Leaves) > 0 && !norows {
		rows, after := collect(j, rv, s)
		if j.Cmp == "by-key" {
			for i, r := range rows {
				x := before[i]
				if len(wantBy[i]) > 0 {
					x = wantBy[i][0]
				}
				if r != x {
					return fmt.Sprintf("record %d is %q after the call, want %q", i, r, x), "rows"
				}
			}
			return "", outcome + fmt.Sprint(rows)
		}
		if after != "" && len(want) > 0 {
			return after, "after"
		}
		if j.Cmp == "single-member" {
			if len(rows) != 1 || !contains(want, rows[0]) {
				return fmt.Sprintf("returned row %q, want one of %q", rows, clip(fmt.Sprint(want))), "rows"
			}
			return "", outcome + rows[0]
		}
		g := strings.Join(rows, "\n")
		if j.Cmp == "multiset" {
			sort.Strings(rows)
			sort.Strings(want)
			g = strings.Join(rows, "\n")
		}
		if g != strings.Join(want, "\n") {
			return fmt.Sprintf("returned rows %q, want %q", clip(fmt.Sprint(rows)), clip(fmt.Sprint(want))), "rows"
		}
		outcome += g
	}
	if j.Count != "" {
		f, _ := at(rv, j.Count, false)
		if text(f, "") != strconv.FormatInt(wantN, 10) {
			return fmt.Sprintf("%s rows affected, want %d", text(f, ""), wantN), "count"
		}
	}
	return "", outcome
}
