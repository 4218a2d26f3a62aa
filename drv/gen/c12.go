package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/vfdrv/vf"
)

// wf is a field of a record that is written.
type wf struct {
	path string
	col  string
	zero string // SQL literal of the Go zero value; "" for pointers
	null bool   // the zero value is written as NULL, and NULL is read as zero
	ins  bool
	upd  bool
	read bool
	def  bool // DEFAULT is written
	pk   bool
	un   bool // never set by the input
	kind string
	conv func(v any) any // JSON form for the field
}

// wrec is a record type for writes.
type wrec struct {
	record
	table  string
	fields []wf
}

// fld makes a field: opts are -i -u -r (not inserted, updated, read), def, pk, z (not nullable, with
// zero value), n (nullable, with zero value), p (pointer).
func fld(path, col, zero, opts string) wf {
	f := wf{path: path, col: col, zero: zero, ins: true, upd: true, read: true}
	for _, o := range strings.Fields(opts) {
		switch o {
		case "-i":
			f.ins = false
		case "-u":
			f.upd = false
		case "-r":
			f.read = false
		case "ro":
			f.ins, f.upd = false, false
		case "un":
			f.ins, f.upd, f.un = false, false, true
		case "def":
			f.def = true
		case "pk":
			f.pk = true
		case "null":
			f.null = true
		case "json":
			f.kind = "json"
		default:
			panic(o)
		}
	}
	return f
}

// readExpr is the reference's rendering of the field read from the relation.
func (f *wf) readExpr(q string) string {
	x := q + "." + f.col
	switch {
	case f.col == "seen":
		x = `to_char(` + x + ` AT TIME ZONE 'UTC','YYYY-MM-DD"T"HH24:MI:SS.US')`
	case f.kind == "json" && f.col == "fruit":
		return `format('{"String":%s,"Valid":%s}', to_json(coalesce(` + x + `, '')), (` + x + ` is not null)::text)`
	case f.kind == "json":
		return `format('{"Int64":%s,"Valid":%s}', coalesce(` + x + `, 0), (` + x + ` is not null)::text)`
	}
	if f.null {
		return "coalesce(" + x + ", " + f.zero + ")::text"
	}
	return x + "::text"
}

// prow is a row of a pool: the value of every column.
type prow map[string]any

func (f *wf) goVal(v any) json.RawMessage {
	if v == nil {
		return nil
	}
	if f.conv != nil {
		v = f.conv(v)
	}
	return raw(v)
}

// sql is the literal that is written for the value.
func (f *wf) sql(v any) string {
	s := lit(v)
	if v == nil && f.zero != "" {
		s = f.zero
	}
	if f.null && s == f.zero {
		s = "NULL"
	}
	if f.col == "seen" {
		s += "::timestamptz"
	}
	return s
}

var wrecs = []*wrec{
	{record: record{name: "Item", src: `struct {
	ID    int     ~sql:"id,ro"~
	Key   int     ~sql:"key"~
	Name  string  ~sql:"name"~
	Fruit *string ~sql:"fruit"~
	Value *int    ~sql:"value"~
	Ver   int     ~sql:"ver"~
}`}, table: "items", fields: []wf{fld("ID", "id", "0", "ro pk"), fld("Key", "key", "0", ""), fld("Name", "name", "''", ""), fld("Fruit", "fruit", "", ""), fld("Value", "value", "", ""), fld("Ver", "ver", "0", "")}},
	{record: record{name: "ItemZ", src: `struct {
	Tag   string  ~sql:"tag"~
	ID    int     ~sql:"id,ro"~
	Key   int     ~sql:"key"~
	Name  string  ~sql:"name"~
	Fruit string  ~sql:"fruit"~
	Value int     ~sql:"value"~
	Done  bool    ~sql:"done"~
}`}, table: "items", fields: []wf{fld("Tag", "tag", "''", "null"), fld("ID", "id", "0", "ro pk"), fld("Key", "key", "0", ""), fld("Name", "name", "''", ""), fld("Fruit", "fruit", "''", "null"), fld("Value", "value", "0", "null"), fld("Done", "done", "false", "")}},
	{record: record{name: "ItemMode", src: `struct {
	ID    int      ~sql:"id,-i,-u"~
	Key   int      ~sql:"key,-u"~
	Name  string   ~sql:"name"~
	Fruit *string  ~sql:"fruit,-i"~
	Value *int     ~sql:"value,-w"~
	Ver   int      ~sql:"ver,-r"~
	Tag   *string  ~sql:"-"~
	Ratio *float64 ~sql:"ratio,-w,+u"~
	Done  bool
}`}, table: "items", fields: []wf{fld("ID", "id", "0", "ro pk"), fld("Key", "key", "0", "-u"), fld("Name", "name", "''", ""), fld("Fruit", "fruit", "", "-i"), fld("Value", "value", "", "ro"), fld("Ver", "ver", "0", "-r"), fld("Ratio", "ratio", "", "-i")}},
	{record: record{name: "ItemDef", src: `struct {
	ID    int     ~sql:"id,ro"~
	Key   int     ~sql:"key"~
	Fruit *string ~sql:"fruit,default"~
	Name  string  ~sql:"name"~
	Ver   int     ~sql:"ver,default"~
	Done  bool    ~sql:"done"~
}`}, table: "items", fields: []wf{fld("ID", "id", "0", "ro pk"), fld("Key", "key", "0", ""), fld("Fruit", "fruit", "", "def"), fld("Name", "name", "''", ""), fld("Ver", "ver", "0", "def"), fld("Done", "done", "false", "")}},
	{record: record{name: "ItemNest", src: `struct {
	ID int          ~sql:"id,ro"~
	In ItemNestIn   ~sql:">"~
	Pt *ItemNestPtr ~sql:">"~
	Pf ItemNestPfx  ~sql:">t"~
}
type ItemNestIn struct {
	Key  int    ~sql:"key"~
	Name string ~sql:"name"~
}
type ItemNestPtr struct {
	Value *int        ~sql:"value"~
	Dp    *ItemNestDp ~sql:">"~
}
type ItemNestDp struct {
	Ver int ~sql:"ver"~
}
type ItemNestPfx struct {
	Ag *string ~sql:"ag"~
}`}, table: "items", fields: []wf{fld("ID", "id", "0", "ro pk"), fld("In.Key", "key", "0", ""), fld("In.Name", "name", "''", ""), fld("Pt.Value", "value", "", ""), fld("Pt.Dp.Ver", "ver", "0", ""), fld("Pf.Ag", "tag", "", "")}},
	{record: record{name: "ItemVal", src: `struct {
	ID    int32           ~sql:"id,ro"~
	Key   int64           ~sql:"key"~
	Name  ext.Str         ~sql:"name"~
	Fruit sql.NullString  ~sql:"fruit"~
	Value sql.NullInt64   ~sql:"value"~
	Seen  time.Time       ~sql:"seen"~
	Ratio *float32        ~sql:"ratio"~
}`}, table: "items", fields: []wf{fld("ID", "id", "0", "ro pk"), fld("Key", "key", "0", ""), fld("Name", "name", "''", ""),
		func() wf {
			f := fld("Fruit", "fruit", "", "json")
			f.conv = func(v any) any { return map[string]any{"String": v, "Valid": true} }
			return f
		}(),
		func() wf {
			f := fld("Value", "value", "", "json")
			f.conv = func(v any) any { return map[string]any{"Int64": v, "Valid": true} }
			return f
		}(), fld("Seen", "seen", "'0001-01-01 00:00:00Z'", ""), fld("Ratio", "ratio", "", "")}},
	{record: record{name: "ItemFull", src: `struct {
	ID   int    ~sql:"id"~
	Key  int    ~sql:"key"~
	Name string ~sql:"name"~
	Tag  *string ~sql:"tag"~
}`}, table: "items", fields: []wf{fld("ID", "id", "0", "pk"), fld("Key", "key", "0", ""), fld("Name", "name", "''", ""), fld("Tag", "tag", "", "")}},
	{record: record{name: "ItemHook", src: `struct {
	ID    int     ~sql:"id,ro"~
	Key   int     ~sql:"key"~
	Name  string  ~sql:"name"~
	Value *int    ~sql:"value"~
	N     int
}

func (r *ItemHook) AfterScan() { r.N++ }
`, after: "N"}, table: "items", fields: []wf{fld("ID", "id", "0", "ro pk"), fld("Key", "key", "0", ""), fld("Name", "name", "''", ""), fld("Value", "value", "", "")}},
	{record: record{name: "ItemOne", src: `struct {
	ID    int     ~sql:"id,ro"~
	Value *int    ~sql:"value"~
}`}, table: "items", fields: []wf{fld("ID", "id", "0", "ro pk"), fld("Value", "value", "", "")}},
	{record: record{name: "Pair", src: `struct {
	B    int     ~sql:"b,-u"~
	Val  int     ~sql:"val"~
	A    int     ~sql:"a,-u"~
	Note *string ~sql:"note"~
}`}, table: "pairs", fields: []wf{fld("B", "b", "0", "-u pk"), fld("Val", "val", "0", ""), fld("A", "a", "0", "-u pk"), fld("Note", "note", "", "")}},
	{record: record{name: "PairZ", src: `struct {
	A    int    ~sql:"a"~
	B    int    ~sql:"b"~
	Note string ~sql:"note"~
	Val  int    ~sql:"val"~
}`}, table: "pairs", fields: []wf{fld("A", "a", "0", "pk"), fld("B", "b", "0", "pk"), fld("Note", "note", "''", "null"), fld("Val", "val", "0", "")}},
	// a partitioned table
	{record: record{name: "PartZ", src: `struct {
	A    int    ~sql:"a"~
	B    int    ~sql:"b"~
	Note string ~sql:"note"~
	Val  int    ~sql:"val"~
}`}, table: "parts", fields: []wf{fld("A", "a", "0", "pk"), fld("B", "b", "0", "pk"), fld("Note", "note", "''", "null"), fld("Val", "val", "0", "")}},
	// one column of the key is written, the other is not
	{record: record{name: "PairHalf", src: `struct {
	A    int ~sql:"a"~
	B    int ~sql:"b,ro"~
	Val  int ~sql:"val"~
}`}, table: "pairs", fields: []wf{fld("A", "a", "0", "pk"), fld("B", "b", "0", "ro pk"), fld("Val", "val", "0", "")}},
	{record: record{name: "PairOther", src: `struct {
	Val  int ~sql:"val"~
	B    int ~sql:"b"~
	A    int ~sql:"a,ro"~
}`}, table: "pairs", fields: []wf{fld("Val", "val", "0", ""), fld("B", "b", "0", "pk"), fld("A", "a", "0", "ro pk")}},
	{record: record{name: "ItemNestKey", src: `struct {
	Name string      ~sql:"name"~
	K    ItemKeyIn   ~sql:">"~
	B    *ItemKeyRest ~sql:">"~
}
type ItemKeyIn struct {
	Deep ItemKeyDeep ~sql:">"~
	Key  int         ~sql:"key"~
}
type ItemKeyDeep struct {
	ID int ~sql:"id,ro"~
}
type ItemKeyRest struct {
	Value *int ~sql:"value"~
	Ver   int  ~sql:"ver"~
}`}, table: "items", fields: []wf{fld("Name", "name", "''", ""), fld("K.Deep.ID", "id", "0", "ro pk"), fld("K.Key", "key", "0", ""), fld("B.Value", "value", "", ""), fld("B.Ver", "ver", "0", "")}},
	{record: record{name: "ItemDeep", src: `struct {
	L1 *ItemDeep1 ~sql:">"~
	ID int        ~sql:"id,ro"~
}
type ItemDeep1 struct {
	L2  ItemDeep2 ~sql:">"~
	Key int       ~sql:"key"~
}
type ItemDeep2 struct {
	L3   *ItemDeep3 ~sql:">"~
	Name string     ~sql:"name"~
}
type ItemDeep3 struct {
	P ItemDeepP  ~sql:">"~
	Q *ItemDeepQ ~sql:">"~
	R ItemDeepR  ~sql:">"~
}
type ItemDeepP struct {
	X *ItemDeepX ~sql:">"~
	Y ItemDeepY  ~sql:">"~
}
type ItemDeepQ struct {
	Fruit *string ~sql:"fruit"~
}
type ItemDeepR struct {
	Value *int ~sql:"value"~
}
type ItemDeepX struct {
	Ver int ~sql:"ver"~
}
type ItemDeepY struct {
	Tag *string ~sql:"tag"~
}`}, table: "items", fields: []wf{fld("L1.L2.L3.P.X.Ver", "ver", "0", ""), fld("L1.L2.L3.P.Y.Tag", "tag", "", ""), fld("L1.L2.L3.Q.Fruit", "fruit", "", ""), fld("L1.L2.L3.R.Value", "value", "", ""), fld("L1.L2.Name", "name", "''", ""), fld("L1.Key", "key", "0", ""), fld("ID", "id", "0", "ro pk")}},
	{record: record{name: "ItemNil", src: `struct {
	Pt   *ItemNilIn ~sql:">"~
	ID   int        ~sql:"id,ro"~
	Key  int        ~sql:"key"~
	Name string     ~sql:"name"~
	Vl   ItemNilVal ~sql:">"~
}
type ItemNilIn struct {
	Value *int       ~sql:"value,ro"~
	Dp    *ItemNilDp ~sql:">"~
}
type ItemNilDp struct {
	Ver int     ~sql:"ver,ro"~
	Tag *string ~sql:"tag,ro"~
}
type ItemNilVal struct {
	Done bool        ~sql:"done,ro"~
	Fr   *ItemNilFr  ~sql:">"~
}
type ItemNilFr struct {
	Fruit *string ~sql:"fruit,ro"~
}`}, table: "items", fields: []wf{fld("Pt.Value", "value", "", "un"), fld("Pt.Dp.Ver", "ver", "0", "un"), fld("Pt.Dp.Tag", "tag", "", "un"), fld("ID", "id", "0", "ro pk"), fld("Key", "key", "0", ""), fld("Name", "name", "''", ""), fld("Vl.Done", "done", "false", "un"), fld("Vl.Fr.Fruit", "fruit", "", "un")}},
	{record: record{name: "PairEmb", src: `struct {
	Val int ~sql:"val"~
	PairEmbKey ~sql:">"~
	R PairEmbRest ~sql:">"~
}
type PairEmbKey struct {
	A int ~sql:"a"~
}
type PairEmbRest struct {
	Note *string ~sql:"note"~
	B    int     ~sql:"b"~
}`}, table: "pairs", fields: []wf{fld("Val", "val", "0", ""), fld("PairEmbKey.A", "a", "0", "pk"), fld("R.Note", "note", "", ""), fld("R.B", "b", "0", "pk")}},
	{record: record{name: "Ident", src: `struct {
	ID   int    ~sql:"id"~
	Alt  int    ~sql:"alt"~
	Name string ~sql:"name"~
}`}, table: "idents", fields: []wf{fld("ID", "id", "0", "pk"), fld("Alt", "alt", "0", ""), fld("Name", "name", "''", "")}},
	{record: record{name: "IdentRO", src: `struct {
	ID   int    ~sql:"id,ro"~
	Alt  int    ~sql:"alt,ro"~
	Name string ~sql:"name"~
}`}, table: "idents", fields: []wf{fld("ID", "id", "0", "ro pk"), fld("Alt", "alt", "0", "ro"), fld("Name", "name", "''", "")}},
	{record: record{name: "IdentAlt", src: `struct {
	Alt  int    ~sql:"alt"~
	Name string ~sql:"name"~
}`}, table: "idents", fields: []wf{fld("Alt", "alt", "0", ""), fld("Name", "name", "''", "")}},
}

func init() {
	for _, w := range wrecs {
		for _, f := range w.fields {
			if f.read {
				w.leaves = append(w.leaves, leaf{f.path, f.kind, ""})
			}
		}
		w.record.writeOnly = true
		records = append(records, &w.record)
	}
}

func wr(name string) *wrec {
	for _, w := range wrecs {
		if w.name == name {
			return w
		}
	}
	panic("no record " + name)
}

// pools are the rows the records are filled with.
var pools = map[string][]prow{
	"items": {
		{"id": 1, "key": 50, "name": "n1", "fruit": "kiwi", "value": 3, "ver": 5, "tag": "x1", "ratio": 1.25, "done": true, "seen": "2022-03-04T05:06:07.5Z"},
		{"id": 2, "key": 51, "name": "n2", "fruit": nil, "value": nil, "ver": 1, "tag": nil, "ratio": nil, "done": false, "seen": "2000-01-01T00:00:00Z"},
		{"id": 3, "key": 52, "name": "", "fruit": "", "value": 0, "ver": 0, "tag": "", "ratio": 0, "done": false, "seen": "1999-12-31T23:59:59.999999Z"},
		{"id": 99, "key": 53, "name": "it's", "fruit": "a\\b", "value": -7, "ver": 9, "tag": "t1", "ratio": -2.5, "done": true, "seen": "2021-02-03T04:05:06Z"},
		{"id": 4, "key": 10, "name": "a", "fruit": "apple", "value": 8, "ver": 2, "tag": "t1", "ratio": 4, "done": true, "seen": "2023-01-01T00:00:00Z"},
	},
	"pairs": {
		{"a": 1, "b": 1, "val": 100, "note": "p"},
		{"a": 2, "b": 1, "val": 0, "note": nil},
		{"a": 1, "b": 2, "val": -5, "note": ""},
		{"a": 3, "b": 3, "val": 7, "note": "q"},
		{"a": 7, "b": 1, "val": 8, "note": "r"},
	},
	"idents": {
		{"id": 10, "alt": 20, "name": "n1"},
		{"id": 11, "alt": 21, "name": ""},
		{"id": 12, "alt": 22, "name": "n3"},
		{"id": 1, "alt": 5, "name": "n4"},
		{"id": 13, "alt": 1, "name": "n5"},
	},
}

func init() { pools["parts"] = pools["pairs"] }

// sets of rows a slice is filled with (indexes of the pool).
var sliceSets = [][]int{{0}, {0, 1}, {2, 0, 1}, {3}, {1, 3, 0}, {4}}
var singleSets = [][]int{{0}, {1}, {2}, {3}, {4}}

// wcase describes a write declaration.
type wcase struct {
	key    string
	kind   string // Insert, Update, Delete
	w      *wrec
	shape  string // ptr, val, slice, slicev, dir
	before []string
	fields []string
	out    string // none, return, list:a,b, result:<shape>, rows:<type>
	res    *wrec  // type of the result
	force  string
	deflt  string
	over   string // OVERRIDING clause of the reference
	confl  string // ON CONFLICT clause of the reference; {ALL} stands for the written columns
	from   string // FROM or USING of the reference
	where  string
	params []Param
	sets   [][]int
	init   string
	alias  string
	pre    []string // states the method starts from
	repeat int
	cmp    string
	want   string
	group  string
	noAl   bool
	filter bool
}

func inList(list, col string) bool {
	if list == "*" {
		return true
	}
	for _, c := range strings.Split(list, ",") {
		c = strings.TrimSpace(c)
		if i := strings.LastIndex(c, "."); i >= 0 {
			c = c[i+1:]
		}
		if c == col {
			return true
		}
	}
	return false
}

// written are the fields that are set.
func (c *wcase) written() (out []wf) {
	for _, f := range c.w.fields {
		if (c.kind == "Insert" && f.ins) || (c.kind == "Update" && f.upd) || (c.force != "" && inList(c.force, f.col)) {
			out = append(out, f)
		}
	}
	return
}

func (c *wcase) value(f wf, row prow) string {
	if f.def || (c.deflt != "" && inList(c.deflt, f.col)) {
		return "DEFAULT"
	}
	return f.sql(row[f.col])
}

func (c *wcase) toCase() *Case {
	w := c.w
	al := c.alias
	if al == "" {
		al = w.table[:1]
	}
	rel := w.table + ":" + al
	if c.noAl {
		al = w.table
		rel = w.table
	}
	j := &Job{Mode: "write", Each: -1, Tables: []string{"items", "pairs", "parts", "idents"}, Stateful: seqReset, Repeat: c.repeat}
	t := w.name
	field := map[string]string{"ptr": "Rel *" + t, "val": "Rel " + t, "slice": "Rel []*" + t, "slicev": "Rel []" + t, "dir": "_ gosql.Relation"}[c.shape]
	init := ""
	isSlice := strings.HasPrefix(c.shape, "slice")

	// the records
	if c.kind != "Delete" {
		sets := c.sets
		if sets == nil {
			sets = singleSets
			if isSlice {
				sets = sliceSets
			}
		}
		p := Param{Path: "Rel"}
		for _, s := range sets {
			v := Val{Recs: []map[string]json.RawMessage{}}
			var tuples []string
			for _, n := range s {
				row := pools[w.table][n]
				rec := map[string]json.RawMessage{}
				var vals []string
				sub := map[string]string{}
				for _, f := range w.fields {
					if f.un {
						continue // its parents stay nil
					}
					if g := f.goVal(row[f.col]); g != nil {
						rec[f.path] = g
					} else if strings.Contains(f.path, ".") {
						rec[f.path] = raw(nil) // allocates what is above
						if f.zero != "" {
							delete(rec, f.path)
						}
					}
					sub[f.col] = f.sql(row[f.col])
				}
				for _, f := range c.written() {
					vals = append(vals, c.value(f, row))
				}
				set := make([]string, len(vals))
				for i, f := range c.written() {
					set[i] = f.col + " = " + vals[i]
				}
				sub["SET"] = strings.Join(set, ", ")
				v.Recs = append(v.Recs, rec)
				v.Subs = append(v.Subs, sub)
				tuples = append(tuples, "("+strings.Join(vals, ", ")+")")
				sub["TUPLE"] = tuples[len(tuples)-1]
			}
			if c.kind == "Insert" {
				v.SQL = strings.Join(tuples, ", ")
			} else if len(v.Subs) > 0 {
				v.SQL = v.Subs[0]["SET"]
			}
			p.Vals = append(p.Vals, v)
		}
		j.Params = append(j.Params, p)
	}
	j.Params = append(j.Params, c.params...)

	// the output
	returning := ""
	outShape := c.shape
	leaves := func(x *wrec, cols string) {
		var b []string
		j.After = x.after
		for _, f := range x.fields {
			if (f.read || c.force != "" && inList(c.force, f.col)) && inList(cols, f.col) {
				j.Leaves = append(j.Leaves, Leaf{f.path, f.kind})
				b = append(b, f.readExpr(al))
			} else if x == w {
				j.KeepLeaves = append(j.KeepLeaves, Leaf{f.path, f.kind})
			}
		}
		// in the order of the list
		if cols != "*" {
			j.Leaves, b = nil, nil
			for _, n := range strings.Split(cols, ",") {
				for _, f := range x.fields {
					if inList(n, f.col) {
						j.Leaves = append(j.Leaves, Leaf{f.path, f.kind})
						b = append(b, f.readExpr(al))
					}
				}
			}
		}
		returning = " RETURNING " + strings.Join(b, ", ")
	}
	keepAll := func() {
		for _, f := range w.fields {
			j.KeepLeaves = append(j.KeepLeaves, Leaf{f.path, f.kind})
		}
	}
	var fields []string
	switch {
	case c.out == "none":
		keepAll()
	case c.out == "return":
		fields = append(fields, "_ gosql.Return `sql:\"*\"`")
		leaves(w, "*")
		j.Out = "Rel"
	case strings.HasPrefix(c.out, "list:"):
		cols := c.out[5:]
		fields = append(fields, "_ gosql.Return `sql:\""+cols+"\"`")
		leaves(w, cols)
		j.Out = "Rel"
	case strings.HasPrefix(c.out, "result:"):
		x := c.res
		if x == nil {
			x = w
		}
		keepAll()
		outShape = c.out[7:]
		s := &sel{rec: x.name, shape: outShape}
		f, i, o := s.relField()
		fields = append(fields, strings.Replace(f, "Rel ", "Result ", 1))
		init += strings.Replace(i, "q.Rel ", "q.Result ", 1)
		j.Out = strings.Replace(o, "Rel", "Result", 1)
		k := j.KeepLeaves
		leaves(x, "*")
		j.KeepLeaves = k
	case strings.HasPrefix(c.out, "rows:"):
		keepAll()
		fields = append(fields, "RowsAffected "+c.out[5:])
		j.Count = "RowsAffected"
	default:
		panic("out " + c.out)
	}
	if c.kind != "Delete" {
		j.KeepOut = "Rel"
	} else {
		j.KeepLeaves = nil
	}
	if c.init != "" {
		if init != "" {
			init += "; "
		}
		init += c.init
	}
	if c.force != "" {
		fields = append(fields, "_ gosql.Force `sql:\""+c.force+"\"`")
	}
	if c.deflt != "" {
		fields = append(fields, "_ gosql.Default `sql:\""+c.deflt+"\"`")
	}
	single := outShape == "ptr" || outShape == "val"
	// the reference
	switch c.kind {
	case "Insert":
		var cols []string
		for _, f := range c.written() {
			cols = append(cols, f.col)
		}
		confl := c.confl
		if strings.Contains(confl, "{ALL}") {
			var b []string
			for _, n := range cols {
				b = append(b, n+" = EXCLUDED."+n)
			}
			confl = strings.ReplaceAll(confl, "{ALL}", strings.Join(b, ", "))
		}
		j.Ref = []string{"INSERT INTO " + w.table + " AS " + al + " (" + strings.Join(cols, ", ") + ")" + c.over + " VALUES §0§ " + confl + returning}
		if c.cmp == "nothing" {
			j.Ref, c.cmp = []string{""}, ""
		}
		if c.cmp == "by-key" {
			j.Each = 0
			j.Ref[0] = strings.Replace(j.Ref[0], "§0§", "{TUPLE}", 1)
		}
		j.Cmp = "exact"
	case "Update":
		if c.where == "" && !c.filter {
			var b []string
			for _, f := range w.fields {
				if f.pk {
					b = append(b, al+"."+f.col+" = {"+f.col+"}")
				}
			}
			j.Each = 0
			j.Ref = []string{"UPDATE " + w.table + " AS " + al + " SET {SET} WHERE " + strings.Join(b, " AND ") + returning}
			j.Cmp = "exact"
		} else {
			wh := c.where
			if wh != "" {
				wh = " WHERE " + wh
			}
			j.Ref = []string{"UPDATE " + w.table + " AS " + al + " SET §0§" + c.from + wh + returning}
			j.Cmp = "multiset"
		}
	case "Delete":
		wh := c.where
		if wh != "" {
			wh = " WHERE " + wh
		}
		j.Ref = []string{"DELETE FROM " + w.table + " AS " + al + c.from + wh + returning}
		j.Cmp = "multiset"
	}
	if single && len(j.Leaves) > 0 {
		if j.Cmp == "multiset" {
			j.Cmp = "single-member"
		} else {
			j.Cmp = "single"
		}
	}
	if c.cmp != "" {
		j.Cmp = c.cmp
	}
	if c.pre != nil {
		p := Param{Path: "@pre"}
		for _, s := range c.pre {
			p.Vals = append(p.Vals, Val{SQL: s})
		}
		j.Params = append(j.Params, p)
	}
	want := c.want
	if want == "" {
		want = "accept"
	}
	body := append(append([]string{}, c.before...), field+" `rel:\""+rel+"\"`")
	body = append(append(body, c.fields...), fields...)
	return &Case{Key: c.key, Kind: c.kind, Body: strings.Join(body, "\n"), Init: init, Job: j, Want: want, Group: c.group}
}

// withWhere adds a where struct.
func (c *wcase) withWhere(its []item) *wcase {
	var ps []Param
	body, ref := whereOf(its, "Where", &ps)
	if c.kind != "Delete" { // the records come first
		for i := len(ps) - 1; i >= 0; i-- {
			ref = strings.ReplaceAll(ref, fmt.Sprintf("§%d§", i), fmt.Sprintf("§%d§", i+1))
		}
	}
	c.fields = append(c.fields, "Where struct {\n"+body+"\n}")
	if c.where != "" {
		c.where = "(" + c.where + ") AND " + ref
	} else {
		c.where = ref
	}
	c.params = append(c.params, ps...)
	return c
}

var resultShapes = []string{"ptr", "val", "slice", "slicev", "func", "funcv", "iter", "inline"}

func itemPreds() []item {
	mk := func(key, field, ref string, ps ...wparam) item {
		return item{key: key, field: field, ref: ref, params: ps}
	}
	return []item{
		mk("key", "NAME int `sql:\"i.key =\"BOOL`", "i.key = {0}", wparam{"", vals("int", 10, 30, 77)}),
		mk("names", "NAME []string `sql:\"i.name isin\"BOOL`", "i.name = ANY({0})", wparam{"", lists("text", []any{"a"}, []any{"b", "d", "x"})}),
		mk("ver", "NAME struct {\nLo int `sql:\"x\"`\nHi int `sql:\"y\"`\n} `sql:\"i.ver isbetween\"BOOL`", "(i.ver BETWEEN {0} AND {1})", wparam{"Lo", vals("int", 1, 2)}, wparam{"Hi", vals("int", 2, 3)}),
		dirItem("isnull", "i.value isnull", "i.value IS NULL"),
		mk("like", "NAME string `sql:\"i.fruit islike\"BOOL`", "i.fruit LIKE {0}", wparam{"", vals("text", "%ap%", "pe%")}),
		dirItem("done", "i.done istrue", "i.done IS TRUE"),
		mk("any", "NAME []int `sql:\"i.ver = any\"BOOL`", "i.ver = ANY({0})", wparam{"", lists("int", []any{1, 4}, nil)}),
	}
}

func c12Cases(r *vf.Run) (out []*Case) {
	add := func(c *wcase) { out = append(out, c.toCase()) }
	itemTypes := []string{"Item", "ItemZ", "ItemMode", "ItemDef", "ItemNest", "ItemVal", "ItemFull", "ItemHook"}
	states := []string{"", "DELETE FROM items", "UPDATE items SET key = key + 40 WHERE key < 25"}

	// INSERT: record types, shapes and outputs
	types := append(append([]string{}, itemTypes...), "ItemNestKey", "ItemDeep", "ItemNil", "Pair", "PairZ", "PartZ", "PairHalf", "PairOther", "PairEmb", "IdentRO", "IdentAlt")
	for _, tn := range types {
		w := wr(tn)
		for _, sh := range []string{"ptr", "val", "slice", "slicev"} {
			var outs []string
			outs = append(outs, "none", "return", "rows:int")
			for _, rs := range resultShapes {
				if strings.HasPrefix(sh, "slice") && (rs == "ptr" || rs == "val") {
					continue
				}
				outs = append(outs, "result:"+rs)
			}
			for _, o := range outs {
				c := &wcase{key: "insert/" + tn + "/" + sh + "/" + o, kind: "Insert", w: w, shape: sh, out: o}
				if w.table == "items" {
					c.pre = states
				}
				add(c)
			}
		}
	}
	// RETURNING lists
	for _, l := range []string{"id", "i.id", "ver,id", "name,key,value", "id,ver,fruit"} {
		for _, sh := range []string{"ptr", "slice", "slicev"} {
			add(&wcase{key: "insert-list/" + l + "/" + sh, kind: "Insert", w: wr("Item"), shape: sh, out: "list:" + l})
		}
	}
	// row counts of every integer type
	for _, it := range []string{"int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"} {
		add(&wcase{key: "insert-rows/" + it, kind: "Insert", w: wr("Item"), shape: "slice", out: "rows:" + it})
	}
	// results of another type
	for _, x := range []string{"ItemZ", "ItemFull", "ItemOne", "ItemHook"} {
		for _, sh := range []string{"ptr", "slice"} {
			add(&wcase{key: "insert-result/" + x + "/" + sh, kind: "Insert", w: wr("Item"), res: wr(x), shape: sh, out: "result:slice"})
			add(&wcase{key: "insert-result-iter/" + x + "/" + sh, kind: "Insert", w: wr("Item"), res: wr(x), shape: sh, out: "result:iter"})
		}
	}
	// conflicts
	type target struct{ key, field, sql string }
	targets := []target{
		{"none", "", ""},
		{"column", "_ gosql.Column `sql:\"key\"`", "(key)"},
		{"column-alias", "_ gosql.Column `sql:\"i.key\"`", "(key)"},
		{"columns", "_ gosql.Column `sql:\"name,tag\"`", "(name, tag)"},
		{"columns-swapped", "_ gosql.Column `sql:\"tag,name\"`", "(name, tag)"},
		{"pkey", "_ gosql.Column `sql:\"id\"`", "(id)"},
		{"index", "_ gosql.Index `sql:\"items_name_tag\"`", "(name, tag)"},
		{"index-key", "_ gosql.Index `sql:\"items_key\"`", "(key)"},
		{"index-expr", "_ gosql.Index `sql:\"items_lower_tag\"`", "(lower(tag)) WHERE value > 100"},
		{"constraint", "_ gosql.Constraint `sql:\"items_key\"`", "ON CONSTRAINT items_key"},
		{"constraint-pkey", "_ gosql.Constraint `sql:\"items_pkey\"`", "ON CONSTRAINT items_pkey"},
	}
	type action struct{ key, field, sql string }
	actions := []action{
		{"ignore", "_ gosql.Ignore", "DO NOTHING"},
		{"update", "_ gosql.Update `sql:\"value\"`", "DO UPDATE SET value = EXCLUDED.value"},
		{"update2", "_ gosql.Update `sql:\"fruit,ver\"`", "DO UPDATE SET fruit = EXCLUDED.fruit, ver = EXCLUDED.ver"},
		{"update-alias", "_ gosql.Update `sql:\"i.name,i.value\"`", "DO UPDATE SET name = EXCLUDED.name, value = EXCLUDED.value"},
		{"update-all", "_ gosql.Update `sql:\"*\"`", "DO UPDATE SET {ALL}"},
	}
	csets := [][]int{{4}, {0}, {0, 4}, {4, 1}, {4, 2, 3}}
	for _, t := range targets {
		for _, a := range actions {
			if t.key == "none" && a.key != "ignore" {
				continue
			}
			for _, tn := range []string{"Item", "ItemZ", "ItemFull", "ItemMode"} {
				if tn != "Item" && t.key != "column" && t.key != "columns" && t.key != "constraint-pkey" && !r.Thorough() {
					continue
				}
				for _, sh := range []string{"ptr", "slice"} {
					for _, o := range []string{"none", "return", "rows:int", "result:slice"} {
						if a.key == "ignore" && sh == "slice" && o == "return" {
							continue // its own case below
						}
						c := &wcase{key: fmt.Sprintf("conflict/%s/%s/%s/%s/%s", t.key, a.key, tn, sh, o), kind: "Insert", w: wr(tn), shape: sh, out: o,
							confl: "ON CONFLICT " + t.sql + " " + a.sql, sets: csets, pre: []string{"", "UPDATE items SET tag = 'T1', value = 200 WHERE id = 1", "DELETE FROM items WHERE id < 3"}}
						if sh == "ptr" {
							c.sets = singleSets
						}
						c.fields = []string{"OnConflict struct {\n" + t.field + "\n" + a.field + "\n}"}
						if t.key == "column" && tn == "Item" {
							c.fields = []string{"OnConflict struct {\n" + a.field + "\n" + t.field + "\n}"}
						}
						add(c)
					}
				}
			}
		}
	}
	// Force, Default, Override
	for _, f := range []string{"id", "i.id", "*", "id,value", "value", "fruit", "ratio"} {
		for _, tn := range []string{"Item", "ItemMode", "ItemZ"} {
			if strings.Contains(f, "ratio") && tn != "ItemMode" || tn == "ItemZ" && f == "fruit" {
				continue
			}
			for _, sh := range []string{"ptr", "slice"} {
				for _, o := range []string{"none", "return", "result:slice"} {
					add(&wcase{key: "force/" + f + "/" + tn + "/" + sh + "/" + o, kind: "Insert", w: wr(tn), shape: sh, out: o, force: f})
				}
			}
		}
	}
	for _, d := range []string{"ver", "i.ver", "fruit", "fruit,ver", "*"} {
		for _, tn := range []string{"Item", "ItemMode", "ItemNest", "ItemDef"} {
			for _, sh := range []string{"ptr", "slice"} {
				for _, o := range []string{"none", "return", "rows:int"} {
					if d == "*" && sh == "slice" && tn != "Item" {
						continue
					}
					add(&wcase{key: "default/" + d + "/" + tn + "/" + sh + "/" + o, kind: "Insert", w: wr(tn), shape: sh, out: o, deflt: d})
				}
			}
		}
	}
	for _, ov := range []struct{ tag, sql string }{{"", ""}, {"system", " OVERRIDING SYSTEM VALUE"}, {"user", " OVERRIDING USER VALUE"}} {
		for _, tn := range []string{"Ident", "IdentRO", "IdentAlt"} {
			for _, sh := range []string{"ptr", "slice"} {
				for _, o := range []string{"none", "return", "result:slice"} {
					c := &wcase{key: "override/" + ov.tag + "/" + tn + "/" + sh + "/" + o, kind: "Insert", w: wr(tn), shape: sh, out: o, over: ov.sql}
					if ov.tag != "" {
						c.fields = []string{"_ gosql.Override `sql:\"" + ov.tag + "\"`"}
					}
					add(c)
					if tn == "Ident" && ov.tag != "" && sh == "ptr" {
						c2 := *c
						c2.key += "/default-id"
						c2.deflt = "id"
						add(&c2)
					}
				}
			}
		}
	}
	// without an alias; twice
	for _, sh := range []string{"ptr", "slice"} {
		for _, o := range []string{"none", "return", "rows:int"} {
			add(&wcase{key: "insert-noalias/" + sh + "/" + o, kind: "Insert", w: wr("Item"), shape: sh, out: o, noAl: true})
			add(&wcase{key: "insert-twice/" + sh + "/" + o, kind: "Insert", w: wr("Item"), shape: sh, out: o, repeat: 2})
		}
		add(&wcase{key: "insert-twice-conflict/" + sh, kind: "Insert", w: wr("Item"), shape: sh, out: "rows:int", repeat: 2, confl: "ON CONFLICT (key) DO UPDATE SET ver = EXCLUDED.ver",
			fields: []string{"OnConflict struct {\n_ gosql.Column `sql:\"key\"`\n_ gosql.Update `sql:\"ver\"`\n}"}})
	}
	// dedicated shapes with known defects
	add(&wcase{key: "insert-empty-slice", kind: "Insert", w: wr("Item"), shape: "slice", out: "none", sets: [][]int{{}}, cmp: "nothing"})
	add(&wcase{key: "insert-ignore-slice-return", kind: "Insert", w: wr("Item"), shape: "slice", out: "return", sets: [][]int{{4, 0}}, confl: "ON CONFLICT (key) DO NOTHING", cmp: "by-key",
		fields: []string{"OnConflict struct {\n_ gosql.Column `sql:\"key\"`\n_ gosql.Ignore\n}"}})

	out = append(out, c12Updates(r)...)
	out = append(out, c12Deletes(r)...)
	sort.SliceStable(out, func(i, j int) bool { return false })
	return
}

func c12Updates(r *vf.Run) (out []*Case) {
	add := func(c *wcase) { out = append(out, c.toCase()) }
	usets := [][]int{{0}, {0, 1}, {2, 0, 1}, {3}, {1, 3, 0}}
	states := []string{"", "DELETE FROM items WHERE id < 3", "UPDATE items SET value = 77, ver = 0"}
	types := []string{"Item", "ItemZ", "ItemMode", "ItemNest", "ItemVal", "ItemFull", "ItemHook", "ItemOne", "ItemNestKey", "ItemDeep", "ItemNil", "Pair", "PairZ", "PartZ", "PairHalf", "PairOther", "PairEmb", "ItemDef"}
	for _, tn := range types {
		w := wr(tn)
		for _, sh := range []string{"ptr", "val", "slice", "slicev"} {
			isSlice := strings.HasPrefix(sh, "slice")
			if isSlice && tn == "ItemDef" {
				continue // its own case
			}
			outs := []string{"none", "rows:int"}
			if !isSlice {
				outs = append(outs, "return")
				for _, rs := range resultShapes {
					outs = append(outs, "result:"+rs)
				}
			}
			for _, o := range outs {
				c := &wcase{key: "update/" + tn + "/" + sh + "/" + o, kind: "Update", w: w, shape: sh, out: o}
				if isSlice {
					c.sets = usets
				}
				if w.table == "items" {
					c.pre = states
				}
				add(c)
			}
		}
	}
	// slices with results
	for _, tn := range []string{"Item", "Pair", "ItemMode", "ItemNestKey", "ItemDeep"} {
		for _, sh := range []string{"slice", "slicev"} {
			for _, o := range []string{"return", "result:slice", "result:slicev", "result:iter", "result:func"} {
				c := &wcase{key: "update-slice-" + strings.Split(o, ":")[0] + "/" + tn + "/" + sh + "/" + o, kind: "Update", w: wr(tn), shape: sh, out: o, sets: usets, cmp: "multiset"}
				if o == "return" {
					c.cmp = "by-key"
					c.sets = [][]int{{0}, {0, 1}, {2, 0, 1}}
				}
				add(c)
			}
		}
	}
	add(&wcase{key: "update-missing-slice-return", kind: "Update", w: wr("Item"), shape: "slice", out: "return", sets: [][]int{{3, 1}}, cmp: "by-key"})
	for _, l := range []string{"id", "ver,id", "i.name"} {
		add(&wcase{key: "update-list/" + l, kind: "Update", w: wr("Item"), shape: "ptr", out: "list:" + l})
	}
	for _, f := range []string{"id", "*", "value", "key,fruit"} {
		for _, sh := range []string{"ptr", "slice"} {
			for _, o := range []string{"none", "return"} {
				if sh == "slice" && o == "return" {
					continue
				}
				add(&wcase{key: "update-force/" + f + "/" + sh + "/" + o, kind: "Update", w: wr("ItemMode"), shape: sh, out: o, force: f, sets: map[bool][][]int{true: usets}[sh == "slice"]})
			}
		}
	}
	for _, d := range []string{"ver", "fruit,ver", "i.fruit"} {
		for _, o := range []string{"none", "return", "rows:int"} {
			add(&wcase{key: "update-default/" + d + "/" + o, kind: "Update", w: wr("Item"), shape: "ptr", out: o, deflt: d})
			add((&wcase{key: "update-default-where/" + d + "/" + o, kind: "Update", w: wr("ItemMode"), shape: "ptr", out: o, deflt: d}).withWhere(itemPreds()[:1]))
		}
	}
	add(&wcase{key: "update-default-slice", kind: "Update", w: wr("Item"), shape: "slice", out: "none", deflt: "ver", sets: usets})
	add(&wcase{key: "update-default-slice-tag", kind: "Update", w: wr("ItemDef"), shape: "slice", out: "none", sets: usets})
	add(&wcase{key: "update-empty-slice", kind: "Update", w: wr("Item"), shape: "slice", out: "none", sets: [][]int{{}}, cmp: "nothing"})
	add(&wcase{key: "update-twice/ptr", kind: "Update", w: wr("Item"), shape: "ptr", out: "rows:int", repeat: 2})
	add(&wcase{key: "update-twice/slice", kind: "Update", w: wr("Item"), shape: "slice", out: "rows:int", repeat: 2, sets: usets})
	add(&wcase{key: "update-noalias/ptr", kind: "Update", w: wr("Item"), shape: "ptr", out: "return", noAl: true})
	add(&wcase{key: "update-noalias/slice", kind: "Update", w: wr("Item"), shape: "slice", out: "none", noAl: true, sets: usets})
	add(&wcase{key: "update-alias-x/ptr", kind: "Update", w: wr("Item"), shape: "ptr", out: "return", alias: "x"})
	add(&wcase{key: "update-alias-x/slice", kind: "Update", w: wr("Item"), shape: "slice", out: "none", alias: "x", sets: usets})

	// where structs, All and filters.  Their records set no unique columns.
	preds := itemPreds()
	one := [][]int{{0}, {1}, {2}}
	outs := []string{"none", "return", "rows:int", "result:slice", "result:iter", "result:slicev", "result:func", "result:ptr"}
	for i, p := range preds {
		for _, o := range outs {
			add((&wcase{key: "update-where/" + p.key + "/" + o, kind: "Update", w: wr("ItemOne"), shape: "ptr", out: o, sets: one}).withWhere([]item{p}))
		}
		for k, q := range preds {
			for _, o := range []string{"and", "or"} {
				q := q
				q.bool_ = o
				if (i+k)%2 == 1 && !r.Thorough() {
					continue
				}
				add((&wcase{key: "update-where2/" + p.key + "/" + o + "/" + q.key, kind: "Update", w: wr("ItemOne"), shape: "val", out: "rows:int", sets: one}).withWhere([]item{p, q}))
			}
		}
	}
	for _, sh := range []string{"ptr", "val"} {
		for _, o := range outs {
			add(&wcase{key: "update-all/" + sh + "/" + o, kind: "Update", w: wr("ItemOne"), shape: sh, out: o, sets: one, fields: []string{"_ gosql.All"}, where: "true"})
			c := &wcase{key: "update-filter/" + sh + "/" + o, kind: "Update", w: wr("ItemOne"), shape: sh, out: o, sets: one, fields: []string{"Filter gosql.Filter"}, init: "q.Filter = vfrt.Filt{S: s}", filter: true}
			c.params = []Param{{Path: "@filter", Vals: itemFilters}}
			c.from = "§1§"
			add(c)
		}
	}
	c := &wcase{key: "update-filter/ItemMode", kind: "Update", w: wr("ItemMode"), shape: "ptr", out: "return", sets: [][]int{{0}}, fields: []string{"Filter gosql.Filter"}, init: "q.Filter = vfrt.Filt{S: s}", filter: true}
	c.params = []Param{{Path: "@filter", Vals: []Val{filt(" WHERE i.id = ?", " WHERE i.id = 2", 2), filt(" WHERE i.id = ? AND i.name = ?", " WHERE i.id = 2 AND i.name = 'b'", 2, "b")}}}
	c.from = "§1§"
	add(c)
	// joins
	for _, fj := range fromJoins("From") {
		for _, o := range []string{"none", "return", "rows:int", "result:slice"} {
			c := &wcase{key: "update-from/" + fj.key + "/" + o, kind: "Update", w: wr("ItemOne"), shape: "ptr", out: o, sets: one, fields: []string{fj.field}, from: " FROM " + fj.sql}
			add(c.withWhere(fj.where))
		}
	}
	return
}

var itemFilters = []Val{
	filt(" WHERE i.key = ?", " WHERE i.key = 20", 20),
	filt(" WHERE i.key > ? OR i.name = ?", " WHERE i.key > 25 OR i.name = 'a'", 25, "a"),
	filt("", ""),
	filt(" WHERE i.value IS NULL", " WHERE i.value IS NULL"),
}

type fromJoin struct {
	key, field, sql string
	where           []item
}

func fromJoins(name string) (out []fromJoin) {
	base := "_ gosql.Relation `sql:\"owners:o\"`"
	link := dirItem("link", "i.key = o.item_key", "i.key = o.item_key")
	grade := item{key: "grade", field: "NAME int `sql:\"o.grade >\"BOOL`", ref: "o.grade > {0}", params: []wparam{{"", vals("int", 0, 1, 4)}}}
	out = append(out,
		fromJoin{"rel", name + " struct {\n" + base + "\n}", "owners o", []item{link}},
		fromJoin{"rel-where", name + " struct {\n" + base + "\n}", "owners o", []item{link, grade}},
	)
	for _, jk := range joinKinds {
		t, on := "badges:b,b.owner_id = o.oid_", " ON b.owner_id = o.oid_"
		if jk.dir == "CrossJoin" {
			t, on = "badges:b", ""
		}
		lab := item{key: "label", field: "NAME string `sql:\"b.label =\"BOOL`", ref: "b.label = {0}", params: []wparam{{"", vals("text", "p", "q")}}}
		null := dirItem("bnull", "b.bid isnull", "b.bid IS NULL")
		out = append(out,
			fromJoin{jk.dir, name + " struct {\n" + base + "\n_ gosql." + jk.dir + " " + tag(t) + "\n}", "owners o " + jk.sql + " badges b" + on, []item{link, lab}},
			fromJoin{jk.dir + "-null", name + " struct {\n" + base + "\n_ gosql." + jk.dir + " " + tag(t) + "\n}", "owners o " + jk.sql + " badges b" + on, []item{link, null}},
			fromJoin{jk.dir + "-or", name + " struct {\n" + base + "\n_ gosql." + jk.dir + " " + tag(t) + "\n}", "owners o " + jk.sql + " badges b" + on, []item{link, nest(grade, or(lab))}},
		)
		// the other way round: a join without a condition, a cross join with one
		t, jsql, on := "badges:b", jk.sql, " ON TRUE"
		if jk.dir == "CrossJoin" {
			t, jsql, on = "badges:b,b.owner_id = o.oid_", "INNER JOIN", " ON b.owner_id = o.oid_"
		}
		out = append(out, fromJoin{jk.dir + "-bare", name + " struct {\n" + base + "\n_ gosql." + jk.dir + " " + tag(t) + "\n}", "owners o " + jsql + " badges b" + on, []item{link, lab}})
	}
	return
}

func c12Deletes(r *vf.Run) (out []*Case) {
	add := func(c *wcase) { out = append(out, c.toCase()) }
	preds := itemPreds()
	type po struct{ shape, out string }
	var pos []po
	for _, o := range []string{"none", "rows:int", "rows:int64"} {
		pos = append(pos, po{"dir", o})
	}
	for _, rs := range resultShapes {
		pos = append(pos, po{"dir", "result:" + rs})
	}
	for _, sh := range []string{"ptr", "val", "slice", "slicev"} {
		pos = append(pos, po{sh, "return"}, po{sh, "none"}, po{sh, "list:id,value"})
	}
	for i, p := range preds {
		for _, x := range pos {
			c := &wcase{key: "delete-where/" + p.key + "/" + x.shape + "/" + x.out, kind: "Delete", w: wr("Item"), shape: x.shape, out: x.out, pre: []string{"", "UPDATE items SET value = NULL, ver = 2"}}
			add(c.withWhere([]item{p}))
		}
		for k, q := range preds {
			for _, o := range []string{"and", "or"} {
				q := q
				q.bool_ = o
				if (i+k)%2 == 1 && !r.Thorough() {
					continue
				}
				add((&wcase{key: "delete-where2/" + p.key + "/" + o + "/" + q.key, kind: "Delete", w: wr("Item"), shape: "dir", out: "rows:int"}).withWhere([]item{p, q}))
			}
		}
	}
	for _, tn := range []string{"Item", "ItemZ", "ItemHook", "ItemNest", "ItemVal"} {
		for _, x := range pos {
			add(&wcase{key: "delete-all/" + tn + "/" + x.shape + "/" + x.out, kind: "Delete", w: wr(tn), shape: x.shape, out: strings.Replace(x.out, "list:id,value", "list:id,key", 1), fields: []string{"_ gosql.All"}, pre: []string{"", "DELETE FROM items WHERE id > 1", "DELETE FROM items"}})
		}
	}
	for _, x := range pos {
		c := &wcase{key: "delete-filter/" + x.shape + "/" + x.out, kind: "Delete", w: wr("Item"), shape: x.shape, out: x.out, fields: []string{"Filter gosql.Filter"}, init: "q.Filter = vfrt.Filt{S: s}", filter: true}
		c.params = []Param{{Path: "@filter", Vals: itemFilters}}
		c.from = "§0§"
		add(c)
	}
	for _, fj := range fromJoins("Using") {
		for _, x := range []po{{"dir", "none"}, {"dir", "rows:int"}, {"slice", "return"}, {"dir", "result:slice"}, {"dir", "result:iter"}} {
			c := &wcase{key: "delete-using/" + fj.key + "/" + x.shape + "/" + x.out, kind: "Delete", w: wr("Item"), shape: x.shape, out: x.out, fields: []string{fj.field}, from: " USING " + fj.sql}
			add(c.withWhere(fj.where))
		}
	}
	add((&wcase{key: "delete-noalias", kind: "Delete", w: wr("Item"), shape: "slice", out: "return", noAl: true}).withWhere([]item{{key: "key", field: "NAME int `sql:\"key =\"BOOL`", ref: "items.key = {0}", params: []wparam{{"", vals("int", 10, 30, 77)}}}}))
	add((&wcase{key: "delete-twice", kind: "Delete", w: wr("Item"), shape: "dir", out: "rows:int", repeat: 2}).withWhere(preds[:1]))
	for _, tn := range []string{"Pair", "PartZ"} {
		for _, sh := range []string{"slice", "ptr"} {
			c := &wcase{key: "delete-pairs/" + tn + "/" + sh, kind: "Delete", w: wr(tn), shape: sh, out: "return"}
			add(c.withWhere([]item{{key: "a", field: "NAME int `sql:\"p.a =\"BOOL`", ref: "p.a = {0}", params: []wparam{{"", vals("int", 1, 2, 7)}}}}))
		}
	}
	return
}
