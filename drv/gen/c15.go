package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/frk/gosql/internal/vfdrv/vf"
)

// C15: an independent rule model decides, for every composition of declaration features up to a
// bound, whether the declaration is legal; the real analysis and type check have to agree.

// ingr is a feature of a declaration.  Two features of one group exclude each other.
type ingr struct {
	key   string
	body  string
	group string
	kinds string // query kinds it applies to: S(elect) C(ount) E(xists) N(ot exists) I U D
	bad   bool   // never legal
	// shape limits: "" none
	not string // shapes it does not go with (space separated)
	any string // query kinds or shapes where no verdict is claimed
}

type qshape struct {
	key, kind, rel string
	single         bool
	bad            bool
}

const selAll = "SCEN"

func c15Shapes() []qshape {
	item := func(t string) string { return "Rel " + t + " `rel:\"items:i\"`" }
	return []qshape{
		{key: "S.ptr", kind: "S", rel: item("*Item"), single: true},
		{key: "S.val", kind: "S", rel: item("Item")},
		{key: "S.slice", kind: "S", rel: item("[]*Item")},
		{key: "S.func", kind: "S", rel: item("func(*Item) error")},
		{key: "S.iter", kind: "S", rel: item("ItemIter")},
		{key: "C", kind: "C", rel: "Count int `rel:\"items:i\"`"},
		{key: "E", kind: "E", rel: "Exists bool `rel:\"items:i\"`"},
		{key: "N", kind: "N", rel: "NotExists bool `rel:\"items:i\"`"},
		{key: "I.ptr", kind: "I", rel: item("*Item"), single: true},
		{key: "I.slice", kind: "I", rel: item("[]Item")},
		{key: "I.func", kind: "I", rel: item("func(*Item) error"), bad: true},
		{key: "I.iter", kind: "I", rel: item("ItemIter"), bad: true},
		{key: "I.count", kind: "I", rel: "Count int `rel:\"items:i\"`", bad: true},
		{key: "I.exists", kind: "I", rel: "Exists bool `rel:\"items:i\"`", bad: true},
		{key: "I.rel", kind: "I", rel: "_ gosql.Relation `rel:\"items:i\"`", bad: true},
		{key: "U.ptr", kind: "U", rel: item("*Item"), single: true},
		{key: "U.nokey", kind: "U", rel: item("*ItemNoKey"), single: true},
		{key: "U.slice", kind: "U", rel: item("[]*Item")},
		{key: "U.func", kind: "U", rel: item("func(*Item) error"), bad: true},
		{key: "U.iter", kind: "U", rel: item("ItemIter"), bad: true},
		{key: "U.notexists", kind: "U", rel: "NotExists bool `rel:\"items:i\"`", bad: true},
		{key: "D.rel", kind: "D", rel: "_ gosql.Relation `rel:\"items:i\"`", single: true},
		{key: "D.slice", kind: "D", rel: item("[]*Item")},
		{key: "D.func", kind: "D", rel: item("func(*Item) error")},
		{key: "D.count", kind: "D", rel: "Count int `rel:\"items:i\"`", bad: true},
	}
}

func c15Ingrs() []ingr {
	return []ingr{
		{key: "where", body: "Where struct {\nX int `sql:\"i.id\"`\n}", group: "qual", kinds: selAll + "UD", not: "U.slice"},
		{key: "WHERE", body: "WHERE struct {\nX int `sql:\"i.key >\"`\nY string `sql:\"i.name\" bool:\"or\"`\n}", group: "qual", kinds: selAll + "UD", not: "U.slice"},
		{key: "filter", body: "F gosql.Filter", group: "qual", kinds: selAll + "UD", not: "U.slice"},
		{key: "filter2", body: "Filter gosql.Filter", group: "qual", kinds: selAll + "UD", not: "U.slice"},
		{key: "all", body: "_ gosql.All", group: "qual", kinds: "UD", not: "U.slice"},
		{key: "return", body: "_ gosql.Return `sql:\"*\"`", group: "target", kinds: "IUD", not: "D.rel"},
		{key: "return2", body: "_ gosql.Return `sql:\"i.id,i.key\"`", group: "target", kinds: "IUD", not: "D.rel U.nokey"},
		{key: "result", body: "Result []*Item", group: "target", kinds: "IUD"},
		{key: "RESULT", body: "RESULT *Item", group: "target", kinds: "IUD"},
		{key: "affected", body: "RowsAffected int", group: "target", kinds: "IUD"},
		{key: "affected2", body: "Rowsaffected int64", group: "target", kinds: "IUD"},
		{key: "limit", body: "Limit int", group: "limit", kinds: selAll},
		{key: "limit2", body: "_ gosql.Limit `sql:\"3\"`", group: "limit", kinds: selAll},
		{key: "offset", body: "Offset int `sql:\"2\"`", group: "offset", kinds: selAll},
		{key: "offset2", body: "_ gosql.Offset `sql:\"1\"`", group: "offset", kinds: selAll},
		{key: "order", body: "_ gosql.OrderBy `sql:\"i.name,-i.key\"`", group: "order", kinds: selAll},
		{key: "order2", body: "_ gosql.OrderBy `sql:\"-i.id\"`", group: "order", kinds: selAll},
		{key: "optional", body: "_ gosql.Optional `sql:\"i.value\"`", group: "optional", kinds: "S", any: "C E N"},
		{key: "optional2", body: "_ gosql.Optional `sql:\"*\"`", group: "optional", kinds: "S", any: "C E N"},
		{key: "default", body: "_ gosql.Default `sql:\"i.ver\"`", group: "default", kinds: "IU"},
		{key: "default2", body: "_ gosql.Default `sql:\"i.fruit\"`", group: "default", kinds: "IU"},
		{key: "force", body: "_ gosql.Force `sql:\"i.value\"`", group: "force", kinds: "IU"},
		{key: "force2", body: "_ gosql.Force `sql:\"i.name\"`", group: "force", kinds: "IU"},
		{key: "override", body: "_ gosql.Override `sql:\"system\"`", group: "override", kinds: "I"},
		{key: "override2", body: "_ gosql.Override `sql:\"user\"`", group: "override", kinds: "I"},
		{key: "conflict", body: "OnConflict struct {\n_ gosql.Column `sql:\"i.key\"`\n_ gosql.Ignore\n}", group: "conflict", kinds: "I"},
		{key: "conflict2", body: "Onconflict struct {\n_ gosql.Constraint `sql:\"items_key\"`\n_ gosql.Update `sql:\"i.value\"`\n}", group: "conflict", kinds: "I"},
		{key: "conflict3", body: "ONCONFLICT struct {\n_ gosql.Ignore\n}", group: "conflict", kinds: "I"},
		{key: "join", body: "Join struct {\n_ gosql.LeftJoin `sql:\"owners:o,o.item_key = i.key\"`\n}", group: "join", kinds: selAll},
		{key: "join2", body: "JOIN struct {\n_ gosql.InnerJoin `sql:\"badges:b,b.bid = i.key\"`\n}", group: "join", kinds: selAll},
		{key: "joinsame", body: "JOin struct {\n_ gosql.CrossJoin `sql:\"badges:i\"`\n}", group: "join", bad: true},
		{key: "joindup", body: "JoIn struct {\n_ gosql.CrossJoin `sql:\"badges:b\"`\n_ gosql.CrossJoin `sql:\"owners:b\"`\n}", group: "join", bad: true},
		{key: "joinrel", body: "JoiN struct {\n_ gosql.Relation `sql:\"badges:bb\"`\n}", group: "join", bad: true},
		{key: "from", body: "From struct {\n_ gosql.Relation `sql:\"owners:oo\"`\n}", group: "from", kinds: "U", any: "U.slice U.ptr"},
		{key: "from2", body: "FROM struct {\n_ gosql.Relation `sql:\"badges:bf\"`\n_ gosql.LeftJoin `sql:\"owners:of,of.oid_ = bf.owner_id\"`\n}", group: "from", kinds: "U", any: "U.slice U.ptr"},
		{key: "fromrels", body: "FRom struct {\n_ gosql.Relation `sql:\"badges:bg\"`\n_ gosql.Relation `sql:\"owners:og\"`\n}", group: "from", bad: true},
		{key: "fromsame", body: "FROm struct {\n_ gosql.Relation `sql:\"items:i\"`\n}", group: "from", bad: true},
		{key: "using", body: "Using struct {\n_ gosql.Relation `sql:\"owners:ou\"`\n}", group: "using", kinds: "D"},
		{key: "using2", body: "USING struct {\n_ gosql.Relation `sql:\"badges:bu\"`\n_ gosql.CrossJoin `sql:\"owners:ov\"`\n}", group: "using", kinds: "D"},
		{key: "usingdup", body: "USing struct {\n_ gosql.Relation `sql:\"badges:bv\"`\n_ gosql.CrossJoin `sql:\"owners:bv\"`\n}", group: "using", bad: true},
		{key: "handler", body: "EH EH", group: "handler", kinds: selAll + "IUD"},
		{key: "infohandler", body: "EIH *EIH", group: "handler", kinds: selAll + "IUD"},
		{key: "ctx", body: "Ctx context.Context", group: "ctx", kinds: selAll + "IUD"},
		{key: "ctx2", body: "Ctx2 context.Context", group: "ctx", kinds: selAll + "IUD"},
		{key: "plain", body: "Other string `sql:\"id\"`", kinds: selAll + "IUD"},
		{key: "rel2", body: "Rel2 *Item `rel:\"items:j\"`", bad: true},
		{key: "textsearch", body: "_ gosql.TextSearch `sql:\"i.name\"`", bad: true},
		{key: "ignore", body: "_ gosql.Ignore", bad: true},
		{key: "update", body: "_ gosql.Update `sql:\"*\"`", bad: true},
		{key: "index", body: "_ gosql.Index `sql:\"items_key\"`", bad: true},
		{key: "column", body: "_ gosql.Column `sql:\"i.id isnull\"`", bad: true},
		{key: "leftjoin", body: "_ gosql.LeftJoin `sql:\"owners:o,o.item_key = i.key\"`", bad: true},
		{key: "badlimit", body: "LIMIT string", group: "limit", bad: true},
		{key: "badlimit2", body: "_ gosql.Limit `sql:\"-1\"`", group: "limit", bad: true},
		{key: "badoffset", body: "_ gosql.Offset", group: "offset", bad: true},
		{key: "badwhere", body: "WherE int", group: "qual", bad: true},
		{key: "emptywhere", body: "WHEre struct {\n}", group: "qual", any: "S C E N U D", not: "U.slice"},
		{key: "emptyfrom", body: "FRoM struct {\n}", group: "from", bad: true},
		{key: "emptyusing", body: "UsiNg struct {\n}", group: "using", bad: true},
		{key: "norelusing", body: "USinG struct {\n_ gosql.LeftJoin `sql:\"badges:bj,bj.bid = i.key\"`\n}", group: "using", bad: true},
		{key: "norelfrom", body: "FrOM struct {\n_ gosql.LeftJoin `sql:\"badges:bj,bj.bid = i.key\"`\n}", group: "from", bad: true},
		{key: "emptyjoin", body: "JOIn struct {\n}", group: "join", any: "S C E N"},
		{key: "badaffected", body: "ROWSAFFECTED string", group: "target", bad: true},
		{key: "badoverride", body: "_ gosql.Override `sql:\"both\"`", group: "override", bad: true},
		{key: "badorder", body: "_ gosql.OrderBy", group: "order", bad: true},
		{key: "badnulls", body: "_ gosql.OrderBy `sql:\"i.id:nullsmiddle\"`", group: "order", bad: true},
		{key: "badreturn", body: "_ gosql.Return", group: "target", bad: true},
		{key: "badreturn2", body: "_ gosql.Return `sql:\"i.ratio\"`", group: "target", bad: true},
		{key: "badforce", body: "_ gosql.Force `sql:\"i.ratio\"`", group: "force", bad: true},
		{key: "baddefault", body: "_ gosql.Default `sql:\"i.name\"`", group: "default", bad: true},
	}
}

func within(list, x string) bool {
	for _, s := range strings.Fields(list) {
		if s == x {
			return true
		}
	}
	return false
}

// verdict is the rule model: accept, reject or "" (not claimed).
func verdict(q qshape, in []ingr) string {
	reject, unsure, empty := q.bad, false, false
	groups := map[string]int{}
	for _, x := range in {
		if x.group != "" {
			groups[x.group]++
		}
		empty = empty || x.key == "emptywhere"
		switch {
		case x.bad, !strings.Contains(x.kinds, q.kind) && !within(x.any, q.kind):
			reject = true
		case within(x.not, q.key):
			reject = true
		case within(x.any, q.kind), within(x.any, q.key):
			unsure = true
		}
	}
	for _, n := range groups {
		if n > 1 {
			reject = true
		}
	}
	// the safeguard: without a where block, filter, join or key all rows have to be asked for
	if quals := groups["qual"]; quals == 0 || empty {
		all := q.kind == "D" && groups["using"] == 0
		all = all || q.kind == "U" && groups["from"] == 0 && (q.key == "U.nokey" || empty)
		reject = reject || all
	}
	switch {
	case reject:
		return "reject"
	case unsure:
		return ""
	}
	return "accept"
}

var kindName = map[string]string{"S": "Select", "C": "Select", "E": "Select", "N": "Select", "I": "Insert", "U": "Update", "D": "Delete"}

const c15Types = `
type Item struct {
	ID    int     ~sql:"id"~
	Key   int     ~sql:"key"~
	Name  string  ~sql:"name"~
	Fruit *string ~sql:"fruit"~
	Value *int    ~sql:"value"~
	Ver   int     ~sql:"ver"~
	Done  bool    ~sql:"done"~
}
type ItemNoKey struct {
	Key   int     ~sql:"key"~
	Name  string  ~sql:"name"~
	Fruit *string ~sql:"fruit"~
	Value *int    ~sql:"value"~
	Ver   int     ~sql:"ver"~
	ID    int     ~sql:"-"~
}
type ItemIter interface{ Next(*Item) error }
type Doc struct {
	ID int ~sql:"id"~
}
type GenRec[T, U any] struct {
	ID   T          ~sql:"id"~
	Name U          ~sql:"name"~
	Sub  *GenSub[U] ~sql:">"~
}
type GenSub[T any] struct {
	Fruit *T ~sql:"fruit"~
}
type GenOne[T any] struct {
	ID    int ~sql:"id"~
	Fruit T   ~sql:"fruit"~
}
type GenNest struct {
	ID  int           ~sql:"id"~
	Sub *GenOf[sql.NullString, *time.Time] ~sql:">"~
}
type GenOf[T, U any] struct {
	Fruit T ~sql:"fruit"~
	U     U
}
type GenIter[T any] interface{ Next(*T) error }
type SelfRec struct {
	ID   int      ~sql:"id"~
	Self *SelfRec ~sql:">"~
}
type SelfGen[T any] struct {
	ID   T           ~sql:"id"~
	Self *SelfGen[T] ~sql:">x_"~
}
type SelfA struct {
	ID int    ~sql:"id"~
	B  *SelfB ~sql:">b_"~
}
type SelfB struct {
	In struct {
		A *SelfA ~sql:">a_"~
	} ~sql:">"~
}
type (
	TreeMap          map[string]TreeMap
	TreeSlice        []TreeSlice
	TreePtr          *TreePtr
	TreeOf[T any]    map[string]TreeOf[T]
	TreeA            []TreeB
	TreeB            map[string]*TreeA
	TreeStruct       struct{ Kids []*TreeStruct }
)
`

func c15Cases(r *vf.Run) (out []*Case) {
	add := func(key, kind, body, want string) {
		out = append(out, &Case{Key: key, Kind: kind, Body: body, Want: want})
	}

	// all compositions of features, up to the bound, in their order and reversed
	ingrs := c15Ingrs()
	main := map[string]bool{"S.slice": true, "I.ptr": true, "U.ptr": true, "D.slice": true}
	for _, q := range c15Shapes() {
		depth := 2
		if r.Thorough() && (main[q.key] || q.kind == "C" || q.key == "U.slice" || q.key == "U.nokey" || q.key == "D.rel" || q.key == "I.slice") {
			depth = 3
		}
		var walk func(from int, in []ingr)
		walk = func(from int, in []ingr) {
			var keys, body []string
			for _, x := range in {
				keys = append(keys, x.key)
				body = append(body, x.body)
			}
			want := verdict(q, in)
			key := q.key + "/" + strings.Join(keys, "+")
			add(key, kindName[q.kind], q.rel+"\n"+strings.Join(body, "\n"), want)
			if len(in) == 2 && main[q.key] {
				add(key+"/rev", kindName[q.kind], body[1]+"\n"+q.rel+"\n"+body[0], want)
			}
			if len(in) == depth {
				return
			}
			for i := from; i < len(ingrs); i++ {
				walk(i+1, append(append([]ingr{}, in...), ingrs[i]))
			}
		}
		walk(0, nil)
	}
	out = append(out, c15Conflicts(r)...)
	out = append(out, c15Joins(r)...)
	out = append(out, c15Preds()...)
	out = append(out, c15Idents(r)...)
	out = append(out, c15Rels()...)
	out = append(out, c15Filters()...)
	return out
}

// c15Conflicts: all sequences of on-conflict directives.
func c15Conflicts(r *vf.Run) (out []*Case) {
	type oc struct {
		key, body string
		target    bool
		action    bool
		upd       bool
		bad       bool
	}
	parts := []oc{
		{key: "col", body: "_ gosql.Column `sql:\"i.key\"`", target: true},
		{key: "col2", body: "_ gosql.Column `sql:\"name,tag\"`", target: true},
		{key: "idx", body: "_ gosql.Index `sql:\"items_name_tag\"`", target: true},
		{key: "con", body: "_ gosql.Constraint `sql:\"items_key\"`", target: true},
		{key: "ign", body: "_ gosql.Ignore", action: true},
		{key: "upd", body: "_ gosql.Update `sql:\"i.value,ver\"`", action: true, upd: true},
		{key: "upd*", body: "_ gosql.Update `sql:\"*\"`", action: true, upd: true},
		{key: "field", body: "X int `sql:\"id\"`"},
		{key: "noidx", body: "_ gosql.Index `sql:\"items_fruit\"`", target: true, bad: true},
		{key: "noidx2", body: "_ gosql.Index `sql:\"nothing\"`", target: true, bad: true},
		{key: "nocon", body: "_ gosql.Constraint `sql:\"items_name_tag\"`", target: true, bad: true},
		{key: "nocol", body: "_ gosql.Column `sql:\"i.fruit\"`", target: true, bad: true},
		{key: "nocol2", body: "_ gosql.Column `sql:\"i.ver\"`", target: true, bad: true},
		{key: "nocol3", body: "_ gosql.Column `sql:\"i.nosuch\"`", target: true, bad: true},
		{key: "noupd", body: "_ gosql.Update `sql:\"i.nosuch\"`", action: true, upd: true, bad: true},
		{key: "other", body: "_ gosql.All", bad: true},
		{key: "other2", body: "_ gosql.Return `sql:\"*\"`", bad: true},
	}
	depth := 3
	var walk func(in []int)
	walk = func(in []int) {
		var keys, body []string
		t, a, upd, bad, fields := 0, 0, false, false, 0
		for _, i := range in {
			p := parts[i]
			keys = append(keys, p.key)
			body = append(body, strings.ReplaceAll(p.body, "X int", fmt.Sprintf("X%d int", len(body))))
			if p.target {
				t++
			}
			if p.action {
				a++
			}
			if p.key == "field" {
				fields++
			}
			upd = upd || p.upd
			bad = bad || p.bad
		}
		want := "accept"
		if t > 1 || a != 1 || upd && t == 0 || bad {
			want = "reject"
		}
		for _, rel := range []string{"*Item", "[]Item"} {
			out = append(out, &Case{Key: "conflict/" + rel + "/" + strings.Join(keys, "+"), Kind: "Insert", Want: want,
				Body: "Rel " + rel + " `rel:\"items:i\"`\nOnConflict struct {\n" + strings.Join(body, "\n") + "\n}"})
			if len(in) == 3 {
				break
			}
		}
		if len(in) < depth {
			for i := range parts {
				walk(append(append([]int{}, in...), i))
			}
		}
	}
	walk(nil)
	return out
}

// c15Joins: all sequences of join directives with aliases from a small pool.
func c15Joins(r *vf.Run) (out []*Case) {
	type jd struct {
		key, dir, rel, alias, cond string
		bad                        bool
	}
	var parts []jd
	for _, dir := range []string{"LeftJoin", "Relation", "CrossJoin"} {
		for _, ra := range []string{"owners:o", "owners:p", "badges:o", "badges:i", "owners:items", "owners", "badges", "nosuch:n"} {
			d := jd{key: dir + "(" + ra + ")", dir: dir, rel: ra, alias: ra, bad: strings.HasPrefix(ra, "nosuch")}
			if k := strings.Index(ra, ":"); k > 0 {
				d.alias = ra[k+1:]
			}
			if dir == "LeftJoin" {
				key := "oid_"
				if strings.HasPrefix(ra, "badges") {
					key = "bid"
				}
				d.cond = "," + d.alias + "." + key + " = i.key"
			}
			parts = append(parts, d)
		}
	}
	parts = append(parts, jd{key: "Column", dir: "Column", rel: "i.id isnull", bad: true}, jd{key: "All", dir: "All", rel: "x", bad: true})
	for _, b := range []struct{ field, kind, rel string }{
		{"Join", "Select", "Rel []*Item `rel:\"items:i\"`"},
		{"Join", "Select", "Count int `rel:\"items:i\"`"},
		{"Using", "Delete", "_ gosql.Relation `rel:\"items:i\"`"},
		{"From", "Update", "Rel *ItemNoKey `rel:\"items:i\"`"},
	} {
		var walk func(in []int)
		walk = func(in []int) {
			seen := map[string]bool{"i": true}
			rels, reject, unsure := 0, false, false
			var keys, body []string
			for k, i := range in {
				p := parts[i]
				keys = append(keys, p.key)
				body = append(body, fmt.Sprintf("_ gosql.%s `sql:\"%s%s\"`", p.dir, p.rel, p.cond))
				if p.bad {
					reject = true
					continue
				}
				if seen[p.alias] {
					reject = true
				}
				seen[p.alias] = true
				if p.dir == "Relation" {
					rels++
					if k > 0 {
						unsure = true // documented to come first
					}
				}
			}
			if b.field == "Join" && rels > 0 || rels > 1 {
				reject = true
			}
			if b.field != "Join" && rels == 0 {
				unsure = true
			}
			if len(in) == 0 {
				unsure = true
			}
			// joins of a write refer to the target in their conditions, which SQL does not allow
			if b.field != "Join" && strings.Contains(strings.Join(keys, ""), "LeftJoin") {
				reject = true
			}
			want := "accept"
			if reject {
				want = "reject"
			} else if unsure {
				want = ""
			}
			out = append(out, &Case{Key: "join/" + b.field + "/" + b.rel[:3] + "/" + strings.Join(keys, "+"), Kind: b.kind, Want: want,
				Body: b.rel + "\n" + b.field + " struct {\n" + strings.Join(body, "\n") + "\n}\n" +
					map[bool]string{true: "Where struct {\nX int `sql:\"i.id\"`\n}", false: ""}[b.field != "Join"]})
			depth := 2
			if r.Thorough() && b.kind != "Update" && b.rel[:3] != "Cou" {
				depth = 3
			}
			if len(in) < depth {
				for i := range parts {
					walk(append(append([]int{}, in...), i))
				}
			}
		}
		walk(nil)
	}
	return out
}

// c15Preds: every operator with every quantifier in every kind of where item.
func c15Preds() (out []*Case) {
	type op struct{ s, class string }
	ops := []op{{"", "cmp"}, {"=", "cmp"}, {"<>", "cmp"}, {"!=", "cmp"}, {"<", "cmp"}, {"<=", "cmp"}, {">", "cmp"}, {">=", "cmp"},
		{"~", "pat"}, {"~*", "pat"}, {"!~", "pat"}, {"!~*", "pat"}, {"islike", "pat"}, {"notlike", "pat"}, {"isilike", "pat"}, {"notilike", "pat"}, {"issimilar", "pat"}, {"notsimilar", "pat"},
		{"isdistinct", "dist"}, {"notdistinct", "dist"}, {"isin", "in"}, {"notin", "in"},
		{"isnull", "null"}, {"notnull", "null"}, {"istrue", "bool"}, {"nottrue", "bool"}, {"isfalse", "bool"}, {"notfalse", "bool"}, {"isunknown", "bool"}, {"notunknown", "bool"},
		{"isbetween", "btw"}, {"notbetween", "btw"}, {"isbetweensym", "btw"}, {"notbetweensym", "btw"},
		{"isfoo", "none"}, {"isnotnull", "none"}, {"==", "none"}, {"=<", "none"}, {"!", "none"}, {"is", "none"}, {"isinn", "none"}}
	quants := []string{"", "any", "some", "all", "anyy"}
	cols := []struct{ col, class, scalar, slice, lit, rhs string }{
		{"i.name", "text", "string", "[]string", "'a'", "i.fruit"}, {"i.ver", "int", "int", "[]int", "1", "i.key"}, {"i.done", "bool", "bool", "[]bool", "true", "i.done"},
		{"i.value", "int", "*int", "[]int", "1", "i.key"},
	}
	sp := func(xs ...string) string {
		var o []string
		for _, x := range xs {
			if x != "" {
				o = append(o, x)
			}
		}
		return strings.Join(o, " ")
	}
	for _, c := range cols {
		for _, o := range ops {
			for _, qu := range quants {
				if o.s == "" && qu != "" {
					continue
				}
				// quantified comparisons with columns and literals need an array there
				type form struct{ key, field, want string }
				var forms []form
				add := func(key, field, want string) { forms = append(forms, form{key, field, want}) }
				fieldTag := sp(c.col, o.s, qu)
				hasOp := o.class == "cmp" || o.class == "dist" || o.class == "in" || o.class == "pat" && c.class == "text"
				quantOK := o.class == "cmp" || o.class == "pat" && !strings.Contains(o.s, "similar")
				w := "accept"
				switch {
				case o.class == "null", o.class == "bool", o.class == "btw", o.class == "none", o.class == "in", !hasOp, qu != "":
					w = "reject"
				}
				if o.class == "dist" && c.col == "i.done" {
					w = ""
				}
				add("scalar", "X "+c.scalar+" `sql:\""+fieldTag+"\"`", w)
				w = "reject"
				switch {
				case o.class == "in" && qu == "":
					w = "accept"
				case quantOK && hasOp && (qu == "any" || qu == "some" || qu == "all"):
					w = "accept"
				case qu != "" && o.class == "pat" && strings.Contains(o.s, "similar"):
					w = ""
				}
				add("slice", "X "+c.slice+" `sql:\""+fieldTag+"\"`", w)
				w = "reject"
				if o.class == "btw" && qu == "" && c.class != "bool" {
					w = "accept"
				} else if o.class == "btw" && qu == "" {
					w = ""
				}
				add("between", "X struct {\nA "+c.scalar+" `sql:\"x\"`\nB "+c.scalar+" `sql:\"y\"`\n} `sql:\""+fieldTag+"\"`", w)
				// column directives
				w = "reject"
				switch {
				case qu != "":
				case o.class == "null" && (c.col == "i.value"), o.class == "bool" && c.class == "bool":
					w = "accept"
				case o.s == "" && c.class == "bool": // IS TRUE
					w = "accept"
				}
				add("col", "_ gosql.Column `sql:\""+fieldTag+"\"`", w)
				if o.s == "" {
					continue
				}
				w = "reject"
				if qu == "" && hasOp && o.class != "in" {
					w = "accept"
				}
				if qu != "" {
					w = "reject" // not an array
				}
				if o.class == "in" {
					w = "reject" // not an array
				}
				if o.class == "dist" && c.class == "bool" {
					w = ""
				}
				if qu == "anyy" && o.class != "none" && o.class != "null" && o.class != "bool" {
					w = "" // "anyy i.key" is a literal expression
				}
				add("col-col", "_ gosql.Column `sql:\""+sp(c.col, o.s, qu, c.rhs)+"\"`", w)
				add("col-lit", "_ gosql.Column `sql:\""+sp(c.col, o.s, qu, c.lit)+"\"`", w)
			}
		}
	}
	for n, f := range map[string]string{
		"between-int":   "X int `sql:\"i.ver isbetween\"`",
		"between-one":   "X struct {\nA int `sql:\"x\"`\n} `sql:\"i.ver isbetween\"`",
		"between-three": "X struct {\nA int `sql:\"x\"`\nB int `sql:\"y\"`\nC int\n} `sql:\"i.ver isbetween\"`",
		"between-xx":    "X struct {\nA int `sql:\"x\"`\nB int `sql:\"x\"`\n} `sql:\"i.ver isbetween\"`",
		"between-xz":    "X struct {\nA int `sql:\"x\"`\nB int `sql:\"z\"`\n} `sql:\"i.ver isbetween\"`",
		"between-noTag": "X struct {\nA int\nB int\n} `sql:\"i.ver isbetween\"`",
		"between-type2": "X struct {\nA int `sql:\"x\"`\nB bool `sql:\"y\"`\n} `sql:\"i.ver isbetween\"`",
		"bool-tag":      "X int `sql:\"i.ver\"`\nY int `sql:\"i.id\" bool:\"xor\"`",
		"nested-empty":  "X int `sql:\"i.ver\"`\nY struct {\n} `sql:\">\"`",
		"nested-untag":  "X int `sql:\"i.ver\"`\nY struct {\nZ int\n} `sql:\">\"`",
		"nested-int":    "X int `sql:\">\"`",
		"bad-type":      "X []string `sql:\"i.ver\"`",
		"bad-type2":     "X bool `sql:\"i.name\"`",
		"bad-type3":     "X chan int `sql:\"i.name\"`",
		"bad-type4":     "X func() `sql:\"i.ver\"`",
		"bad-func":      "X string `sql:\"i.name,@nosuchfunction\"`",
		"bad-func2":     "X int `sql:\"i.ver,@lower\"`",
		"bad-lit":       "_ gosql.Column `sql:\"i.ver = 'a'\"`",
		"bad-lit2":      "_ gosql.Column `sql:\"i.ver = 1 1\"`",
		"bad-lit3":      "_ gosql.Column `sql:\"i.done = 1\"`",
		"bad-col":       "_ gosql.Column `sql:\"i.ver = i.name\"`",
		"bad-col2":      "_ gosql.Column `sql:\"i.ver = i.nosuch\"`",
		"bad-col3":      "_ gosql.Column `sql:\"i.ver = zz.id\"`",
		"bad-col4":      "_ gosql.Column `sql:\"i.name > i.seen\"`",
	} {
		out = append(out, &Case{Key: "where/" + n, Kind: "Select", Want: "reject", Body: "Rel []*Item `rel:\"items:i\"`\nWhere struct {\n" + f + "\n}"})
	}
	for n, f := range map[string]string{
		"between-col":   "X struct {\n_ gosql.Column `sql:\"i.key,x\"`\nB int `sql:\"upper\"`\n} `sql:\"i.ver isbetween\"`",
		"between-order": "X struct {\nB int `sql:\"y\"`\nA int `sql:\"lower\"`\n} `sql:\"i.ver isbetween\"`",
		"func":          "X string `sql:\"i.name,@lower\"`",
		"nested":        "X int `sql:\"i.ver\"`\nY struct {\nA int `sql:\"i.id\"`\nB string `sql:\"i.name\" bool:\"OR\"`\n} `sql:\">\" bool:\"and\"`",
		"literal":       "_ gosql.Column `sql:\"i.ver = 1+1\"`",
		"literal2":      "_ gosql.Column `sql:\"i.name = lower('A')\"`",
		"now":           "_ gosql.Column `sql:\"i.seen < current_timestamp\"`",
		"skipped":       "X int\nY chan int `sql:\"-\"`\nZ int `sql:\"i.id\"`",
	} {
		out = append(out, &Case{Key: "where/" + n, Kind: "Select", Want: "accept", Body: "Rel []*Item `rel:\"items:i\"`\nWhere struct {\n" + f + "\n}"})
	}
	return out
}

// c15Idents: every token sequence up to the bound at every position of a column reference.
func c15Idents(r *vf.Run) (out []*Case) {
	toks := []string{"id", "i", "zz", ".", ":", "1", "-", " ", "*", "id2", "\\n", "é"}
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	type pos struct {
		key, kind, body, want string
	}
	field := "Rel []*Item `rel:\"items:i\"`\n"
	poss := []pos{
		{"where", "Select", field + "Where struct {\nX int `sql:\"§\"`\n}", ""},
		{"whereop", "Select", field + "Where struct {\nX int `sql:\"§ >=\"`\n}", ""},
		{"column", "Select", field + "Where struct {\n_ gosql.Column `sql:\"§ = 1\"`\n}", ""},
		{"between", "Select", field + "Where struct {\nX struct {\n_ gosql.Column `sql:\"§,x\"`\nB int `sql:\"y\"`\n} `sql:\"i.ver isbetween\"`\n}", ""},
		{"joinlhs", "Select", "Rel []*Doc `rel:\"docs:d\"`\nJoin struct {\n_ gosql.LeftJoin `sql:\"items:i,§ = d.id\"`\n}", ""},
		{"order", "Select", field + "_ gosql.OrderBy `sql:\"§\"`", "order"},
		{"return", "Delete", field + "_ gosql.All\n_ gosql.Return `sql:\"§\"`", "*"},
		{"force", "Insert", field + "_ gosql.Force `sql:\"§\"`", "*"},
		{"default", "Insert", field + "_ gosql.Default `sql:\"§\"`", "*"},
		{"optional", "Select", field + "_ gosql.Optional `sql:\"§\"`", "*"},
		{"target", "Insert", field + "OnConflict struct {\n_ gosql.Column `sql:\"§\"`\n_ gosql.Ignore\n}", ""},
		{"update", "Insert", field + "OnConflict struct {\n_ gosql.Column `sql:\"key\"`\n_ gosql.Update `sql:\"§\"`\n}", "*"},
		{"index", "Insert", field + "OnConflict struct {\n_ gosql.Index `sql:\"§\"`\n_ gosql.Ignore\n}", "never"},
		{"constraint", "Insert", field + "OnConflict struct {\n_ gosql.Constraint `sql:\"§\"`\n_ gosql.Ignore\n}", "never"},
	}
	order := regexp.MustCompile(`^-?(i\.)?id$`)
	blank := regexp.MustCompile(`^(\\n| )*$`)
	for _, p := range poss {
		var walk func(s string, n int)
		walk = func(s string, n int) {
			if n > 0 {
				t := strings.Trim(s, " ")
				want := "reject"
				switch {
				case p.want == "never":
				case s == "id" || s == "i.id":
					want = "accept"
				case t == "id" || t == "i.id" || strings.Trim(strings.ReplaceAll(s, "\\n", " "), " ") == "id":
					want = "" // white space around
				case p.want == "*" && s == "*":
					want = "accept"
				case p.want == "order" && order.MatchString(s):
					want = "accept"
				case p.want == "order" && (order.MatchString(strings.TrimSpace(strings.ReplaceAll(s, "\\n", " "))) || blank.MatchString(s)):
					want = ""
				case blank.MatchString(s), s == "-", strings.Contains(s, "\\n"):
					want = "" // "-" is the marker of an ignored item
				}
				out = append(out, &Case{Key: "ident/" + p.key + "/" + strings.ReplaceAll(strings.ReplaceAll(s, " ", "_"), "\\", "\\\\"), Kind: p.kind, Want: want, Body: strings.ReplaceAll(p.body, "§", s)})
			}
			if n == depth {
				return
			}
			for _, t := range toks {
				walk(s+t, n+1)
			}
		}
		walk("", 0)
	}
	return dedupe(out)
}

func dedupe(in []*Case) (out []*Case) {
	seen := map[string]bool{}
	for _, c := range in {
		if !seen[c.Key] {
			seen[c.Key] = true
			out = append(out, c)
		}
	}
	return out
}

// c15Rels: relation references and record types.
func c15Rels() (out []*Case) {
	toks := []string{"items", "public", "i", ".", ":", "1", "-", " ", "sec", "recs"}
	ok := regexp.MustCompile(`^(public\.)?items(:(i|items|public|sec|recs)[a-z1]*)?$|^((public|sec)\.)?recs(:(i|items|public|sec|recs)[a-z1]*)?$`)
	type pos struct{ key, kind, body string }
	for _, p := range []pos{
		{"rel", "Select", "Count int `rel:\"§\"`"},
		{"join", "Select", "Count int `rel:\"toys:t\"`\nJoin struct {\n_ gosql.CrossJoin `sql:\"§\"`\n}"},
		{"using", "Delete", "_ gosql.Relation `rel:\"toys:t\"`\n_ gosql.All\nUsing struct {\n_ gosql.Relation `sql:\"§\"`\n}"},
	} {
		var walk func(s string, n int)
		walk = func(s string, n int) {
			if n > 0 {
				want := "reject"
				if ok.MatchString(s) {
					want = "accept"
				} else if t := strings.TrimSpace(s); t != s && ok.MatchString(t) || s == "-" || t == "" {
					want = ""
				}
				out = append(out, &Case{Key: "relid/" + p.key + "/" + strings.ReplaceAll(s, " ", "_"), Kind: p.kind, Want: want, Body: strings.ReplaceAll(p.body, "§", s)})
			}
			if n == 4 {
				return
			}
			for _, t := range toks {
				walk(s+t, n+1)
			}
		}
		walk("", 0)
	}
	for _, k := range []struct{ key, kind, body, want string }{
		{"none", "Select", "X int", "reject"},
		{"none2", "Insert", "X *Item", "reject"},
		{"int", "Select", "Rel int `rel:\"items\"`", "reject"},
		{"count-string", "Select", "Count string `rel:\"items\"`", "reject"},
		{"exists-int", "Select", "Exists int `rel:\"items\"`", "reject"},
		{"map", "Select", "Rel map[string]Item `rel:\"items\"`", "reject"},
		{"slice-anon", "Select", "Rel []struct {\nID int `sql:\"id\"`\n} `rel:\"items\"`", "reject"},
		{"ptr-anon", "Select", "Rel *struct {\nID int `sql:\"id\"`\n} `rel:\"items\"`", "reject"},
		{"ptrptr", "Select", "Rel **Item `rel:\"items\"`", "reject"},
		{"sliceslice", "Select", "Rel [][]Item `rel:\"items\"`", "reject"},
		{"func-two", "Select", "Rel func(*Item, int) error `rel:\"items\"`", "reject"},
		{"func-none", "Select", "Rel func(*Item) `rel:\"items\"`", "reject"},
		{"func-int", "Select", "Rel func(*Item) int `rel:\"items\"`", "reject"},
		{"func-arg", "Select", "Rel func(int) error `rel:\"items\"`", "reject"},
		{"func-slice", "Select", "Rel func([]Item) error `rel:\"items\"`", "reject"},
		{"iface-two", "Select", "Rel interface {\nA(*Item) error\nB(*Item) error\n} `rel:\"items\"`", "reject"},
		{"iface-empty", "Select", "Rel interface{} `rel:\"items\"`", "reject"},
		{"iface-arg", "Select", "Rel interface {\nA() error\n} `rel:\"items\"`", "reject"},
		{"anon", "Select", "Rel struct {\nID int `sql:\"id\"`\n} `rel:\"items\"`", "accept"},
		{"slice", "Select", "Rel []Item `rel:\"items\"`", "accept"},
		{"iface", "Select", "Rel interface {\nA(Item) error\n} `rel:\"items\"`", "accept"},
		{"count", "Select", "Count uint8 `rel:\"items\"`", "accept"},
		{"generic", "Select", "Rel []*GenRec[int, string] `rel:\"items\"`", "accept"},
		{"generic-int64", "Select", "Rel *GenRec[int64, string] `rel:\"items\"`", "accept"},
		{"generic-val", "Insert", "Rel GenRec[int32, string] `rel:\"items\"`", ""},
		{"generic-result", "Delete", "_ gosql.Relation `rel:\"items\"`\n_ gosql.All\nResult []*GenRec[int, string]", "accept"},
		{"generic-pkg", "Select", "Rel []*GenOne[sql.NullString] `rel:\"items\"`", "accept"},
		{"generic-pkg2", "Select", "Rel []GenOne[sql.NullString] `rel:\"items\"`", "accept"},
		{"generic-ext", "Select", "Rel []*GenOne[ext.Str] `rel:\"items\"`", ""},
		{"generic-nest", "Select", "Rel []*GenNest `rel:\"items\"`", "accept"},
		{"generic-iter", "Select", "Rel GenIter[Item] `rel:\"items\"`", "accept"},
		{"generic-bad", "Select", "Rel []*GenRec[bool, string] `rel:\"items\"`", "reject"},
		{"generic-unnamed", "Select", "Rel []*GenOne[struct{ A string }] `rel:\"items\"`", "reject"},
		{"generic-target", "Select", "raw:type @[T any] struct {\nRel []*Item `rel:\"items\"`\n}", "reject"},
		{"generic-target2", "Insert", "raw:type @[T any] struct {\nRel *GenRec[T, string] `rel:\"items\"`\n}", "reject"},
		{"self", "Select", "Rel []*SelfRec `rel:\"items\"`", "reject"},
		{"self-gen", "Select", "Rel []*SelfGen[int] `rel:\"items\"`", "reject"},
		{"self-two", "Insert", "Rel *SelfA `rel:\"items\"`", "reject"},
		{"nosuchcol", "Select", "Rel struct {\nID int `sql:\"id\"`\nX int `sql:\"nosuch\"`\n} `rel:\"items\"`", "reject"},
		{"optcol", "Select", "Rel struct {\nID int `sql:\"id\"`\nX int `sql:\"nosuch\"`\n} `rel:\"items\"`\n_ gosql.Optional `sql:\"nosuch\"`", "accept"},
		{"insnosuch", "Insert", "Rel struct {\nID int `sql:\"id\"`\nX int `sql:\"nosuch\"`\n} `rel:\"items\"`", "reject"},
		{"insro", "Insert", "Rel struct {\nName string `sql:\"name\"`\nX int `sql:\"nosuch,ro\"`\n} `rel:\"items\"`", "accept"},
		{"badcol", "Select", "Rel struct {\nID int `sql:\"1d\"`\n} `rel:\"items\"`", "reject"},
		{"badcol2", "Select", "Rel struct {\nID int `sql:\"id name\"`\n} `rel:\"items\"`", "reject"},
		{"badcol3", "Select", "Rel struct {\nIn struct {\nID int `sql:\"id\"`\n} `sql:\">1\"`\n} `rel:\"items\"`", "reject"},
		{"empty-opt", "Select", "Rel struct {\nID int `sql:\"id,\"`\n} `rel:\"items\"`", ""},
		{"default-none", "Insert", "Rel struct {\nName string `sql:\"name,default\"`\n} `rel:\"items\"`", "reject"},
		{"default-identity", "Insert", "Rel struct {\nID int `sql:\"id,default\"`\nName string `sql:\"name\"`\n} `rel:\"idents\"`", "accept"},
		{"type-write", "Insert", "Rel struct {\nName chan int `sql:\"name\"`\n} `rel:\"items\"`", "reject"},
		{"type-write2", "Insert", "Rel struct {\nName []int `sql:\"name\"`\n} `rel:\"items\"`", "reject"},
		{"type-read", "Select", "Rel struct {\nID bool `sql:\"id\"`\n} `rel:\"items\"`", "reject"},
		{"type-read2", "Select", "Rel struct {\nSeen int `sql:\"seen\"`\n} `rel:\"items\"`", "reject"},
	} {
		c := &Case{Key: "record/" + k.key, Kind: k.kind, Want: k.want, Body: k.body}
		if b, ok := strings.CutPrefix(k.body, "raw:"); ok {
			c.Raw, c.Body = true, b
		}
		out = append(out, c)
	}
	for _, t := range []string{"TreeMap", "TreeSlice", "TreePtr", "TreeOf[int]", "TreeA", "TreeB", "*TreeB", "[]TreeMap", "map[string]TreeA", "TreeStruct", "*TreeStruct"} {
		want := "accept"
		out = append(out, &Case{Key: "recursive/json/" + t, Kind: "Select", Want: want, Body: "Rel struct {\nBody " + t + " `sql:\"body,json\"`\n} `rel:\"docs\"`"},
			&Case{Key: "recursive/text/" + t, Kind: "Select", Want: "reject", Body: "Rel struct {\nTitle " + t + " `sql:\"title\"`\n} `rel:\"docs\"`"},
			&Case{Key: "recursive/tags/" + t, Kind: "Insert", Want: "", Body: "Rel struct {\nTags " + t + " `sql:\"tags\"`\n} `rel:\"docs\"`"},
			&Case{Key: "recursive/where/" + t, Kind: "Select", Want: "", Body: "Count int `rel:\"docs:d\"`\nWhere struct {\nT " + t + " `sql:\"d.title\"`\nU " + t + " `sql:\"d.tags isin\"`\n}"})
	}
	return out
}

// c15Filters: declarations of filters.
func c15Filters() (out []*Case) {
	rel := "_ *Item `rel:\"items:i\"`\n"
	fc := "filter.Constructor\n"
	for _, k := range []struct{ key, body, want string }{
		{"ok", rel + fc, "accept"},
		{"v2", rel + "filter.Constructor `filter:\"v2\"`", "accept"},
		{"named", rel + "C filter.Constructor", "accept"},
		{"rel-last", fc + rel, "accept"},
		{"plain", rel + fc + "X int", "accept"},
		{"slice", "_ []*Item `rel:\"items:i\"`\n" + fc, "accept"},
		{"no-constructor", rel, "reject"},
		{"no-rel", fc, "reject"},
		{"two-rel", rel + "_ *Item `rel:\"items:j\"`\n" + fc, "reject"},
		{"two-constructors", rel + fc + "C filter.Constructor", "reject"},
		{"func", "_ func(*Item) error `rel:\"items:i\"`\n" + fc, "reject"},
		{"iter", "_ ItemIter `rel:\"items:i\"`\n" + fc, "reject"},
		{"all", rel + fc + "_ gosql.All", "reject"},
		{"limit", rel + fc + "_ gosql.Limit `sql:\"1\"`", "reject"},
		{"order", rel + fc + "_ gosql.OrderBy `sql:\"i.id\"`", "reject"},
		{"return", rel + fc + "_ gosql.Return `sql:\"*\"`", "reject"},
		{"nosuch", "_ *Item `rel:\"nosuch:i\"`\n" + fc, "reject"},
		{"badrel", "_ *Item `rel:\"items:\"`\n" + fc, "reject"},
		{"ts", "_ *Doc `rel:\"docs:d\"`\n" + fc + "_ gosql.TextSearch `sql:\"d.doc\"`", "accept"},
		{"ts-unqual", "_ *Doc `rel:\"docs:d\"`\n" + fc + "_ gosql.TextSearch `sql:\"doc\"`", "accept"},
		{"ts-type", "_ *Doc `rel:\"docs:d\"`\n" + fc + "_ gosql.TextSearch `sql:\"d.title\"`", "reject"},
		{"ts-nosuch", "_ *Doc `rel:\"docs:d\"`\n" + fc + "_ gosql.TextSearch `sql:\"d.nosuch\"`", "reject"},
		{"ts-qual", "_ *Doc `rel:\"docs:d\"`\n" + fc + "_ gosql.TextSearch `sql:\"e.doc\"`", "reject"},
		{"ts-empty", "_ *Doc `rel:\"docs:d\"`\n" + fc + "_ gosql.TextSearch", "reject"},
		{"ts-two", "_ *Doc `rel:\"docs:d\"`\n" + fc + "_ gosql.TextSearch `sql:\"d.doc\"`\n_ gosql.TextSearch `sql:\"doc\"`", "reject"},
		{"ts-first", fc + "_ gosql.TextSearch `sql:\"d.doc\"`\n_ *Doc `rel:\"docs:d\"`", "accept"},
	} {
		out = append(out, &Case{Key: "filter/" + k.key, Kind: "Filter", Want: k.want, Body: k.body})
	}
	return out
}
