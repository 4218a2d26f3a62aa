package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/vfdrv/vf"
)

// C16, references: at every place of a declaration that names a relation, a column, an index, a
// constraint or a function, every spelling of the alphabet, existing and not.  The verdict is
// compared with a resolver over the model's own list of what exists; what is accepted is executed.

const c16RefDDL = `
CREATE SCHEMA other;
CREATE TYPE other.hue AS ENUM ('red','blue');
CREATE TABLE other.only (id int PRIMARY KEY, key int NOT NULL, name text NOT NULL);
CREATE TABLE arb (
	id int PRIMARY KEY,
	a int NOT NULL, b int NOT NULL, c int, d int, e text, f int, g int, h int,
	CONSTRAINT arb_ab UNIQUE (a, b),
	CONSTRAINT arb_c UNIQUE (c) DEFERRABLE,
	CONSTRAINT arb_d UNIQUE NULLS NOT DISTINCT (d),
	CONSTRAINT arb_inc UNIQUE (f) INCLUDE (g),
	CONSTRAINT arb_check CHECK (a < 1000000),
	CONSTRAINT arb_ex EXCLUDE USING btree (h WITH =)
);
CREATE UNIQUE INDEX arb_expr ON arb (lower(e));
CREATE UNIQUE INDEX arb_expr2 ON arb ((a + b), e);
CREATE UNIQUE INDEX arb_part ON arb (g) WHERE g > 10;
CREATE UNIQUE INDEX arb_using ON arb ((e || ' USING (x)'));
CREATE UNIQUE INDEX arb_desc ON arb (b DESC NULLS LAST, c);
CREATE UNIQUE INDEX arb_coll ON arb (e COLLATE "C");
CREATE UNIQUE INDEX arb_ops ON arb (e text_pattern_ops, id);
CREATE UNIQUE INDEX "arb_Mixed" ON arb (c, id);
CREATE UNIQUE INDEX arb_hash_text ON arb (md5(e), (e IS NULL)) WHERE e <> ' where ';
CREATE UNIQUE INDEX arb_incl2 ON arb (d, id) INCLUDE (a) WITH (fillfactor = 70);
CREATE INDEX arb_plain ON arb (c);
CREATE VIEW arb_view AS SELECT * FROM arb;
CREATE MATERIALIZED VIEW arb_mat AS SELECT * FROM arb;
CREATE TABLE part (id int, key int NOT NULL, name text NOT NULL, PRIMARY KEY (id)) PARTITION BY RANGE (id);
CREATE TABLE part1 PARTITION OF part FOR VALUES FROM (0) TO (1000000);
CREATE FUNCTION other.hidden(int) RETURNS int LANGUAGE sql IMMUTABLE AS 'SELECT $1';
CREATE FUNCTION two(int, int) RETURNS int LANGUAGE sql IMMUTABLE AS 'SELECT $1 + $2';
CREATE FUNCTION one(int) RETURNS int LANGUAGE sql IMMUTABLE AS 'SELECT $1 + 1';
CREATE FUNCTION one(text) RETURNS text LANGUAGE sql IMMUTABLE AS 'SELECT $1 || ''1''';
CREATE FUNCTION manyof(int) RETURNS SETOF int LANGUAGE sql IMMUTABLE AS 'SELECT $1';
CREATE FUNCTION nothing(int) RETURNS void LANGUAGE sql AS 'SELECT';
CREATE PROCEDURE proc(int) LANGUAGE sql AS 'SELECT 1';
`

const c16RefTypes = `
type It struct {
	Key  int    ~sql:"key"~
	Name string ~sql:"name"~
}
type ItK struct {
	ID   int    ~sql:"id,pk"~
	Key  int    ~sql:"key"~
	Name string ~sql:"name"~
}
type It2 struct {
	Grade int    ~sql:"grade"~
	Label string ~sql:"label"~
}
type Arb struct {
	ID int ~sql:"id"~
	A  int ~sql:"a"~
	B  int ~sql:"b"~
	C  *int ~sql:"c"~
	D  *int ~sql:"d"~
	E  *string ~sql:"e"~
	F  *int ~sql:"f"~
	G  *int ~sql:"g"~
	H  *int ~sql:"h"~
}
`

// relation is what the model knows of a relation.
type relation struct {
	name string
	cols map[string]string // column -> Go type
}

var (
	relItems  = relation{"items", map[string]string{"id": "int", "key": "int", "name": "string", "fruit": "*string", "value": "*int", "ver": "int", "tag": "*string", "ratio": "*float64", "done": "bool"}}
	relOwners = relation{"owners", map[string]string{"oid_": "int", "item_key": "*int", "grade": "int", "label": "string"}}
	relBadges = relation{"badges", map[string]string{"bid": "int", "owner_id": "*int", "label": "string"}}
)

// scope is the set of relations that a declaration's columns may name.
type scope map[string]relation

func (s scope) resolve(ref string) (typ string, ok bool) {
	q, n, has := strings.Cut(ref, ".")
	if !has {
		q, n = "", ref
	}
	typ, ok = s[q].cols[n]
	return
}

func c16Refs(r *vf.Run) (out []*Case) {
	seen := map[string]bool{}
	add := func(key, kind, body, want string) *Case {
		if seen[key] {
			return nil
		}
		seen[key] = true
		c := live(&Case{Key: "ref/" + key, Kind: kind, Body: body}, nil)
		c.Want = want
		if want == "" && strings.Contains(body, "FullJoin") {
			c.Job = nil // FULL JOIN takes merge-joinable conditions only
		}
		out = append(out, c)
		return c
	}
	verdict := func(ok bool) string {
		if ok {
			return "accept"
		}
		return "reject"
	}
	tg := func(s string) string { return "`sql:\"" + s + "\"`" }

	// 1. columns, in queries with two further relations
	quals := []string{"", "i.", "o.", "b.", "x.", "items.", "owners."}
	names := []string{"key", "name", "value", "tag", "grade", "label", "item_key", "bid", "nosuch", "KEY", "keys", "ctid", "fruit"}
	type shape struct {
		key, kind, rel, join string
		alias                bool // of the target
	}
	shapes := []shape{
		{"select", "Select", "Rel []*It `rel:\"items:i\"`", "Join struct {\n_ gosql.LeftJoin " + tg("owners:o,o.item_key = i.key") + "\n_ gosql.LeftJoin " + tg("badges:b,b.owner_id = o.oid_") + "\n}", true},
		{"select-noalias", "Select", "Rel []*It `rel:\"items\"`", "Join struct {\n_ gosql.LeftJoin " + tg("owners,owners.item_key = items.key") + "\n_ gosql.LeftJoin " + tg("badges:b,b.owner_id = owners.oid_") + "\n}", false},
		{"select-alone", "Select", "Rel []*It `rel:\"items:i\"`", "", true},
		{"count", "Select", "Count int `rel:\"items:i\"`", "Join struct {\n_ gosql.InnerJoin " + tg("owners:o,o.item_key = i.key") + "\n_ gosql.InnerJoin " + tg("badges:b,b.owner_id = o.oid_") + "\n}", true},
		{"update", "Update", "Rel *It `rel:\"items:i\"`", "From struct {\n_ gosql.Relation " + tg("owners:o") + "\n_ gosql.InnerJoin " + tg("badges:b,b.owner_id = o.oid_") + "\n}", true},
		{"delete", "Delete", "_ gosql.Relation `rel:\"items:i\"`", "Using struct {\n_ gosql.Relation " + tg("owners:o") + "\n_ gosql.InnerJoin " + tg("badges:b,b.owner_id = o.oid_") + "\n}", true},
	}
	for _, sh := range shapes {
		sc := scope{}
		switch {
		case !sh.alias:
			sc[""], sc["items"], sc["owners"], sc["b"] = relItems, relItems, relOwners, relBadges
		case sh.join == "":
			sc[""], sc["i"] = relItems, relItems
		default:
			sc[""], sc["i"], sc["o"], sc["b"] = relItems, relItems, relOwners, relBadges
		}
		base := sh.rel + "\n" + sh.join + "\n"
		guard := "" // what else selects the rows
		for _, q := range quals {
			for _, n := range names {
				ref := q + n
				typ, ok := sc.resolve(ref)
				gt := typ
				if !ok {
					gt = "int"
				}
				want := verdict(ok)
				add(sh.key+"/where/"+ref, sh.kind, base+guard+"Where struct {\nX "+gt+" "+tg(ref)+"\n}", want)
				add(sh.key+"/where-nested/"+ref, sh.kind, base+"Where struct {\nA int "+tg("key")+"\nN struct {\nB int "+tg("ver")+"\nX "+gt+" `sql:\""+ref+"\" bool:\"or\"`\n} "+tg(">")+"\n}", want)
				add(sh.key+"/where-col/"+ref, sh.kind, base+"Where struct {\n_ gosql.Column "+tg(ref+" = "+ref)+"\n}", want)
				add(sh.key+"/where-isin/"+ref, sh.kind, base+"Where struct {\nX []"+strings.TrimPrefix(gt, "*")+" "+tg(ref+" isin")+"\n}", want)
				add(sh.key+"/where-distinct/"+ref, sh.kind, base+"Where struct {\n_ gosql.Column "+tg(ref+" isdistinct "+ref)+"\n}", want)
				isint := strings.HasSuffix(gt, "int")
				w2 := want
				if ok && !isint {
					w2 = "reject" // no such operator
				}
				if ok && typ == "*float64" {
					w2 = "accept"
				}
				add(sh.key+"/where-rhs/"+ref, sh.kind, base+"Where struct {\n_ gosql.Column "+tg("key = "+ref)+"\n}", w2)
				add(sh.key+"/between/"+ref, sh.kind, base+"Where struct {\nX struct {\nA "+gt+" "+tg("x")+"\nB "+gt+" "+tg("y")+"\n} "+tg(ref+" isbetween")+"\n}", ifs(typ == "bool", "", want))
				add(sh.key+"/between-bound/"+ref, sh.kind, base+"Where struct {\nX struct {\nA int "+tg("x")+"\n_ gosql.Column "+tg(ref+",y")+"\n} "+tg("key isbetween")+"\n}", w2)
				if sh.kind == "Select" && !strings.HasPrefix(sh.rel, "Count") {
					add(sh.key+"/order/"+ref, sh.kind, base+"_ gosql.OrderBy "+tg(ref), want)
					add(sh.key+"/order2/"+ref, sh.kind, base+"_ gosql.OrderBy "+tg("key,-"+ref+":nullsfirst"), want)
				}
			}
		}
	}
	// join conditions: the left side is a column of the joined relation, the right side of any
	for _, q := range quals {
		for _, n := range names {
			ref := q + n
			for _, jt := range []string{"LeftJoin", "InnerJoin", "FullJoin"} {
				sc := scope{"": relItems, "i": relItems, "o": relOwners, "b": relBadges}
				typ, ok := sc.resolve(ref)
				isint := strings.HasSuffix(typ, "int")
				rhs := verdict(ok && (isint || typ == "*float64"))
				mk := func(on1, on2 string) string {
					return "Rel []*It `rel:\"items:i\"`\nJoin struct {\n_ gosql." + jt + " " + tg("owners:o,"+on1) + "\n_ gosql." + jt + " " + tg("badges:b,"+on2) + "\n}"
				}
				if jt == "FullJoin" && rhs == "accept" {
					rhs = "" // FULL JOIN is supported with merge-joinable conditions only
				}
				// only relations joined so far may be named in a join condition
				early := rhs
				if strings.HasPrefix(ref, "b.") {
					early = "reject"
				}
				add("join/"+jt+"/rhs/"+ref, "Select", mk("o.item_key = i.key", "b.owner_id = "+ref), rhs)
				add("join/"+jt+"/rhs-early/"+ref, "Select", mk("o.item_key = "+ref, "b.owner_id = o.oid_"), early)
				_, ok = scope{"b": relBadges}.resolve(ref)
				if ok && typ != "" && isint || !ok {
					w := verdict(ok)
					if jt == "FullJoin" && ok || q == "" {
						w = "" // without a qualifier it may be a column of the joined relation
					}
					add("join/"+jt+"/lhs/"+ref, "Select", mk("o.item_key = i.key", ref+" = o.oid_"), w)
				}
			}
		}
	}
	// 2. columns of the target, in directives and fields
	var refs []string
	for _, q := range []string{"", "i.", "x.", "items.", "o."} {
		for _, n := range names {
			refs = append(refs, q+n)
		}
	}
	sc := scope{"": relItems, "i": relItems}
	for _, ref := range refs {
		_, ok := sc.resolve(ref)
		want := verdict(ok)
		_, plainName, _ := strings.Cut("."+ref, ".")
		if strings.Contains(ref, ".") {
			plainName = ref[strings.IndexByte(ref, '.')+1:]
		}
		inRec := plainName == "key" || plainName == "name"
		// what is returned has to be a field of the record as well
		ret := want
		if !inRec {
			ret = "reject"
		}
		for _, k := range []string{"Insert", "Update", "Delete"} {
			extra := ""
			if k != "Insert" {
				extra = "Where struct {\nW int " + tg("key") + "\n}\n"
			}
			body := "Rel *It `rel:\"items:i\"`\n"
			if k == "Delete" {
				body = "Rel []*It `rel:\"items:i\"`\n"
			}
			add("return/"+k+"/"+ref, k, body+extra+"_ gosql.Return "+tg(ref), ret)
			add("return2/"+k+"/"+ref, k, body+extra+"_ gosql.Return "+tg("name,"+ref), ifs(plainName == "name", "", ret))
			if k == "Delete" {
				continue
			}
			add("force/"+k+"/"+ref, k, body+extra+"_ gosql.Force "+tg(ref), ret)
			add("default/"+k+"/"+ref, k, body+extra+"_ gosql.Default "+tg(ref), ifs(ret == "accept" || ok, "", "reject"))
		}
		add("conflict-update/"+ref, "Insert", "Rel *It `rel:\"items:i\"`\nOnConflict struct {\n_ gosql.Column "+tg("key")+"\n_ gosql.Update "+tg(ref)+"\n}", ifs(ref == "i.key" || ref == "key" || ret == "accept" || ok, "", "reject"))
		add("conflict-column/"+ref, "Insert", "Rel *It `rel:\"items:i\"`\nOnConflict struct {\n_ gosql.Column "+tg(ref)+"\n_ gosql.Ignore\n}", verdict(ok && plainName == "key"))
		add("conflict-columns/"+ref, "Insert", "Rel *It `rel:\"items:i\"`\nOnConflict struct {\n_ gosql.Column "+tg("name,"+ref)+"\n_ gosql.Ignore\n}", verdict(ok && plainName == "tag"))
		// record fields; inline records are given as types of their own
		gt, _ := sc.resolve(ref)
		if gt == "" {
			gt = "int"
		}
		rec := "struct {\nKey int " + tg("key") + "\nF " + gt + " " + tg(ref) + "\n}"
		if plainName == "key" {
			rec = "struct {\nF " + gt + " " + tg(ref) + "\n}"
		}
		fw := want
		if ok && ref == "i.key" {
			fw = "accept"
		}
		tn := "Rec" + strings.NewReplacer(".", "Q").Replace(ref) + fmt.Sprint(len(out))
		for _, c := range []*Case{
			add("field/Select/"+ref, "Select", "Rel []*"+tn+"S `rel:\"items:i\"`", fw),
			add("field/Update/"+ref, "Update", "Rel *"+tn+"U `rel:\"items:i\"`\nWhere struct {\nW int "+tg("key")+"\n}", fw),
			add("field/Insert/"+ref, "Insert", "Rel *"+tn+"I `rel:\"items:i\"`", fw),
			add("field/Result/"+ref, "Update", "Rel *It `rel:\"items:i\"`\nResult []*"+tn+"R\nWhere struct {\nW int "+tg("key")+"\n}", fw),
			add("field/Return/"+ref, "Delete", "Rel []*"+tn+"D `rel:\"items:i\"`\n_ gosql.All\n_ gosql.Return "+tg("*"), ifs(ok, "accept", "")),
		} {
			if c != nil {
				i := strings.Index(c.Body, tn) + len(tn)
				c.Extra = "type " + tn + c.Body[i:i+1] + " " + rec + "\n"
			}
		}
	}
	// the same with another relation joined that has columns of the same names
	for _, q := range []string{"", "i.", "j.", "x.", "items."} {
		for _, n := range []string{"key", "name", "ver", "nosuch"} {
			ref := q + n
			ok := (q == "" || q == "i.") && n != "nosuch"
			rec := func(tn, f string) string {
				return "type " + tn + " struct {\nKey int " + tg("i.key") + "\nF " + ifs(n == "name", "string", "int") + " " + tg(f) + "\n}\n"
			}
			for _, k := range []string{"Update", "Delete"} {
				from := "From struct {\n_ gosql.Relation " + tg("items:j") + "\n}\nWhere struct {\n_ gosql.Column " + tg("j.key = i.key") + "\n}\n"
				if k == "Delete" {
					from = "Using" + from[4:]
				}
				body := "Rel *It `rel:\"items:i\"`\n" + from
				it := ok && n != "ver"
				add("self/return/"+k+"/"+ref, k, body+"_ gosql.Return "+tg(ref), verdict(it))
				add("self/return2/"+k+"/"+ref, k, body+"_ gosql.Return "+tg("key,"+ref), ifs(n == "key", "", verdict(it)))
				if k == "Update" {
					add("self/force/"+ref, k, body+"_ gosql.Force "+tg(ref), verdict(it))
					add("self/default/"+ref, k, body+"_ gosql.Default "+tg(ref), ifs(ok, "", "reject"))
				}
				tn := fmt.Sprintf("Self%d", len(out))
				if n != "key" {
					fw := verdict(ok)
					c := add("self/field/"+k+"/"+ref, k, "Rel *"+tn+" `rel:\"items:i\"`\n"+from, fw)
					if k == "Delete" {
						c.Want = ""
					}
					c.Extra = rec(tn, ref)
				}
				// results may hold columns of what is joined
				c := add("self/result/"+k+"/"+ref, k, "_ gosql.Relation `rel:\"items:i\"`\n"+from+"Result []*"+tn+"R\n", verdict((ok || q == "j.") && n != "nosuch"))
				if k == "Update" {
					c.Body = strings.Replace(c.Body, "_ gosql.Relation `rel", "Rel *It `rel", 1)
				}
				c.Extra = rec(tn+"R", ref)
				if n == "key" {
					c.Extra = strings.Replace(c.Extra, "Key int "+tg("i.key")+"\n", "", 1)
				}
			}
		}
	}
	// 3. relations
	rels := []struct {
		id, want string
	}{
		{"items", "accept"}, {"items:i", "accept"}, {"public.items", "accept"}, {"public.items:i", "accept"}, {"nosuch", "reject"}, {"nosuch:i", "reject"},
		{"public.nosuch:i", "reject"}, {"nosuch.items:i", "reject"}, {"other.items:i", "reject"}, {"only:i", "reject"}, {"public.only:i", "reject"}, {"other.only:i", "accept"},
		{"Items:i", "reject"}, {"ITEMS", "reject"}, {"item", "reject"}, {"items_", "reject"}, {"items_fruit:i", "reject"}, {"items_pkey:i", "reject"}, {"mood:i", "reject"}, {"part:i", "accept"}, {"arb_view:i", ""},
	}
	for _, rl := range rels {
		_, alias, has := strings.Cut(rl.id, ":")
		if !has {
			alias = rl.id[strings.IndexByte(rl.id, '.')+1:]
		}
		for _, t := range []struct{ key, kind, body string }{
			{"select", "Select", "Rel []*It `rel:\"§\"`"}, {"one", "Select", "Rel *It `rel:\"§\"`\nWhere struct {\nX int " + tg("key") + "\n}"}, {"count", "Select", "Count int `rel:\"§\"`"}, {"exists", "Select", "Exists bool `rel:\"§\"`"},
			{"update", "Update", "Rel *It `rel:\"§\"`\nWhere struct {\nX int " + tg("key") + "\n}"}, {"update-all", "Update", "Rel *It `rel:\"§\"`\n_ gosql.All"}, {"delete", "Delete", "_ gosql.Relation `rel:\"§\"`\nWhere struct {\nX int " + tg("key") + "\n}"},
			{"delete-all", "Delete", "_ gosql.Relation `rel:\"§\"`\n_ gosql.All"}, {"delete-return", "Delete", "Rel []*It `rel:\"§\"`\n_ gosql.All\n_ gosql.Return " + tg("*")},
			{"join", "Select", "Rel []*It2 `rel:\"owners:t\"`\nJoin struct {\n_ gosql.LeftJoin " + tg("§,ALIAS.key = t.item_key") + "\n}"}, {"cross", "Select", "Rel []*It2 `rel:\"owners:t\"`\nJoin struct {\n_ gosql.CrossJoin " + tg("§") + "\n}"},
			{"joined-last", "Select", "Rel []*It2 `rel:\"owners:t\"`\nJoin struct {\n_ gosql.LeftJoin " + tg("badges:b,b.owner_id = t.oid_") + "\n_ gosql.RightJoin " + tg("§,ALIAS.key = t.item_key") + "\n}"},
			{"using", "Delete", "_ gosql.Relation `rel:\"owners:t\"`\nUsing struct {\n_ gosql.Relation " + tg("§") + "\n}\nWhere struct {\n_ gosql.Column " + tg("t.item_key = ALIAS.key") + "\n}"},
			{"using-join", "Delete", "_ gosql.Relation `rel:\"owners:t\"`\nUsing struct {\n_ gosql.Relation " + tg("badges:b") + "\n_ gosql.LeftJoin " + tg("§,ALIAS.key = b.owner_id") + "\n}\nWhere struct {\n_ gosql.Column " + tg("t.oid_ = b.owner_id") + "\n}"},
			{"from", "Update", "Rel *It2 `rel:\"owners:t\"`\nFrom struct {\n_ gosql.Relation " + tg("§") + "\n}\nWhere struct {\n_ gosql.Column " + tg("t.item_key = ALIAS.key") + "\n}"},
			{"from-join", "Update", "Rel *It2 `rel:\"owners:t\"`\nFrom struct {\n_ gosql.Relation " + tg("badges:b") + "\n_ gosql.LeftJoin " + tg("§,ALIAS.key = b.owner_id") + "\n}\nWhere struct {\n_ gosql.Column " + tg("t.oid_ = b.owner_id") + "\n}"},
			{"insert", "Insert", "Rel *It `rel:\"§\"`"},
		} {
			want := rl.want
			if strings.HasSuffix(rl.id, "only:i") && want == "accept" && (t.key == "insert") {
				want = "" // id has no default
			}
			body := strings.ReplaceAll(strings.ReplaceAll(t.body, "§", rl.id), "ALIAS", alias)
			add("relation/"+t.key+"/"+rl.id, t.kind, body, want)
		}
	}
	// names used twice
	for _, d := range []struct{ t, j, want string }{
		{"items:a", "owners:a", "reject"}, {"items", "items", "reject"}, {"items:i", "items", "accept"}, {"items", "items:i", "accept"}, {"items:owners", "owners", "reject"}, {"items", "owners:items", "reject"},
		{"items:x", "owners:y", "accept"}, {"items", "public.items", ""}, {"items:i", "owners:I", ""},
	} {
		_, ja, has := strings.Cut(d.j, ":")
		if !has {
			ja = d.j[strings.IndexByte(d.j, '.')+1:]
		}
		key, tgt := "item_key", ja+".item_key = "
		if strings.Contains(d.j, "items") && !strings.HasPrefix(d.j, "owners") {
			key, tgt = "key", ja+".key = "
		}
		_ = key
		add("twice/join/"+d.t+"/"+d.j, "Select", "Rel []*It `rel:\""+d.t+"\"`\nJoin struct {\n_ gosql.LeftJoin "+tg(d.j+","+tgt+"10")+"\n}", d.want)
		add("twice/cross/"+d.t+"/"+d.j, "Select", "Count int `rel:\""+d.t+"\"`\nJoin struct {\n_ gosql.CrossJoin "+tg(d.j)+"\n}", d.want)
		add("twice/joins/"+d.t+"/"+d.j, "Select", "Count int `rel:\"toys:zz\"`\nJoin struct {\n_ gosql.CrossJoin "+tg(d.t)+"\n_ gosql.LeftJoin "+tg(d.j+","+tgt+"10")+"\n}", d.want)
		add("twice/using/"+d.t+"/"+d.j, "Delete", "_ gosql.Relation `rel:\""+d.t+"\"`\nUsing struct {\n_ gosql.Relation "+tg(d.j)+"\n}\nWhere struct {\nX int "+tg("key")+"\n}", d.want)
		add("twice/from/"+d.t+"/"+d.j, "Update", "Rel *It `rel:\""+d.t+"\"`\nFrom struct {\n_ gosql.Relation "+tg(d.j)+"\n}\nWhere struct {\nX int "+tg("ver")+"\n}", d.want)
	}
	// 4. what INSERT ... ON CONFLICT refers to
	for _, x := range []struct{ dir, what string }{{"Index", "index"}, {"Constraint", "constraint"}} {
		for _, n := range []struct{ name, index, constraint string }{
			{"arb_pkey", "accept", "accept"}, {"arb_ab", "accept", "accept"}, {"arb_c", "", ""}, {"arb_d", "accept", "accept"}, {"arb_inc", "accept", "accept"}, {"arb_check", "reject", "reject"}, {"arb_ex", "", "reject"},
			{"arb_expr", "accept", "reject"}, {"arb_expr2", "accept", "reject"}, {"arb_part", "accept", "reject"}, {"arb_using", "accept", "reject"}, {"arb_desc", "accept", "reject"}, {"arb_coll", "accept", "reject"}, {"arb_ops", "accept", "reject"},
			{"arb_Mixed", "accept", "reject"}, {"arb_mixed", "reject", "reject"}, {"arb_hash_text", "accept", "reject"}, {"arb_incl2", "accept", "reject"}, {"arb_plain", "reject", "reject"}, {"items_key", "reject", "reject"}, {"items_pkey", "reject", "reject"},
			{"nosuch", "reject", "reject"}, {"arb", "reject", "reject"}, {"ARB_AB", "reject", "reject"}, {"a", "reject", "reject"},
		} {
			want := n.index
			if x.dir == "Constraint" {
				want = n.constraint
			}
			for _, act := range []string{"_ gosql.Ignore", "_ gosql.Update " + tg("b"), "_ gosql.Update " + tg("*")} {
				for _, rel := range []string{"Rel *Arb `rel:\"arb:t\"`", "Rel []*Arb `rel:\"arb\"`"} {
					add(fmt.Sprintf("%s/%s/%s/%s", x.what, n.name, strings.Fields(act)[1]+strings.Trim(act[len(act)-2:], "`"), rel[4:6]), "Insert", rel+"\nOnConflict struct {\n_ gosql."+x.dir+" "+tg(n.name)+"\n"+act+"\n}", want)
				}
			}
		}
	}
	// every list of up to three columns as the conflict target
	cols := []string{"id", "a", "b", "c", "d", "e", "f", "g", "h", "nosuch"}
	uniq := map[string]string{"id": "accept", "a,b": "accept", "b,c": "accept", "c,id": "accept", "d": "accept", "f": "accept", "d,id": "accept", "e,id": "accept", "c": "", "h": "", "g": "accept", "e": "accept"}
	var lists [][]string
	for _, a := range cols {
		lists = append(lists, []string{a})
		for _, b := range cols {
			lists = append(lists, []string{a, b})
			if r.Thorough() {
				for _, c := range cols {
					lists = append(lists, []string{a, b, c})
				}
			}
		}
	}
	for _, l := range lists {
		set := map[string]bool{}
		for _, x := range l {
			set[x] = true
		}
		var k []string
		for _, x := range append([]string{"a", "b", "c", "d", "e", "f", "g", "h", "nosuch"}, "id") {
			if set[x] {
				k = append(k, x)
			}
		}
		want, ok := uniq[strings.Join(k, ",")]
		if !ok {
			want = "reject"
		}
		if len(k) != len(l) {
			want = ifs(want == "reject", "", "") // a column given twice: what is accepted has to work
		}
		for _, act := range []string{"_ gosql.Ignore", "_ gosql.Update " + tg("b")} {
			add("conflict-list/"+strings.Join(l, ",")+"/"+act[8:14], "Insert", "Rel *Arb `rel:\"arb:t\"`\nOnConflict struct {\n_ gosql.Column "+tg(strings.Join(l, ","))+"\n"+act+"\n}", want)
		}
	}
	// 5. functions
	for _, f := range []struct{ fn, col, typ, want string }{
		{"lower", "name", "string", "accept"}, {"upper", "name", "string", "accept"}, {"nosuch", "name", "string", "reject"}, {"Lower", "name", "string", ""}, {"two", "key", "int", "reject"}, {"hidden", "key", "int", "reject"},
		{"other", "key", "int", "reject"}, {"one", "key", "int", "reject"}, {"one", "name", "string", "accept"}, {"lower", "key", "int", ""}, {"abs", "name", "string", "reject"}, {"abs", "key", "int", "accept"}, {"sum", "key", "int", "reject"}, {"max", "key", "int", "reject"},
		{"count", "key", "int", "reject"}, {"manyof", "key", "int", "reject"}, {"nothing", "key", "int", "reject"}, {"proc", "key", "int", "reject"}, {"row_number", "key", "int", "reject"}, {"ntile", "key", "int", "reject"}, {"length", "name", "string", "accept"}, {"md5", "name", "string", "accept"},
		{"array_agg", "key", "int", "reject"}, {"unnest", "key", "int", "reject"}, {"generate_series", "key", "int", "reject"}, {"random", "key", "int", "reject"}, {"now", "key", "int", "reject"},
	} {
		for _, q := range []string{"", "i."} {
			for _, op := range []string{"", " =", " >="} {
				add("func/"+f.fn+"/"+q+f.col+op, "Select", "Rel []*It `rel:\"items:i\"`\nWhere struct {\nX "+f.typ+" "+tg(q+f.col+op+",@"+f.fn)+"\n}", f.want)
				add("func-delete/"+f.fn+"/"+q+f.col+op, "Delete", "_ gosql.Relation `rel:\"items:i\"`\nWhere struct {\nX "+f.typ+" "+tg(q+f.col+op+",@"+f.fn)+"\n}", f.want)
			}
		}
	}
	// records of which nothing is read or written, and records with a column twice
	recs := map[string]string{
		"none": "struct {\nA int\nB string `sql:\"-\"`\n}", "wo": "struct {\nKey int `sql:\"key,wo\"`\nName string `sql:\"name,wo\"`\n}", "ro": "struct {\nKey int `sql:\"key,ro\"`\nName string `sql:\"name,ro\"`\n}",
		"pk": "struct {\nID int `sql:\"id,pk\"`\n}", "pkro": "struct {\nID int `sql:\"id,pk,ro\"`\nKey int `sql:\"key,ro\"`\n}", "idro": "struct {\nID int `sql:\"id,ro\"`\n}", "xf": "struct {\nKey int `sql:\"key,xf\"`\nName string `sql:\"name,xf\"`\n}",
		"dup": "struct {\nA int `sql:\"key\"`\nB int `sql:\"key\"`\n}", "dupq": "struct {\nA int `sql:\"key\"`\nB int `sql:\"i.key\"`\n}", "dupnest": "struct {\nA int `sql:\"key\"`\nIt `sql:\">\"`\n}", "dupro": "struct {\nA int `sql:\"key\"`\nB int `sql:\"key,ro\"`\n}",
		"duppk": "struct {\nA int `sql:\"id,pk\"`\nB int `sql:\"id,pk\"`\nN string `sql:\"name\"`\n}", "dupwo": "struct {\nA int `sql:\"key,wo\"`\nB int `sql:\"key,ro\"`\nN string `sql:\"name\"`\n}", "dupmode": "struct {\nA int `sql:\"key,+i\"`\nB int `sql:\"key,+u\"`\nN string `sql:\"name\"`\n}",
	}
	var recNames []string
	for n := range recs {
		recNames = append(recNames, n)
	}
	sort.Strings(recNames)
	for _, name := range recNames {
		rec := recs[name]
		type q struct{ key, kind, body string }
		for _, q := range []q{
			{"select", "Select", "Rel []*§ `rel:\"items:i\"`"}, {"one", "Select", "Rel *§ `rel:\"items:i\"`"}, {"iter", "Select", "Rel func(*§) error `rel:\"items:i\"`"}, {"insert", "Insert", "Rel *§ `rel:\"items:i\"`"}, {"inserts", "Insert", "Rel []*§ `rel:\"items:i\"`"}, {"update", "Update", "Rel *§ `rel:\"items:i\"`\nWhere struct {\nX int " + tg("key") + "\n}"},
			{"updates", "Update", "Rel []*§ `rel:\"items:i\"`"}, {"updatepk", "Update", "Rel *§ `rel:\"items:i\"`"}, {"return", "Delete", "Rel []*§ `rel:\"items:i\"`\n_ gosql.All\n_ gosql.Return " + tg("*")}, {"return-insert", "Insert", "Rel *§ `rel:\"items:i\"`\n_ gosql.Return " + tg("*")}, {"return-update", "Update", "Rel *§ `rel:\"items:i\"`\n_ gosql.All\n_ gosql.Return " + tg("*")},
			{"result", "Update", "Rel *It `rel:\"items:i\"`\nResult []*§\nWhere struct {\nX int " + tg("key") + "\n}"}, {"force", "Insert", "Rel *§ `rel:\"items:i\"`\n_ gosql.Force " + tg("*")}, {"default", "Insert", "Rel *§ `rel:\"items:i\"`\n_ gosql.Default " + tg("*")}, {"defaults", "Insert", "Rel []*§ `rel:\"items:i\"`\n_ gosql.Default " + tg("*")}, {"conflict", "Insert", "Rel *§ `rel:\"items:i\"`\nOnConflict struct {\n_ gosql.Column " + tg("key") + "\n_ gosql.Update " + tg("*") + "\n}"},
			{"optional", "Select", "Rel []*§ `rel:\"items:i\"`\n_ gosql.Optional " + tg("*")}, {"optional-none", "Select", "Rel []*§ `rel:\"owners:i\"`\n_ gosql.Optional " + tg("*")},
		} {
			tn := fmt.Sprintf("Emp%d", len(out))
			if c := add("empty/"+name+"/"+q.key, q.kind, strings.ReplaceAll(q.body, "§", tn), ""); c != nil {
				c.Extra = "type " + tn + " " + rec + "\n"
			}
		}
	}
	// 6. literal expressions
	for _, l := range []struct{ col, lit, want string }{
		{"key", "1", "accept"}, {"key", "'1'", ""}, {"key", "1 + 1", "accept"}, {"key", "true", "reject"}, {"key", "now()", "reject"}, {"key", "1.5", "accept"}, {"key", "(SELECT 1)", ""}, {"key", "nosuch()", "reject"}, {"key", "1 +", "reject"}, {"key", "'a'::text", "reject"},
		{"name", "'x'", "accept"}, {"name", "1", "reject"}, {"name", "'x' || 'y'", "accept"}, {"name", "lower('X')", "accept"}, {"name", "'x'::mood", "reject"}, {"name", "'{x}'::text[]", "reject"}, {"done", "true", "accept"}, {"done", "1", "reject"}, {"ratio", "1", "accept"},
		{"seen", "now()", "accept"}, {"seen", "'2020-01-01'", ""}, {"seen", "1", "reject"}, {"seen", "current_date", "accept"}, {"key", "'red'::other.hue", "reject"}, {"name", "'red'::other.hue", "reject"}, {"key", "null", ""}, {"key", "'{1}'::int[]", "reject"}, {"key", "ROW(1)", "reject"},
		{"key", "i.key", ""}, {"key", "nosuch", "reject"}, {"key", "i.nosuch", "reject"}, {"key", "key + 1", ""}, {"key", "one(1)", "accept"}, {"key", "manyof(1)", ""}, {"key", "sum(1)", ""}, {"key", "nothing(1)", "reject"},
	} {
		for _, op := range []string{"=", "<", ">=", "<>", "isdistinct"} {
			lit := strings.ReplaceAll(l.lit, `"`, `\"`)
			add("literal/"+l.col+" "+op+" "+l.lit, "Select", "Rel []*It `rel:\"items:i\"`\nWhere struct {\n_ gosql.Column "+tg(l.col+" "+op+" "+lit)+"\n}", l.want)
			add("literal-join/"+l.col+" "+op+" "+l.lit, "Select", "Rel []*It2 `rel:\"owners:o\"`\nJoin struct {\n_ gosql.LeftJoin "+tg("items:i,i."+l.col+" "+op+" "+lit)+"\n}", l.want)
		}
	}
	return out
}

func ifs(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}
