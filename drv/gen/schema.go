package main

import (
	"database/sql"
	"fmt"
	"strings"

	"github.com/frk/gosql/internal/vfdrv/vf"
)

// The database the declarations refer to.  recs holds every combination of num, txt and flag.
const schemaSQL = `
SET timezone = 'UTC';
CREATE TYPE mood AS ENUM ('sad','ok','happy');
CREATE TABLE recs (
	id int PRIMARY KEY,
	num int,
	txt text NOT NULL,
	flag bool,
	big int8 NOT NULL,
	note text,
	f8 float8,
	ts timestamptz NOT NULL,
	rank int NOT NULL,
	arr int[] NOT NULL,
	mood mood NOT NULL,
	"group" int NOT NULL,
	"MixedCase" int NOT NULL
);
INSERT INTO recs
SELECT i, n, t, f, 4000000000 + i % 4, (ARRAY[NULL,'','a'])[i % 3 + 1], (ARRAY[NULL,0,1.5])[(i / 2) % 3 + 1],
	timestamptz '2020-01-01 00:00:00Z' + (i % 5) * interval '36 hours 0.25 seconds', (i * 7) % 5, ARRAY[i % 2, i % 3],
	(ARRAY['sad','ok','happy']::mood[])[i % 3 + 1], i % 4, i % 3
FROM (
	SELECT row_number() OVER (ORDER BY tt.o, nn.o, ff.o)::int i, nn.n, tt.t, ff.f
	FROM (VALUES (1,NULL::int),(2,1),(3,2)) nn(o,n), (VALUES (1,'a'),(2,'B%'),(3,'ab')) tt(o,t), (VALUES (1,NULL::bool),(2,true),(3,false)) ff(o,f)
) x;
CREATE VIEW recs_view AS SELECT id, num, txt, flag, note FROM recs WHERE rank < 4;
CREATE TABLE recs_part (LIKE recs, PRIMARY KEY (id)) PARTITION BY RANGE (id);
CREATE TABLE recs_part_lo PARTITION OF recs_part FOR VALUES FROM (MINVALUE) TO (10);
CREATE TABLE recs_part_hi PARTITION OF recs_part FOR VALUES FROM (10) TO (MAXVALUE);
INSERT INTO recs_part SELECT * FROM recs WHERE rank < 4;
CREATE MATERIALIZED VIEW recs_mat AS SELECT * FROM recs WHERE rank > 1;
CREATE TABLE recs_base (LIKE recs INCLUDING ALL);
CREATE TABLE recs_heir (extra int) INHERITS (recs_base);
INSERT INTO recs_base SELECT * FROM recs WHERE id < 9;
INSERT INTO recs_heir SELECT *, 1 FROM recs WHERE id >= 9;
CREATE TABLE kids (
	kid int PRIMARY KEY,
	rec_id int,
	num int,
	txt text NOT NULL,
	flag bool,
	age int NOT NULL
);
INSERT INTO kids VALUES (1,1,1,'a',true,1),(2,1,2,'ab',NULL,2),(3,5,NULL,'B%',false,1),(4,14,2,'a',true,3),(5,NULL,1,'ab',true,2),(6,99,1,'a',false,1),(7,27,2,'ab',NULL,1),(8,14,1,'ab',false,2);
CREATE TABLE toys (
	tid int PRIMARY KEY,
	kid_id int,
	label text
);
INSERT INTO toys VALUES (1,1,'x'),(2,1,NULL),(3,4,'y'),(4,NULL,'x'),(5,7,'z'),(6,8,'x');

CREATE TABLE items (
	id serial PRIMARY KEY,
	key int NOT NULL,
	name text NOT NULL,
	fruit text DEFAULT 'apple',
	value int,
	ver int NOT NULL DEFAULT 1,
	tag text,
	seen timestamptz NOT NULL DEFAULT '2021-02-03 04:05:06Z',
	ratio float8,
	done bool NOT NULL DEFAULT false,
	CONSTRAINT items_key UNIQUE (key)
);
CREATE UNIQUE INDEX items_name_tag ON items (name, tag);
CREATE UNIQUE INDEX items_lower_tag ON items (lower(tag)) WHERE value > 100;
CREATE INDEX items_fruit ON items (fruit);
INSERT INTO items VALUES
	(1,10,'a','apple',NULL,1,'t1','2020-01-01 00:00:00Z',NULL,false),
	(2,20,'b','pear',0,2,NULL,'2020-01-02 00:00:00Z',0,true),
	(3,30,'c',NULL,5,3,'t3','2020-01-03 00:00:00Z',2.5,false),
	(4,40,'d','apple',7,4,'t4','2020-01-04 00:00:00Z',0.5,true);
SELECT setval('items_id_seq', 100);
CREATE TABLE owners (oid_ int PRIMARY KEY, item_key int, grade int NOT NULL, label text NOT NULL);
INSERT INTO owners VALUES (1,10,1,'x'),(2,20,2,'y'),(3,20,3,'x'),(4,77,1,'x'),(5,40,5,'z');
CREATE TABLE badges (bid int PRIMARY KEY, owner_id int, label text NOT NULL);
INSERT INTO badges VALUES (1,1,'p'),(2,3,'q'),(3,5,'p');
CREATE TABLE idents (
	id int GENERATED ALWAYS AS IDENTITY PRIMARY KEY,
	alt int GENERATED BY DEFAULT AS IDENTITY,
	name text NOT NULL
);
INSERT INTO idents OVERRIDING SYSTEM VALUE VALUES (1,1,'a'),(2,2,'b');
SELECT setval('idents_id_seq', 50), setval('idents_alt_seq', 70);
CREATE TABLE pairs (
	a int NOT NULL,
	b int NOT NULL,
	val int NOT NULL DEFAULT 9,
	note text,
	PRIMARY KEY (a, b)
);
INSERT INTO pairs VALUES (1,1,11,NULL),(1,2,12,'x'),(2,1,21,'y'),(2,2,22,NULL);
CREATE TABLE parts (a int NOT NULL, b int NOT NULL, val int NOT NULL DEFAULT 9, note text, PRIMARY KEY (a, b)) PARTITION BY RANGE (a);
CREATE TABLE parts_lo PARTITION OF parts FOR VALUES FROM (MINVALUE) TO (2);
CREATE TABLE parts_hi PARTITION OF parts FOR VALUES FROM (2) TO (MAXVALUE);
INSERT INTO parts SELECT * FROM pairs;
CREATE TABLE nopk (num int, txt text);
INSERT INTO nopk VALUES (1,'a'),(1,'b'),(NULL,'c');
CREATE TABLE docs (id int PRIMARY KEY, body jsonb, raw json NOT NULL, doc tsvector, title text NOT NULL, tags text[] NOT NULL DEFAULT '{}', uid uuid);
INSERT INTO docs VALUES (1,'{"a":1}','{"b":2}',to_tsvector('simple','red fox'),'t1','{x,y}','11111111-1111-1111-1111-111111111111'),
	(2,NULL,'[1]',to_tsvector('simple','blue fox'),'t2','{}',NULL),(3,'{"a":3}','{}',NULL,'t3','{z}','33333333-3333-3333-3333-333333333333');
CREATE SCHEMA sec;
CREATE TABLE sec.recs (id int PRIMARY KEY, num int, txt text NOT NULL, flag bool);
INSERT INTO sec.recs VALUES (1,7,'sec',true),(2,NULL,'sec2',false);
`

// what resets the sequences within a transaction
const seqReset = `SELECT setval('items_id_seq', 100), setval('idents_id_seq', 50), setval('idents_alt_seq', 70)`

// setupDB creates the database and its copies for the workers.
func setupDB(r *vf.Run, workers int) (dsn string, dsns []string) {
	pg := r.StartPG()
	root := pg.Open(r, "postgres")
	r.Exec(root, "CREATE DATABASE fixture")
	fx := pg.Open(r, "fixture")
	for _, s := range schemaMore {
		r.Exec(fx, s)
	}
	r.Exec(fx, schemaSQL)
	for _, s := range schemaPost {
		r.Exec(fx, s)
	}
	fx.Close()
	for i := 0; i < workers; i++ {
		r.Exec(root, fmt.Sprintf("CREATE DATABASE w%d TEMPLATE fixture", i))
		dsns = append(dsns, pg.DSN(fmt.Sprintf("w%d", i)))
	}
	root.Close()
	return pg.URL("fixture"), dsns
}

var schemaMore, schemaPost []string

var _ *sql.DB

// leaf is a field of a record type: where it is, how its value is rendered, and the reference's
// expression for it (with @ for the relation's qualifier).
type leaf struct{ path, kind, expr string }

// record is a record type of the declarations.
type record struct {
	name      string
	src       string
	leaves    []leaf
	after     string
	ext       bool // declared in another package
	writeOnly bool
}

func (rc *record) jsonLeaves() (out []Leaf) {
	for _, l := range rc.leaves {
		out = append(out, Leaf{l.path, l.kind})
	}
	return
}

func (rc *record) cols(qual string) string {
	var b []string
	for _, l := range rc.leaves {
		b = append(b, strings.ReplaceAll(l.expr, "@", qual))
	}
	return strings.Join(b, ", ")
}

const tsText = `to_char(@.ts AT TIME ZONE 'UTC','YYYY-MM-DD"T"HH24:MI:SS.US')`

func c(col string) string { return "@." + col + "::text" }
func cz(col, zero string) string {
	return "coalesce(@." + col + ", " + zero + ")::text"
}

var records = []*record{
	{name: "Rec", src: `struct {
	ID   int    ~sql:"id"~
	Num  *int   ~sql:"num"~
	Txt  string ~sql:"txt"~
	Flag *bool  ~sql:"flag"~
}`, leaves: []leaf{{"ID", "", c("id")}, {"Num", "", c("num")}, {"Txt", "", c("txt")}, {"Flag", "", c("flag")}}},
	{name: "RecZ", src: `struct {
	ID   int     ~sql:"id"~
	Num  int     ~sql:"num"~
	Txt  string  ~sql:"txt"~
	Flag bool    ~sql:"flag"~
	Note string  ~sql:"note"~
	F8   float64 ~sql:"f8"~
}`, leaves: []leaf{{"ID", "", c("id")}, {"Num", "", cz("num", "0")}, {"Txt", "", c("txt")}, {"Flag", "", cz("flag", "false")}, {"Note", "", cz("note", "''")}, {"F8", "", cz("f8", "0")}}},
	{name: "RecFull", src: `struct {
	TS   time.Time ~sql:"ts"~
	Rank int16     ~sql:"rank"~
	Big  int64     ~sql:"big"~
	Note *string   ~sql:"note"~
	F8   *float64  ~sql:"f8"~
	ID   int32     ~sql:"id"~
	Num  *int64    ~sql:"num"~
	Grp  uint      ~sql:"group"~
	Mix  int       ~sql:"MixedCase"~
	Mood string    ~sql:"mood"~
	Arr  []int     ~sql:"arr"~
	Flag *bool     ~sql:"flag"~
	Txt  string    ~sql:"txt"~
}`, leaves: []leaf{{"TS", "", tsText}, {"Rank", "", c("rank")}, {"Big", "", c("big")}, {"Note", "", c("note")}, {"F8", "", c("f8")}, {"ID", "", c("id")}, {"Num", "", c("num")},
		{"Grp", "", c(`"group"`)}, {"Mix", "", c(`"MixedCase"`)}, {"Mood", "", c("mood")}, {"Arr", "json", `to_json(@.arr)::text`}, {"Flag", "", c("flag")}, {"Txt", "", c("txt")}}},
	{name: "RecNest", src: `struct {
	ID  int      ~sql:"id"~
	In  NestIn   ~sql:">"~
	Ptr *NestPtr ~sql:">"~
	Big int64    ~sql:"big"~
}
type NestIn struct {
	Num  *int      ~sql:"num"~
	Deep *NestDeep ~sql:">"~
}
type NestDeep struct {
	Txt string ~sql:"txt"~
}
type NestPtr struct {
	Flag *bool   ~sql:"flag"~
	Pfx  NestPfx ~sql:">no"~
}
type NestPfx struct {
	Te *string ~sql:"te"~
}`, leaves: []leaf{{"ID", "", c("id")}, {"In.Num", "", c("num")}, {"In.Deep.Txt", "", c("txt")}, {"Ptr.Flag", "", c("flag")}, {"Ptr.Pfx.Te", "", c("note")}, {"Big", "", c("big")}}},
	{name: "RecDeep", src: `struct {
	L1 *RecDeep1 ~sql:">"~
	ID int       ~sql:"id"~
}
type RecDeep1 struct {
	L2  RecDeep2 ~sql:">"~
	Num *int     ~sql:"num"~
}
type RecDeep2 struct {
	L3  *RecDeep3 ~sql:">"~
	Txt string    ~sql:"txt"~
}
type RecDeep3 struct {
	P RecDeepP  ~sql:">"~
	Q *RecDeepQ ~sql:">"~
	R RecDeepR  ~sql:">"~
}
type RecDeepP struct {
	X *RecDeepX ~sql:">"~
	Y RecDeepY  ~sql:">"~
}
type RecDeepQ struct {
	Big int64 ~sql:"big"~
}
type RecDeepR struct {
	Note *string ~sql:"note"~
}
type RecDeepX struct {
	Flag *bool ~sql:"flag"~
}
type RecDeepY struct {
	F8 *float64 ~sql:"f8"~
}`, leaves: []leaf{{"L1.L2.L3.P.X.Flag", "", c("flag")}, {"L1.L2.L3.P.Y.F8", "", c("f8")}, {"L1.L2.L3.Q.Big", "", c("big")}, {"L1.L2.L3.R.Note", "", c("note")}, {"L1.L2.Txt", "", c("txt")}, {"L1.Num", "", c("num")}, {"ID", "", c("id")}}},
	{name: "RecMode", src: `struct {
	ID   int    ~sql:"id"~
	Num  *int   ~sql:"num,wo"~
	Txt  string ~sql:"txt,-s"~
	Flag *bool  ~sql:"flag,ro"~
	Big  int64  ~sql:"-"~
	Note *string
	F8   *float64 ~sql:"f8,-w,xf"~
	Rank int      ~sql:"rank,-r,+s"~
	_    int      ~sql:"num"~
}`, leaves: []leaf{{"ID", "", c("id")}, {"Num", "", "'<NULL>'"}, {"Txt", "", "''"}, {"Flag", "", c("flag")}, {"Big", "", "'0'"}, {"Note", "", "'<NULL>'"}, {"F8", "", c("f8")}, {"Rank", "", c("rank")}}},
	{name: "RecClash", src: `struct {
	A  *ClashA ~sql:">"~
	AB *ClashB ~sql:">"~
}
type ClashA struct {
	ID int     ~sql:"id"~
	BC *ClashC ~sql:">"~
}
type ClashB struct {
	Num *int    ~sql:"num"~
	C   *ClashC ~sql:">"~
}
type ClashC struct {
	Txt string ~sql:"txt"~
}`, leaves: []leaf{{"A.ID", "", c("id")}, {"A.BC.Txt", "", c("txt")}, {"AB.Num", "", c("num")}, {"AB.C.Txt", "", c("txt")}}},
	{name: "RecA", src: `struct {
	ID   int    ~sql:"id"~
	Num  *int   ~sql:"num"~
	Txt  string ~sql:"txt"~
	N    int
	Seen string
}

func (r *RecA) AfterScan() { r.N++; r.Seen = r.Txt }
`, leaves: []leaf{{"ID", "", c("id")}, {"Num", "", c("num")}, {"Txt", "", c("txt")}, {"Seen", "", c("txt")}}, after: "N"},
	{name: "RecDup", src: `struct {
	ID   int    ~sql:"id"~
	Txt  string ~sql:"txt"~
	Txt2 string ~sql:"txt"~
	Num  *int   ~sql:"num"~
	Num2 int    ~sql:"num"~
}`, leaves: []leaf{{"ID", "", c("id")}, {"Txt", "", c("txt")}, {"Txt2", "", c("txt")}, {"Num", "", c("num")}, {"Num2", "", cz("num", "0")}}},
	{name: "RecEmb", src: `struct {
	EmbBase  ~sql:">"~
	*EmbMore ~sql:">"~
	Flag *bool ~sql:"flag"~
}
type EmbBase struct {
	ID  int  ~sql:"id"~
	Num *int ~sql:"num"~
}
type EmbMore struct {
	Txt string ~sql:"txt"~
}`, leaves: []leaf{{"EmbBase.ID", "", c("id")}, {"EmbBase.Num", "", c("num")}, {"EmbMore.Txt", "", c("txt")}, {"Flag", "", c("flag")}}},
	{name: "RecCoal", src: `struct {
	ID   int     ~sql:"id"~
	Num  int     ~sql:"num,coalesce(7)"~
	Note string  ~sql:"note,coalesce('none')"~
	Txt  string  ~sql:"txt,coalesce"~
	F8   float64 ~sql:"f8,coalesce(2.5)"~
}`, leaves: []leaf{{"ID", "", c("id")}, {"Num", "", cz("num", "7")}, {"Note", "", cz("note", "'none'")}, {"Txt", "", c("txt")}, {"F8", "", cz("f8", "2.5")}}},
	{name: "RecPtr", src: `struct {
	ID   *int    ~sql:"id"~
	Num  *int   ~sql:"num"~
	Txt  *string ~sql:"txt"~
	Flag *bool  ~sql:"flag"~
}`, leaves: []leaf{{"ID", "", c("id")}, {"Num", "", c("num")}, {"Txt", "", c("txt")}, {"Flag", "", c("flag")}}},
	{name: "RecNum", src: `struct {
	Num  *int  ~sql:"num"~
	Flag *bool ~sql:"flag"~
}`, leaves: []leaf{{"Num", "", c("num")}, {"Flag", "", c("flag")}}},
	{name: "RecOne", src: `struct {
	Txt string ~sql:"txt"~
}`, leaves: []leaf{{"Txt", "", c("txt")}}},
	{name: "RecAny", src: `struct {
	ID   int         ~sql:"id"~
	Note interface{} ~sql:"note"~
	Txt  ext.Str     ~sql:"txt"~
	Num  sql.NullInt64 ~sql:"num"~
}`, leaves: []leaf{{"ID", "", c("id")}, {"Note", "", c("note")}, {"Txt", "", c("txt")}, {"Num", "json", `format('{"Int64":%s,"Valid":%s}', coalesce(@.num,0), (@.num is not null)::text)`}}},
	{name: "ext.Rec", ext: true, leaves: []leaf{{"ID", "", c("id")}, {"Num", "", c("num")}, {"Txt", "", c("txt")}, {"In.Flag", "", c("flag")}}},
	{name: "ext2.Rec", ext: true, leaves: []leaf{{"ID", "", c("id")}, {"Txt", "", c("txt")}, {"Sub.Note", "", c("note")}}},
}

const extSrc = `package ext

import (
	"database/sql/driver"
	"fmt"
)

type Rec struct {
	ID     int    ~sql:"id"~
	Num    *int   ~sql:"num"~
	Txt    string ~sql:"txt"~
	hidden string ~sql:"note"~
	In     *In    ~sql:">"~
}

type In struct {
	Flag *bool ~sql:"flag"~
}

// Str is a scanner and a valuer.
type Str string

func (s Str) Value() (driver.Value, error) { return string(s), nil }
func (s *Str) Scan(src any) error {
	switch x := src.(type) {
	case string:
		*s = Str(x)
	case []byte:
		*s = Str(x)
	default:
		return fmt.Errorf("Str: %T", src)
	}
	return nil
}

type Iter interface{ Row(r *Rec) error }
type Func func(r *Rec) error

func ConvStr(v any) (any, error) { return v, nil }
func ConvRec(v any) (any, error) { return v, nil }
`

const ext2Src = `package ext

type Rec struct {
	ID  int    ~sql:"id"~
	Txt string ~sql:"txt"~
	Sub *Sub   ~sql:">"~
}

type Sub struct {
	Note *string ~sql:"note"~
}

func ConvRec(v any) (any, error) { return v, nil }
`

func bt(s string) string { return strings.ReplaceAll(s, "~", "`") }

func rec(name string) *record {
	for _, r := range records {
		if r.name == name {
			return r
		}
	}
	panic("no record type " + name)
}

const vfTypes = `
type EH struct{ vfrt.EH }
type EIH struct{ vfrt.EIH }
`

// typesSrc is the source of the record types; every package has its own copy.
func typesSrc(extra string) string {
	var b strings.Builder
	for _, r := range records {
		if !r.ext {
			b.WriteString("type " + r.name + " " + r.src + "\n\n")
			fmt.Fprintf(&b, "type %sIter interface{ Next(*%s) error }\ntype %sSink struct{ s *vfrt.Sink }\nfunc (i %sSink) Next(v *%s) error { return i.s.Row(v) }\ntype %sFunc func(%s) error\n\n", r.name, r.name, r.name, r.name, r.name, r.name, r.name)
		}
	}
	b.WriteString(vfTypes + `
type extSink struct{ s *vfrt.Sink }
func (i extSink) Row(v *ext.Rec) error { return i.s.Row(v) }

type NamedWhere struct {
	Num int ~sql:"r.num ="~
}
`)
	b.WriteString(extra)
	return bt(b.String())
}
