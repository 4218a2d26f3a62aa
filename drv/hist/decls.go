package main

const schema = `
CREATE TABLE users (id serial PRIMARY KEY, email text NOT NULL, name text, age int, tags text[] NOT NULL DEFAULT '{}', data jsonb, created timestamptz NOT NULL DEFAULT now(), p_id int, p_title text, p_user_id int,
	CONSTRAINT users_email UNIQUE (email));
CREATE UNIQUE INDEX users_name ON users (lower(name)) WHERE age > 3;
CREATE TABLE posts (id serial PRIMARY KEY, user_id int NOT NULL, title text NOT NULL, body text, num int DEFAULT 4, doc tsvector);
CREATE TABLE links (a int NOT NULL, b int NOT NULL, note text, PRIMARY KEY (a, b));
CREATE VIEW users_view AS SELECT id, email, name, age FROM users;
CREATE TABLE geo (id int PRIMARY KEY, r int4range, data jsonb, box box, ints int[], h inet, bits bit(1)[], chars char(3), vb varbit(1));
CREATE SCHEMA other;
CREATE TABLE other.users (id int PRIMARY KEY, email text, extra text);
CREATE TABLE dup (id int PRIMARY KEY, name text NOT NULL);
CREATE TABLE other.dup (id int PRIMARY KEY, name text, more int);
`

// The packages of one universe, by import path below vfh/.
var sources = map[string]map[string]string{
	"m": {"m.go": `package m

import "time"

type User struct {
	Id      int       ` + "`sql:\"id,ro\" json:\"Id\" db:\"uid\"`" + `
	Email   string    ` + "`sql:\"email\" json:\"mail\" db:\"email\"`" + `
	Name    *string   ` + "`sql:\"name\" json:\"name\"`" + `
	Created time.Time ` + "`sql:\"created,ro\" json:\"created\"`" + `
}

type Half struct {
	Id    int    ` + "`sql:\"id\"`" + `
	email string ` + "`sql:\"email\"`" + `
	Name  string ` + "`sql:\"name\"`" + `
}

type BadTag struct {
	Id    int    ` + "`sql:\"id\"`" + `
	Email string ` + "`sql:\"em-ail\"`" + `
	Name  string ` + "`sql:\"name\"`" + `
}

type BadCol struct {
	Id    int    ` + "`sql:\"id\"`" + `
	Email string ` + "`sql:\"nocol\"`" + `
}

type Post struct {
	Id     int    ` + "`sql:\"id,ro\"`" + `
	Title  string ` + "`sql:\"title\"`" + `
	UserId int    ` + "`sql:\"user_id\"`" + `
}

func (*Post) AfterScan() {}

type Users []*User

type Iter interface{ NextUser(*User) error }

func (h Half) String() string { return h.email }

type Text string
type Handler struct{}

func (Handler) HandleError(err error) error { return err }

type Arg struct{}
`},
	"x/m": {"m.go": `package m

type User struct {
	Id    int    ` + "`sql:\"id\" json:\"xid\"`" + `
	Email string ` + "`sql:\"email\" json:\"xmail\"`" + `
	Age   int    ` + "`sql:\"age\" json:\"xage\"`" + `
}

type Text string
`},
	"qa": {"types.go": `package qa

import (
	"time"

	"vfh/m"
	xm "vfh/x/m"
)

type User struct {
	Id    int    ` + "`sql:\"id\" json:\"id\" db:\"k\"`" + `
	Email string ` + "`sql:\"email\" json:\"email\"`" + `
	Age   int    ` + "`sql:\"age,nullempty\" json:\"age\"`" + `
	pass  string ` + "`sql:\"name\"`" + `
}

func (*User) AfterScan() {}

type Nested struct {
	Id   int ` + "`sql:\"id\" json:\"id\"`" + `
	Sub  *Sub ` + "`sql:\">\" json:\"sub\"`" + `
	Post *m.Post ` + "`sql:\">p_\" json:\"post\"`" + `
}

type Sub struct {
	Email string  ` + "`sql:\"email\" json:\"email\"`" + `
	Deep  Deep ` + "`sql:\">\" json:\"deep\"`" + `
}

type Deep struct {
	Name string ` + "`sql:\"name\" json:\"name\"`" + `
}

type Imp struct {
	Id    int     ` + "`sql:\"id\"`" + `
	Email xm.Text ` + "`sql:\"email\" json:\"email\"`" + `
	Name  m.Text ` + "`sql:\"name\" json:\"name\"`" + `
	At    time.Time ` + "`sql:\"created\" json:\"at\"`" + `
}

type Post struct {
	Id    int    ` + "`sql:\"id,ro\"`" + `
	Title string ` + "`sql:\"title\"`" + `
	Num   int    ` + "`sql:\"num,wo\"`" + `
	Body  string ` + "`sql:\"body,xf\"`" + `
}

type Geo struct {
	Id   int    ` + "`sql:\"id\"`" + `
	R    [2]int ` + "`sql:\"r\"`" + `
	Ints []int  ` + "`sql:\"ints\"`" + `
	Bits []bool ` + "`sql:\"bits\"`" + `
	Data map[string]int ` + "`sql:\"data,json\"`" + `
}

type Link struct {
	A    int    ` + "`sql:\"a\"`" + `
	B    int    ` + "`sql:\"b\"`" + `
	Note string ` + "`sql:\"note\"`" + `
}

type BadField struct {
	Id  int      ` + "`sql:\"id\"`" + `
	Bad chan int ` + "`sql:\"email\"`" + `
}

type BadMode struct {
	Id    int    ` + "`sql:\"id\"`" + `
	Email string ` + "`sql:\"email,zz-\"`" + `
	X     int    ` + "`sql:\"1x\"`" + `
}

type Dup struct {
	Id   int    ` + "`sql:\"id\"`" + `
	Name string ` + "`sql:\"name\"`" + `
}
`},
	"qb": {"types.go": `package qb

type User struct {
	Id   int     ` + "`sql:\"id\" json:\"id\"`" + `
	Name *string ` + "`sql:\"name\" json:\"nom\"`" + `
}

type Post struct {
	Id   int    ` + "`sql:\"id\"`" + `
	Body string ` + "`sql:\"body,wo\"`" + `
}

type BadField struct {
	Id int ` + "`sql:\"id\"`" + `
}
`},
}

// The declarations: the package, the name, the body.
type decl struct{ pkg, name, body string }

var decls = []decl{
	{"qa", "SelectOne", "User *User `rel:\"users:u\"`\nWhere struct { Id int `sql:\"u.id\"` }"},
	{"qa", "SelectMany", "Users []*User `rel:\"users:u\"`\n_ gosql.OrderBy `sql:\"-u.id,u.email\"`\nLimit int `sql:\"10\"`\nOffset int"},
	{"qa", "SelectVal", "User User `rel:\"users\"`\nWhere struct { Email string `sql:\"email,@lower\"`\nName string `sql:\"name islike\" bool:\"or\"` }"},
	{"qa", "SelectArr", "Users []User `rel:\"users:u\"`\nF gosql.Filter\nErr m.Handler"},
	{"qa", "SelectImp", "Users []*m.User `rel:\"users:u\"`\nWhere struct { Ids []int `sql:\"u.id isin\"`\nX struct { A int `sql:\"u.age >\"` } `sql:\">\" bool:\"or\"` }"},
	{"qa", "SelectImpX", "Users []*xm.User `rel:\"users\"`\nWhere struct { T xm.Text `sql:\"email\"` }"},
	{"qa", "SelectUsers", "Users m.Users `rel:\"users:u\"`"},
	{"qa", "SelectIter", "Users m.Iter `rel:\"users:u\"`"},
	{"qa", "SelectFunc", "Users func(*m.User) error `rel:\"users:u\"`"},
	{"qa", "SelectFuncLocal", "Users func(*User) error `rel:\"users:u\"`"},
	{"qa", "SelectNested", "N []*Nested `rel:\"users:u\"`"},
	{"qa", "SelectImpFields", "N *Imp `rel:\"users:u\"`"},
	{"qa", "SelectView", "User *User `rel:\"users_view:v\"`\nJoin struct { _ gosql.LeftJoin `sql:\"posts:p,p.user_id = v.id,p.num notnull\"` }"},
	{"qa", "SelectJoin", "P []*Post `rel:\"posts:p\"`\nJoin struct { _ gosql.InnerJoin `sql:\"users:u,u.id = p.user_id\"` }\nWhere struct { A [2]int `sql:\"-\"`\nB struct { X int `sql:\"x\"`\nY int `sql:\"y\"` } `sql:\"u.age isbetween\"`\n_ gosql.Column `sql:\"u.name notnull\"` }"},
	{"qa", "SelectPost", "P *m.Post `rel:\"posts\"`\nctx context.Context"},
	{"qa", "SelectOther", "User *User2 `rel:\"other.users:o\"`"},
	{"qa", "SelectAnon", "User struct { Id int `sql:\"id\"`\nEmail string `sql:\"email\"` } `rel:\"users:u\"`"},
	{"qa", "SelectGeo", "G []*Geo `rel:\"geo\"`\nWhere struct { R int `sql:\"id >\"` }"},
	{"qa", "SelectCount", "Count int `rel:\"users:u\"`\nWhere struct { Age int `sql:\"u.age >\"`\nC string `sql:\"u.name <>\"` }"},
	{"qa", "SelectExists", "NotExists bool `rel:\"posts:p\"`\nWhere struct { T []string `sql:\"p.title isin\"` }"},
	{"qa", "SelectDup", "D *Dup `rel:\"dup\"`"},
	{"qa", "SelectDupO", "D *Dup `rel:\"other.dup\"`"},
	{"qa", "SelectBadType", "D *BadField `rel:\"users\"`"},
	{"qa", "SelectBadMode", "D *BadMode `rel:\"users\"`"},
	{"qa", "InsertBadMode", "D []*BadMode `rel:\"users\"`"},
	{"qa", "SelectBadTag", "D *m.BadTag `rel:\"users\"`"},
	{"qa", "UpdateBadTag", "D *m.BadTag `rel:\"users\"`"},
	{"qa", "SelectBadCol", "D *m.BadCol `rel:\"users\"`"},
	{"qa", "SelectHalf", "D *m.Half `rel:\"users\"`"},
	{"qa", "SelectBadRel", "D *User `rel:\"nope\"`"},
	{"qa", "SelectBadWhere", "D *User `rel:\"users:u\"`\nWhere struct { X int `sql:\"u.nope\"` }"},
	{"qa", "SelectBadJoin", "D *User `rel:\"users:u\"`\nJoin struct { _ gosql.LeftJoin `sql:\"nope:n,n.id = u.id\"` }"},
	{"qa", "SelectBadIter", "D func(User) int `rel:\"users:u\"`"},
	{"qa", "SelectBadElem", "D []int `rel:\"users:u\"`"},
	{"qa", "InsertOne", "User *User `rel:\"users:u\"`\n_ gosql.Return `sql:\"*\"`"},
	{"qa", "InsertMany", "Users []*User `rel:\"users:u\"`\nOnConflict struct { _ gosql.Column `sql:\"email\"`\n_ gosql.Update `sql:\"age\"` }"},
	{"qa", "InsertForce", "P []*Post `rel:\"posts\"`\n_ gosql.Force `sql:\"id\"`\n_ gosql.Default `sql:\"num\"`"},
	{"qa", "InsertNoForce", "P *Post `rel:\"posts\"`\n_ gosql.Return `sql:\"*\"`"},
	{"qa", "InsertImp", "U *m.User `rel:\"users\"`\nOnConflict struct { _ gosql.Index `sql:\"users_name\"`\n_ gosql.Ignore }\nErr m.Handler"},
	{"qa", "InsertResult", "U []*m.User `rel:\"users:u\"`\nResult []*User"},
	{"qa", "InsertGeo", "G *Geo `rel:\"geo\"`"},
	{"qa", "InsertImpFields", "N []*Imp `rel:\"users:u\"`\nOnConflict struct { _ gosql.Constraint `sql:\"users_email\"`\n_ gosql.Update `sql:\"*\"` }"},
	{"qa", "InsertRowsAff", "L []Link `rel:\"links\"`\nRowsAffected int"},
	{"qa", "UpdateOne", "User *User `rel:\"users:u\"`"},
	{"qa", "UpdateWhere", "User *User `rel:\"users:u\"`\nWhere struct { E string `sql:\"u.email\"` }\n_ gosql.Return `sql:\"u.id\"`"},
	{"qa", "UpdateSlice", "L []*Link `rel:\"links:l\"`"},
	{"qa", "UpdateAll", "P *Post `rel:\"posts:p\"`\n_ gosql.All\n_ gosql.Force `sql:\"body\"`"},
	{"qa", "UpdateFrom", "P *Post `rel:\"posts:p\"`\nFrom struct { _ gosql.Relation `sql:\"users:u\"` }\nWhere struct { _ gosql.Column `sql:\"u.id=p.user_id\"` }"},
	{"qa", "UpdateBadCol", "P *Post `rel:\"posts:p\"`\n_ gosql.Force `sql:\"nope\"`"},
	{"qa", "DeleteOne", "_ gosql.Relation `rel:\"users:u\"`\nWhere struct { Id int `sql:\"u.id\"` }"},
	{"qa", "DeleteRet", "U []*m.User `rel:\"users:u\"`\nWhere struct { T m.Text `sql:\"u.email\"` }\n_ gosql.Return `sql:\"*\"`"},
	{"qa", "DeleteUsing", "_ gosql.Relation `rel:\"posts:p\"`\nUsing struct { _ gosql.Relation `sql:\"users:u\"` }\nWhere struct { _ gosql.Column `sql:\"u.id=p.user_id\"`\nA []int `sql:\"u.age = any\"` }"},
	{"qa", "DeleteAll", "_ gosql.Relation `rel:\"links\"`\n_ gosql.All\nRowsAffected int"},
	{"qa", "DeleteBadAll", "_ gosql.Relation `rel:\"links\"`"},
	{"qa", "FilterUser", "_ *User `rel:\"users:u\"`\nfilter.Constructor"},
	{"qa", "FilterImp", "_ *m.User `rel:\"users:u\"`\nF filter.Constructor"},
	{"qa", "FilterImpX", "_ *xm.User `rel:\"users:u\"`\nF filter.Constructor `filter:\"v2\"`"},
	{"qa", "FilterImpFields", "_ *Imp `rel:\"users:u\"`\nF filter.Constructor"},
	{"qa", "FilterNested", "_ *Nested `rel:\"users:n\"`\nfilter.Constructor"},
	{"qa", "FilterPost", "_ *m.Post `rel:\"posts:p\"`\n_ gosql.TextSearch `sql:\"p.doc\"`\nfilter.Constructor"},
	{"qa", "FilterBad", "_ *User `rel:\"nope\"`\nfilter.Constructor"},
	{"qa", "FilterBadTag", "_ *m.BadTag `rel:\"users\"`\nfilter.Constructor"},
	{"qb", "SelectOne", "User *User `rel:\"users:u\"`\nWhere struct { Id int `sql:\"u.id\"` }"},
	{"qb", "SelectImp", "Users []*m.User `rel:\"users:u\"`"},
	{"qb", "SelectIter", "Users m.Iter `rel:\"users:u\"`"},
	{"qb", "SelectHalf", "D []*m.Half `rel:\"users\"`"},
	{"qb", "SelectQA", "D []*qa.User `rel:\"users\"`"},
	{"qb", "SelectQANested", "D []*qa.Nested `rel:\"users\"`"},
	{"qb", "InsertQA", "D *qa.User `rel:\"users\"`"},
	{"qb", "SelectBadType", "D *BadField `rel:\"users\"`"},
	{"qb", "InsertPost", "P *Post `rel:\"posts:p\"`"},
	{"qb", "FilterUser", "_ *User `rel:\"users:u\"`\nfilter.Constructor"},
	{"qb", "FilterImp", "_ *m.User `rel:\"users:u\"`\nF filter.Constructor"},
	{"qb", "FilterQA", "_ *qa.User `rel:\"users:u\"`\nfilter.Constructor"},
	{"m", "SelectOne", "User *User `rel:\"users:u\"`"},
	{"m", "SelectHalf", "D *Half `rel:\"users\"`"},
	{"m", "InsertHalf", "D []*Half `rel:\"users:u\"`"},
	{"m", "SelectIter", "Users Iter `rel:\"users:u\"`"},
	{"m", "FilterUser", "_ *User `rel:\"users:u\"`\nfilter.Constructor"},
}

const declImports = `import (
	"context"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
%s)

var (
	_ context.Context
	_ gosql.Conn
	_ filter.Constructor
)

`

var pkgImports = map[string]string{
	"m":  "",
	"qa": "\t\"vfh/m\"\n\txm \"vfh/x/m\"\n",
	"qb": "\t\"vfh/m\"\n\t\"vfh/qa\"\n",
}

const moreQA = `
type User2 struct {
	Id    int    ` + "`sql:\"id\"`" + `
	Email string ` + "`sql:\"email\"`" + `
	Extra string ` + "`sql:\"extra\"`" + `
}

var _ m.Arg
var _ xm.Text
`
