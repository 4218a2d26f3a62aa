package main

import (
	"fmt"
	"strings"

	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

// frow is a row the fake database answers with, and how the record is then rendered.
type frow struct {
	row    []any
	expect string
}

// frec is a record type whose rows are delivered by the fake database.
type frec struct {
	name   string
	after  string
	leaves []Leaf
	rows   []frow
	bad    int // a column that can be undecodable
}

func lv(paths ...string) (out []Leaf) {
	for _, p := range paths {
		out = append(out, Leaf{p, ""})
	}
	return
}

var frecs = []frec{
	{"Rec", "", lv("ID", "Num", "Txt", "Flag"), []frow{{[]any{1, nil, "a", true}, "1|<NULL>|a|true"}, {[]any{2, 7, "", nil}, "2|7||<NULL>"}, {[]any{3, 0, "c", false}, "3|0|c|false"}, {[]any{4, nil, "d", nil}, "4|<NULL>|d|<NULL>"}}, 3},
	{"RecA", "N", lv("ID", "Num", "Txt", "Seen"), []frow{{[]any{1, nil, "a"}, "1|<NULL>|a|a"}, {[]any{2, 7, "b"}, "2|7|b|b"}, {[]any{3, 0, "c"}, "3|0|c|c"}, {[]any{4, 1, ""}, "4|1||"}}, 0},
	{"RecNest", "", lv("ID", "In.Num", "In.Deep.Txt", "Ptr.Flag", "Ptr.Pfx.Te", "Big"), []frow{{[]any{1, nil, "a", true, "x", 5}, "1|<NULL>|a|true|x|5"}, {[]any{2, 7, "b", nil, nil, 6}, "2|7|b|<NULL>|<NULL>|6"}, {[]any{3, 0, "c", false, "", 7}, "3|0|c|false||7"}, {[]any{4, 0, "d", false, "", 8}, "4|0|d|false||8"}}, 5},
	{"RecDeep", "", lv("L1.L2.L3.P.X.Flag", "L1.L2.L3.P.Y.F8", "L1.L2.L3.Q.Big", "L1.L2.L3.R.Note", "L1.L2.Txt", "L1.Num", "ID"), []frow{{[]any{true, 3, 7, "n", "a", nil, 1}, "true|3|7|n|a|<NULL>|1"}, {[]any{nil, nil, 8, nil, "b", 3, 2}, "<NULL>|<NULL>|8|<NULL>|b|3|2"}, {[]any{false, 0, 0, "", "", 0, 3}, "false|0|0|||0|3"}, {[]any{nil, 2, 9, "m", "d", 4, 4}, "<NULL>|2|9|m|d|4|4"}}, 2},
	{"RecOne", "", lv("Txt"), []frow{{[]any{"a"}, "a"}, {[]any{"b"}, "b"}, {[]any{""}, ""}, {[]any{"d"}, "d"}}, -1},
	{"ext.Rec", "", lv("ID", "Num", "Txt", "In.Flag"), []frow{{[]any{1, nil, "a", true}, "1|<NULL>|a|true"}, {[]any{2, 7, "", nil}, "2|7||<NULL>"}, {[]any{3, 0, "c", false}, "3|0|c|false"}, {[]any{4, nil, "d", nil}, "4|<NULL>|d|<NULL>"}}, 0},
}

var fwrecs = []frec{
	{"Item", "", lv("ID", "Key", "Name", "Fruit", "Value", "Ver"), []frow{{[]any{1, 10, "a", nil, 3, 4}, "1|10|a|<NULL>|3|4"}, {[]any{2, 20, "b", "f", nil, 5}, "2|20|b|f|<NULL>|5"}, {[]any{3, 30, "", "", 0, 0}, "3|30|||0|0"}, {[]any{4, 40, "d", "", 0, 0}, "4|40|d||0|0"}}, 1},
	{"ItemHook", "N", lv("ID", "Key", "Name", "Value"), []frow{{[]any{1, 10, "a", nil}, "1|10|a|<NULL>"}, {[]any{2, 20, "b", 0}, "2|20|b|0"}, {[]any{3, 30, "", 7}, "3|30||7"}, {[]any{4, 40, "", 7}, "4|40||7"}}, 3},
	{"ItemNest", "", lv("ID", "In.Key", "In.Name", "Pt.Value", "Pt.Dp.Ver", "Pf.Ag"), []frow{{[]any{1, 10, "a", nil, 5, "t"}, "1|10|a|<NULL>|5|t"}, {[]any{2, 20, "b", 3, 6, nil}, "2|20|b|3|6|<NULL>"}, {[]any{3, 30, "c", 0, 0, ""}, "3|30|c|0|0|"}, {[]any{4, 40, "d", 0, 0, ""}, "4|40|d|0|0|"}}, 0},
}

// ctxCfg generates methods with a context.
var ctxCfg = &Cfg{Name: "ctx", Set: func(c *config.Config) { c.MethodWithContext = config.Bool{Value: true, IsSet: true} }, Exec: "Exec(e.Ctx, e.Conn)"}

type fhandler struct{ key, field, init, kind string }

var fhandlers = []fhandler{
	{"none", "", "", ""},
	{"eh", "Erh EH", "q.Erh = EH{vfrt.EH{S: s}}", "EH"},
	{"ehptr", "erh *EH", "q.erh = &EH{vfrt.EH{S: s}}", "EH"},
	{"ehext", "Erh vfrt.EH", "q.Erh = vfrt.EH{S: s}", "EH"},
	{"ehiface", "Erh gosql.ErrorHandler", "q.Erh = vfrt.EH{S: s}", "EH"},
	{"eih", "Erh EIH", "q.Erh = EIH{vfrt.EIH{S: s}}", "EIH"},
	{"eihptr", "Erh *vfrt.EIH", "q.Erh = &vfrt.EIH{S: s}", "EIH"},
	{"eihiface", "erh gosql.ErrorInfoHandler", "q.erh = vfrt.EIH{S: s}", "EIH"},
}

// fctx says where the context comes from.
type fctx struct {
	key   string
	field string
	cfg   *Cfg
}

var fctxs = []fctx{{"noctx", "", nil}, {"ctxfield", "Ctx context.Context", nil}, {"ctxarg", "", ctxCfg}}

func c13Cases(r *vf.Run) (out []*Case) {
	maxRows := 3
	if r.Thorough() {
		maxRows = 4
	}
	// finish adds the handler, the context and the faults
	finish := func(c *Case, kind, query string, fr *frec, scalar []frow, single bool, h fhandler, cx fctx) {
		j := c.Job
		j.Mode = "fault"
		j.Ref, j.Tables, j.Stateful, j.Cmp = nil, nil, "", ""
		j.KeepLeaves, j.KeepOut = nil, ""
		for i := range j.Params { // one combination is enough
			j.Params[i].Vals = j.Params[i].Vals[:1]
		}
		sp := &FaultSpec{Kind: kind, Handler: h.kind, Query: query, MaxRows: maxRows, BadCol: -1, Ctx: cx.key != "noctx", CtxField: cx.field != ""}
		if single && kind != "exec" {
			sp.MaxRows = 2
		}
		rows := scalar
		if fr != nil {
			rows = fr.rows
			sp.BadCol = fr.bad
			j.Leaves = fr.leaves
			j.After = fr.after
		} else if kind == "scalar" {
			sp.BadCol = 0
		}
		for _, x := range rows {
			sp.Rows = append(sp.Rows, x.row)
			sp.Expect = append(sp.Expect, x.expect)
		}
		j.Fault = sp
		if h.field != "" {
			c.Body += "\n" + h.field
			if c.Init != "" {
				c.Init += "; "
			}
			c.Init += h.init
		}
		if cx.field != "" {
			c.Body += "\n" + cx.field
		}
		c.Cfg = cx.cfg
		if cx.cfg != nil {
			c.Group = cx.cfg.Name
		}
		c.Key += "/" + h.key + "/" + cx.key
		out = append(out, c)
	}
	all := func(mk func() (c *Case, kind, query string, fr *frec, scalar []frow, single bool)) {
		for _, h := range fhandlers {
			for _, cx := range fctxs {
				c, kind, query, fr, scalar, single := mk()
				finish(c, kind, query, fr, scalar, single, h, cx)
			}
		}
	}

	// SELECT
	wheres := map[string][]item{"": nil, "where": atoms("r", "r")[:1], "in": {pickAtom("r", "num isin []int")}}
	for i := range frecs {
		fr := &frecs[i]
		for _, sh := range shapes {
			scalar := sh == "count" || sh == "exists" || sh == "notexists"
			if scalar && fr.name != "Rec" {
				continue
			}
			if fr.name == "ext.Rec" && (sh == "inline" || sh == "iter" && false) {
				continue
			}
			for _, wk := range []string{"", "where", "in", "filter"} {
				if fr.name != "Rec" && wk != "" && wk != "filter" {
					continue
				}
				all(func() (*Case, string, string, *frec, []frow, bool) {
					s := &sel{key: "select/" + fr.name + "/" + sh + "/" + wk, shape: sh, rec: fr.name}
					if wk == "filter" {
						s.fields = []string{"Filter gosql.Filter"}
						s.init = "q.Filter = vfrt.Filt{S: s}"
						s.params = []Param{{Path: "@filter", Vals: itemFilters}}
					} else if its := wheres[wk]; its != nil {
						s.withWhere(its)
					}
					c := s.toCase()
					c.Init = strings.TrimPrefix(c.Init, "; ")
					single := sh == "ptr" || sh == "val"
					switch {
					case sh == "count":
						return c, "scalar", "Select", nil, []frow{{[]any{7}, "7"}, {[]any{8}, "8"}, {[]any{9}, "9"}}, true
					case scalar:
						return c, "scalar", "Select", nil, []frow{{[]any{true}, "true"}, {[]any{false}, "false"}, {[]any{true}, "true"}}, true
					case single:
						return c, "single", "Select", fr, nil, true
					}
					return c, "many", "Select", fr, nil, false
				})
			}
		}
	}
	// INSERT, UPDATE, DELETE
	for i := range fwrecs {
		fr := &fwrecs[i]
		for _, kind := range []string{"Insert", "Update", "Delete"} {
			for _, sh := range []string{"ptr", "val", "slice", "slicev", "dir"} {
				isSlice := strings.HasPrefix(sh, "slice")
				if (sh == "dir") && kind != "Delete" {
					continue
				}
				outs := []string{"none", "rows:int", "rows:int64", "return"}
				for _, rs := range resultShapes {
					outs = append(outs, "result:"+rs)
				}
				for _, o := range outs {
					if kind == "Delete" && (sh != "dir") != (o == "return") {
						continue
					}
					if kind == "Update" && isSlice && o == "return" {
						continue
					}
					rs := strings.TrimPrefix(o, "result:")
					if isSlice && (rs == "ptr" || rs == "val") {
						continue
					}
					if fr.name != "Item" && !strings.HasPrefix(o, "result:") && o != "return" {
						continue
					}
					for _, v := range []string{"", "filter"} {
						if v == "filter" && (kind == "Insert" || isSlice && kind == "Update" || fr.name != "Item") {
							continue
						}
						all(func() (*Case, string, string, *frec, []frow, bool) {
							c := &wcase{key: fmt.Sprintf("%s/%s/%s/%s/%s", strings.ToLower(kind), fr.name, sh, o, v), kind: kind, w: wr(fr.name), shape: sh, out: o}
							if isSlice {
								c.sets = [][]int{{0, 1, 2, 3}}
							}
							if v == "filter" {
								c.fields = []string{"Filter gosql.Filter"}
								c.init = "q.Filter = vfrt.Filt{S: s}"
								c.filter = true
								c.params = []Param{{Path: "@filter", Vals: itemFilters}}
							} else if kind == "Delete" {
								c.withWhere(itemPreds()[:1])
							}
							x := c.toCase()
							single := rs == "ptr" || rs == "val" || o == "return" && (sh == "ptr" || sh == "val")
							switch {
							case o == "none" || strings.HasPrefix(o, "rows:"):
								return x, "exec", kind, nil, nil, true
							case o == "return" && isSlice && kind != "Delete":
								return x, "inplace", kind, fr, nil, false
							case single:
								return x, "single", kind, fr, nil, true
							}
							return x, "many", kind, fr, nil, false
						})
					}
				}
			}
		}
	}
	return
}
