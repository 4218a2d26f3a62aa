package main

import (
	"fmt"
	"strings"
)

// A table with a column of every type, and queries that compare every column with fields of many types:
// how the check finds an operator must not depend on the order in which it looks at them.

var matrixCols = strings.Fields(`bool box bytea cidr date daterange float4 float8 inet int2 int2vector int4 int4range int8 int8range json jsonb line lseg macaddr money numeric numrange path point polygon
	text time timestamp timestamptz timetz tsquery tsrange tstzrange tsvector uuid varbit xml varchar name char(1) char(5) bit(1) bit(3) oid regclass mood
	int4[] text[] bool[] date[] float8[] inet[] point[] timestamptz[] uuid[]`)

var matrixTypes = []string{"bool", "string", "[]string", "byte", "[]byte", "[16]byte", "rune", "int", "int8", "uint32", "int64", "float32", "float64", "[]int", "[2]int", "[]float64", "[2]float64", "[][2]float64", "[2][2]float64", "[3]float64",
	"net.IP", "net.IPNet", "net.HardwareAddr", "time.Time", "[]time.Time", "[2]time.Time", "interface{}", "map[string]string", "xm.Text"}

var matrixPreds = []string{"=", "<>", "<", "~", "islike", "isdistinct"}

func matrixSchema() string {
	var b strings.Builder
	b.WriteString("CREATE TYPE mood AS ENUM ('a', 'b');\nCREATE TABLE mm (k int")
	for i, c := range matrixCols {
		fmt.Fprintf(&b, ", c%d %s", i, c)
	}
	b.WriteString(");\n")
	return b.String()
}

var matrixFrom int // the first of these in decls

func init() {
	matrixFrom = len(decls)
	for i := range matrixCols {
		for k, t := range matrixTypes {
			for p, op := range matrixPreds {
				decls = append(decls, decl{"qw", fmt.Sprintf("SelectW%dx%dx%d", i, k, p), fmt.Sprintf("R []*RK `rel:\"mm\"`\nWhere struct { V %s `sql:\"c%d %s\"` }", t, i, op)})
			}
		}
	}
	pkgImports["qw"] = "\t\"net\"\n\t\"time\"\n\txm \"vfh/x/m\"\n"
	sources["qw"] = map[string]string{"types.go": "package qw\n\ntype RK struct {\n\tK int `sql:\"k\"`\n}\n"}
}

func (d *driver) matrix() {
	var jobs []*job
	step := d.r.Pick(2, 1)
	var j *job
	for i := matrixFrom; i < len(decls); i++ {
		if p := (i - matrixFrom) % len(matrixPreds); p >= 3 && step == 2 {
			continue
		}
		if j == nil || len(j.Slots) == 60 {
			j = &job{Map: uint64(d.r.Pick(48, 160))}
			jobs = append(jobs, j)
		}
		j.Steps += "M" + string(rune('0'+len(j.Slots)))
		j.Slots = append(j.Slots, event{i, 0})
	}
	d.explore("matrix", jobs)
}

// mapStart gives the n-th start of map iterations: all positions of a single bucket, then positions spread
// over many buckets.
func mapStart(n int) uint64 {
	if n < 8 {
		return uint64(n)
	}
	return uint64(n) * 41
}
