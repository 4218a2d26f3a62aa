// The values of PostgreSQL types: their Go domains, the SQL that denotes them, and their equality.
// (The runner of generated code in drv/gen uses a copy of this file.)
package main

import (
	"bytes"
	"database/sql"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"math/big"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	timeType    = reflect.TypeOf(time.Time{})
	ipType      = reflect.TypeOf(net.IP{})
	ipnetType   = reflect.TypeOf(net.IPNet{})
	macType     = reflect.TypeOf(net.HardwareAddr{})
	bytesType   = reflect.TypeOf([]byte{})
	stringType  = reflect.TypeOf("")
	nullStrType = reflect.TypeOf(sql.NullString{})
	docType     = reflect.TypeOf(doc{})
)

// picker chooses a bound by the run's tier.
type picker interface{ Pick(quick, thorough int) int }

// doc stands for the untyped nil given to JSON and XML.
type doc struct {
	name    string
	nilable bool
	isNil   bool
}

// ---------------------------------------------------------------------------------------------
// PostgreSQL types.  A converter's prefix names the type; "Array" is a suffix.

// names without a length modifier, so that casting a parameter never truncates
var scalarSQL = map[string][]string{
	"Bit": {`"bit"`}, "Bool": {"bool"}, "Box": {"box"}, "BPChar": {`"bpchar"`}, "Bytea": {"bytea"}, "Char": {`"bpchar"`},
	"CIDR": {"cidr"}, "Date": {"date"}, "DateRange": {"daterange"}, "Float4": {"float4"}, "Float8": {"float8"},
	"HStore": {"hstore"}, "Inet": {"inet"}, "Int2": {"int2"}, "Int2Vector": {"int2vector"}, "Int4": {"int4"},
	"Int4Range": {"int4range"}, "Int8": {"int8"}, "Int8Range": {"int8range"}, "JSON": {"json", "jsonb"}, "Line": {"line"},
	"Lseg": {"lseg"}, "MACAddr": {"macaddr"}, "MACAddr8": {"macaddr8"}, "Money": {"money"}, "Numeric": {"numeric"},
	"NumRange": {"numrange"}, "Path": {"path"}, "Point": {"point"}, "Polygon": {"polygon"}, "Text": {"text"}, "Time": {"time"},
	"Timestamp": {"timestamp"}, "Timestamptz": {"timestamptz"}, "Timetz": {"timetz"}, "TSQuery": {"tsquery"}, "TsRange": {"tsrange"},
	"TstzRange": {"tstzrange"}, "TSVector": {"tsvector"}, "UUID": {"uuid"}, "VarBit": {"varbit"}, "VarChar": {"varchar"}, "XML": {"xml"},
	"Any": {"text", "int4", "bytea", "int4[]"},
}

func scalarOf(pg string) (string, bool) {
	if s, ok := strings.CutSuffix(pg, "Array"); ok {
		return s, true
	}
	return pg, false
}

func sqlTypes(pg string) []string {
	s, arr := scalarOf(pg)
	ts := scalarSQL[s]
	if !arr {
		return ts
	}
	var out []string
	for _, t := range ts {
		out = append(out, t+"[]")
	}
	return out
}

func q(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// ---------------------------------------------------------------------------------------------
// Rendering a Go value as SQL

func canText(s string) bool {
	return !strings.ContainsRune(s, 0) && strings.ToValidUTF8(s, "") == s
}

// expr gives the SQL expressions that denote v (any of them is right); false if the type has no
// such value.
func expr(pg, sqlt string, v any) ([]string, bool) {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() {
		return []string{"NULL::" + sqlt}, true
	}
	s, arr := scalarOf(pg)
	if !arr {
		var out []string
		for _, mode := range []int{0, 1} {
			e, ok := scalarExpr(s, sqlt, rv, mode)
			if !ok {
				return nil, false
			}
			if mode == 0 || e != out[0] {
				out = append(out, e)
			}
		}
		return out, true
	}
	base := strings.TrimSuffix(sqlt, "[]")
	if k := rv.Kind(); k == reflect.String {
		rs := []rune(rv.String())
		if !canText(rv.String()) {
			return nil, false
		}
		rv = reflect.ValueOf(rs)
	}
	if rv.IsNil() {
		return []string{"NULL::" + sqlt}, true
	}
	if rv.Len() == 0 {
		return []string{"'{}'::" + sqlt}, true
	}
	var out []string
	for _, mode := range []int{0, 1} {
		var p []string
		for i := 0; i < rv.Len(); i++ {
			e, ok := scalarExpr(s, base, rv.Index(i), mode)
			if !ok {
				return nil, false
			}
			p = append(p, e)
		}
		e := "ARRAY[" + strings.Join(p, ",") + "]::" + sqlt
		if mode == 0 || e != out[0] {
			out = append(out, e)
		}
	}
	return out, true
}

func num(v reflect.Value, mode int) string {
	switch v.Kind() {
	case reflect.Float32:
		if mode == 0 {
			return fixInf(strconv.FormatFloat(v.Float(), 'g', -1, 32))
		}
		return fixInf(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Float64:
		return fixInf(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	}
	if v.CanInt() {
		return strconv.FormatInt(v.Int(), 10)
	}
	return strconv.FormatUint(v.Uint(), 10)
}

func fixInf(s string) string {
	switch s {
	case "+Inf":
		return "Infinity"
	case "-Inf":
		return "-Infinity"
	}
	return s
}

func pt(v reflect.Value) string {
	return "point(" + q(num(v.Index(0), 0)) + "," + q(num(v.Index(1), 0)) + ")"
}

func ptText(v reflect.Value) string { return "(" + num(v.Index(0), 0) + "," + num(v.Index(1), 0) + ")" }

func scalarExpr(s, t string, v reflect.Value, mode int) (string, bool) {
	null := "NULL::" + t
	cast := func(x string) (string, bool) { return q(x) + "::" + t, true }
	switch s {
	case "Bool":
		return cast(strconv.FormatBool(v.Bool()))
	case "Bit":
		if v.Kind() == reflect.Bool {
			if v.Bool() {
				return cast("1")
			}
			return cast("0")
		}
		if v.Uint() > 1 {
			return "", false
		}
		return cast(num(v, 0))
	case "VarBit":
		switch v.Kind() {
		case reflect.Int64:
			if v.Int() < 0 {
				return "", false
			}
			return cast(strconv.FormatInt(v.Int(), 2))
		case reflect.String:
			return cast(v.String())
		}
		if v.IsNil() {
			return null, true
		}
		b := ""
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Bool && e.Bool() || e.Kind() == reflect.Uint8 && e.Uint() == 1 {
				b += "1"
			} else {
				b += "0"
			}
		}
		return cast(b)
	case "Int2", "Int4", "Int8":
		if f := v.Kind(); f == reflect.Float32 || f == reflect.Float64 {
			x := v.Float()
			if x != math.Trunc(x) || math.Abs(x) > 1e18 {
				return "", false
			}
			return cast(strconv.FormatInt(int64(x), 10))
		}
		return cast(num(v, mode))
	case "Numeric", "Float4", "Float8":
		return cast(num(v, mode))
	case "Money":
		n := new(big.Int).SetInt64(v.Int())
		sign := ""
		if n.Sign() < 0 {
			sign = "-"
			n.Neg(n)
		}
		d := n.String()
		for len(d) < 3 {
			d = "0" + d
		}
		return cast(sign + d[:len(d)-2] + "." + d[len(d)-2:])
	case "Int2Vector":
		if v.IsNil() {
			return null, true
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			n := num(e, 0)
			if k := e.Kind(); k == reflect.Float32 || k == reflect.Float64 {
				x := e.Float()
				if x != math.Trunc(x) {
					return "", false
				}
				n = strconv.FormatInt(int64(x), 10)
			}
			k, err := strconv.ParseInt(n, 10, 64)
			if err != nil || k < -32768 || k > 32767 {
				return "", false
			}
			p = append(p, n)
		}
		return cast(strings.Join(p, " "))
	case "Int4Range", "Int8Range":
		w := s[:4]
		a, ok1 := scalarExpr(w, strings.ToLower(w), v.Index(0), mode)
		b, ok2 := scalarExpr(w, strings.ToLower(w), v.Index(1), mode)
		return t + "(" + a + "," + b + ")", ok1 && ok2
	case "NumRange":
		return t + "(" + q(num(v.Index(0), mode)) + "::numeric," + q(num(v.Index(1), mode)) + "::numeric)", true
	case "DateRange", "TsRange", "TstzRange":
		el := map[string]string{"DateRange": "Date", "TsRange": "Timestamp", "TstzRange": "Timestamptz"}[s]
		var p []string
		for i := 0; i < 2; i++ {
			tm := v.Index(i).Interface().(time.Time)
			if tm.IsZero() && (s == "DateRange" || mode == 1) {
				p = append(p, "NULL")
				continue
			}
			e, ok := scalarExpr(el, strings.ToLower(el), v.Index(i), 0)
			if !ok {
				return "", false
			}
			p = append(p, e)
		}
		return t + "(" + p[0] + "," + p[1] + ")", true
	case "Date", "Time", "Timetz", "Timestamp", "Timestamptz":
		if v.Type() != timeType {
			b, isNil := textOf(v)
			if isNil {
				return null, true
			}
			return cast(b)
		}
		tm := v.Interface().(time.Time)
		f := map[string]string{"Date": "2006-01-02", "Time": "15:04:05.999999", "Timetz": "15:04:05.999999-07:00:00", "Timestamp": "2006-01-02 15:04:05.999999", "Timestamptz": "2006-01-02 15:04:05.999999-07:00:00"}[s]
		if y := tm.Year(); y < 1 && (s == "Date" || strings.HasPrefix(s, "Timestamp")) { // years BC
			return cast(fmt.Sprintf("%04d", 1-y) + tm.Format(f[4:]) + " BC")
		}
		return cast(tm.Format(f))
	case "Point":
		return pt(v), true
	case "Lseg":
		return "lseg(" + pt(v.Index(0)) + "," + pt(v.Index(1)) + ")", true
	case "Box":
		return "box(" + pt(v.Index(0)) + "," + pt(v.Index(1)) + ")", true
	case "Line":
		return cast("{" + num(v.Index(0), 0) + "," + num(v.Index(1), 0) + "," + num(v.Index(2), 0) + "}")
	case "Path", "Polygon":
		if v.IsNil() {
			return null, true
		}
		if v.Len() == 0 {
			if mode == 0 {
				return null, true // these types have no empty value
			}
			return "", true
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, ptText(v.Index(i)))
		}
		if s == "Path" {
			if mode == 1 {
				return cast("(" + strings.Join(p, ",") + ")")
			}
			return cast("[" + strings.Join(p, ",") + "]")
		}
		return cast("(" + strings.Join(p, ",") + ")")
	case "UUID":
		if v.Kind() == reflect.Array {
			b := make([]byte, 16)
			reflect.Copy(reflect.ValueOf(b), v)
			return cast(hex.EncodeToString(b))
		}
		b, isNil := textOf(v)
		if isNil {
			return null, true
		}
		return cast(b)
	case "CIDR", "Inet":
		if v.Type() == ipType {
			if v.IsNil() {
				return null, true
			}
			return cast(v.Interface().(net.IP).String())
		}
		n := v.Interface().(net.IPNet)
		if n.IP == nil && n.Mask == nil {
			return null, true
		}
		if n.Mask == nil {
			return cast(n.IP.String())
		}
		ones, bits := n.Mask.Size()
		if bits == 0 {
			return "", false
		}
		return cast(n.IP.String() + "/" + strconv.Itoa(ones))
	case "MACAddr", "MACAddr8":
		if v.Len() == 0 {
			return null, true
		}
		return cast(hex.EncodeToString(v.Bytes()))
	case "Bytea":
		b, isNil := textOf(v)
		if isNil {
			return null, true
		}
		return `'\x` + hex.EncodeToString([]byte(b)) + "'::bytea", true
	case "HStore":
		if v.IsNil() {
			return null, true
		}
		if v.Len() == 0 {
			return cast("")
		}
		var ks, vs []string
		for _, k := range v.MapKeys() {
			ks = append(ks, q(k.String()))
			e := v.MapIndex(k)
			if !canText(k.String()) {
				return "", false
			}
			switch x := e.Interface().(type) {
			case string:
				vs = append(vs, q(x))
			case *string:
				if x == nil {
					vs = append(vs, "NULL")
				} else {
					vs = append(vs, q(*x))
				}
			case sql.NullString:
				if !x.Valid {
					vs = append(vs, "NULL")
				} else {
					vs = append(vs, q(x.String))
				}
			}
		}
		return "hstore(ARRAY[" + strings.Join(ks, ",") + "]::text[],ARRAY[" + strings.Join(vs, ",") + "]::text[])", true
	case "Char", "BPChar":
		var x string
		switch v.Kind() {
		case reflect.Int32:
			x = string(rune(v.Int()))
		case reflect.Uint8:
			if v.Uint() > 127 {
				return "", false
			}
			x = string(rune(v.Uint()))
		default:
			x = v.String()
		}
		if !canText(x) || strings.ContainsRune(x, 0xFFFD) {
			return "", false
		}
		return cast(x)
	case "Text", "VarChar", "TSQuery":
		b, isNil := textOf(v)
		if isNil {
			return null, true
		}
		if !canText(b) {
			return "", false
		}
		return cast(b)
	case "TSVector":
		if v.IsNil() {
			return null, true
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			b, _ := textOf(v.Index(i))
			p = append(p, b)
		}
		return cast(strings.Join(p, " "))
	case "JSON":
		if v.Type() == bytesType {
			if v.IsNil() {
				return null, true
			}
			return cast(string(v.Bytes()))
		}
		if v.Type() == docType {
			return null, true
		}
		b, err := json.Marshal(v.Interface())
		if err != nil {
			return "", false
		}
		return cast(string(b))
	case "XML":
		if v.Type() == bytesType {
			if v.IsNil() {
				return null, true
			}
			return cast(string(v.Bytes()))
		}
		if v.Type() == docType {
			return null, true
		}
		b, err := xml.Marshal(v.Interface())
		if err != nil {
			return "", false
		}
		return cast(string(b))
	}
	panic("no reference encoder for " + s)
}

func textOf(v reflect.Value) (string, bool) {
	if v.Kind() == reflect.Slice {
		return string(v.Bytes()), v.IsNil()
	}
	return v.String(), false
}

// canonGo is the Go value that comes back for v when the database type normalises it.
func canonGo(pg string, v reflect.Value) reflect.Value {
	s, arr := scalarOf(pg)
	if !v.IsValid() {
		return v
	}
	if arr {
		if v.Kind() != reflect.Slice || v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(canonScalar(s, v.Index(i)))
		}
		return out
	}
	return canonScalar(s, v)
}

func canonScalar(s string, v reflect.Value) reflect.Value {
	switch s {
	case "Box":
		b := v.Interface().([2][2]float64)
		hi := [2]float64{math.Max(b[0][0], b[1][0]), math.Max(b[0][1], b[1][1])}
		lo := [2]float64{math.Min(b[0][0], b[1][0]), math.Min(b[0][1], b[1][1])}
		return reflect.ValueOf([2][2]float64{hi, lo})
	case "Date":
		if v.Type() == timeType {
			t := v.Interface().(time.Time)
			return reflect.ValueOf(time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC))
		}
	case "Time":
		if v.Type() == timeType {
			t := v.Interface().(time.Time)
			return reflect.ValueOf(time.Date(0, 1, 1, t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC))
		}
	case "Timetz":
		if v.Type() == timeType {
			t := v.Interface().(time.Time)
			return reflect.ValueOf(time.Date(0, 1, 1, t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), t.Location()))
		}
	case "Timestamp":
		t := v.Interface().(time.Time)
		return reflect.ValueOf(time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC))
	case "DateRange", "TsRange":
		b := v.Interface().([2]time.Time)
		if b[0].Equal(b[1]) && !b[0].IsZero() { // empty
			return reflect.ValueOf([2]time.Time{})
		}
		el := map[string]string{"DateRange": "Date", "TsRange": "Timestamp"}[s]
		return reflect.ValueOf([2]time.Time{canonScalar(el, reflect.ValueOf(b[0])).Interface().(time.Time), canonScalar(el, reflect.ValueOf(b[1])).Interface().(time.Time)})
	case "TstzRange":
		b := v.Interface().([2]time.Time)
		if b[0].Equal(b[1]) && !b[0].IsZero() {
			return reflect.ValueOf([2]time.Time{})
		}
	case "Int4Range", "Int8Range", "NumRange":
		if reflect.DeepEqual(v.Index(0).Interface(), v.Index(1).Interface()) {
			return reflect.Zero(v.Type()) // empty
		}
	case "Path", "Polygon":
		if v.Len() == 0 {
			return reflect.Zero(v.Type())
		}
	}
	return v
}

// ---------------------------------------------------------------------------------------------
// Domains of Go values

var domMu sync.Mutex
var domCache = map[string][]any{}

func domain(r picker, pg string, t reflect.Type) []any {
	k := pg + " " + t.String()
	domMu.Lock()
	defer domMu.Unlock()
	if d, ok := domCache[k]; ok {
		return d
	}
	d := domain1(r, pg, t)
	domCache[k] = d
	return d
}

func domain1(r picker, pg string, t reflect.Type) []any {
	s, arr := scalarOf(pg)
	if !arr {
		return elems(r, s, t)
	}
	et := t
	if t.Kind() == reflect.Slice {
		et = t.Elem()
	} else {
		et = reflect.TypeOf(rune(0))
	}
	es := elems(r, s, et)
	if es == nil {
		return nil
	}
	mk := func(x ...any) any {
		if t.Kind() == reflect.String {
			out := ""
			for _, e := range x {
				out += string(e.(rune))
			}
			return out
		}
		v := reflect.MakeSlice(t, 0, len(x))
		for _, e := range x {
			v = reflect.Append(v, reflect.ValueOf(e))
		}
		return v.Interface()
	}
	var out []any
	if t.Kind() == reflect.Slice {
		out = append(out, reflect.Zero(t).Interface())
	}
	out = append(out, mk())
	for _, e := range es {
		out = append(out, mk(e))
	}
	pairs := es
	if m := r.Pick(14, 60); len(pairs) > m {
		pairs = pick(pairs, m)
	}
	for _, a := range pairs {
		for _, b := range pairs {
			out = append(out, mk(a, b))
		}
	}
	triples := pick(es, r.Pick(4, 9))
	for _, a := range triples {
		for _, b := range triples {
			for _, c := range triples {
				out = append(out, mk(a, b, c))
			}
		}
	}
	return out
}

func pick(s []any, n int) []any {
	if len(s) <= n {
		return s
	}
	var out []any
	for i := 0; i < n; i++ {
		out = append(out, s[i*(len(s)-1)/(n-1)])
	}
	return out
}

var pgIntMax = map[string]int64{"Int2": 32767, "Int2Vector": 32767, "Int4": math.MaxInt32, "Int4Range": math.MaxInt32, "Int8": math.MaxInt64, "Int8Range": math.MaxInt64, "Numeric": math.MaxInt64, "NumRange": math.MaxInt64, "Float4": 1 << 20, "Float8": 1 << 53}

// numbers lists boundary numbers for the PostgreSQL type and Go type; ordered ascending for ranges
func numbers(s string, t reflect.Type) []any {
	var out []any
	add := func(x any) { out = append(out, reflect.ValueOf(x).Convert(t).Interface()) }
	mx := pgIntMax[s]
	k := t.Kind()
	if k == reflect.Float32 || k == reflect.Float64 {
		fs := []float64{0, 1, -1, 2, 10, 100, -12345, 1000000}
		switch s {
		case "Float4", "Float8", "Numeric", "NumRange":
			fs = append(fs, 0.1, -0.5, 2.5, 1e-7, 1e20)
			if s != "Float4" { // float4 keeps six digits of a float64
				fs = append(fs, 123456.789, 1e300, -1e-300, 16777217)
			}
			if s != "NumRange" {
				fs = append(fs, math.NaN(), math.Inf(1), math.Inf(-1))
			}
		default:
			if mx > 1<<30 {
				fs = append(fs, 1<<30, -(1 << 30))
			}
		}
		for _, f := range fs {
			if k == reflect.Float32 && (f > math.MaxFloat32 || f != 0 && math.Abs(f) < 1e-38) {
				continue
			}
			add(f)
		}
		return out
	}
	bits := t.Bits()
	if t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64 {
		var gm uint64 = math.MaxUint64 >> (64 - bits)
		for _, u := range []uint64{0, 1, 2, 9, 10, 99, 127, 128, 200, 255, 256, 32767, 32768, 65535, 1 << 31, math.MaxUint32, math.MaxInt64, math.MaxUint64} {
			if u <= gm {
				add(u)
			}
		}
		return out
	}
	gm := int64(math.MaxInt64) >> (64 - bits)
	for _, i := range []int64{0, 1, -1, 2, 10, -10, 99, 127, -128, 255, 32767, -32768, 32768, 65535, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MaxInt64, math.MinInt64} {
		if i <= gm && i >= -gm-1 {
			add(i)
		}
	}
	return out
}

var specials = []string{"", "a", `"`, `\`, ",", " ", "{", "}", "NULL", "null", "'", "\n", "\t", "a b", `a"b`, `a\b`, "a,b", "N", `\"`, `\\`, `""`, "{}", "é", "日本", "\a", "\b", "\r", "\v", "\f", "=>", " a", "a ", "Nope", "\u00a0", "NULLS", "NULLNULL", "nullx", "x\"y\\z,{NULL}", "[1,2)", "();"}

func strs(t reflect.Type, ss ...string) []any {
	var out []any
	if t == bytesType {
		out = append(out, []byte(nil))
	}
	for _, s := range ss {
		if t == bytesType {
			out = append(out, []byte(s))
		} else {
			out = append(out, reflect.ValueOf(s).Convert(t).Interface())
		}
	}
	return out
}

func zone(sec int) *time.Location { return time.FixedZone("", sec) }

func elems(r picker, s string, t reflect.Type) []any {
	switch s {
	case "Bool":
		return []any{true, false}
	case "Bit":
		if t.Kind() == reflect.Bool {
			return []any{true, false}
		}
		return []any{reflect.ValueOf(0).Convert(t).Interface(), reflect.ValueOf(1).Convert(t).Interface()}
	case "VarBit":
		switch t.Kind() {
		case reflect.Int64:
			return []any{int64(0), int64(1), int64(2), int64(5), int64(1023), int64(1 << 40), int64(math.MaxInt64), int64(-1)}
		case reflect.String:
			return strs(t, "1", "", "0", "101", "0000", "0011", strings.Repeat("10", 40))
		}
		var out []any
		out = append(out, reflect.Zero(t).Interface())
		for _, b := range []string{"", "1", "0", "10", "01", "111", "000", "10110", "101010101"} {
			v := reflect.MakeSlice(t, 0, 0)
			for _, c := range b {
				if t.Elem().Kind() == reflect.Bool {
					v = reflect.Append(v, reflect.ValueOf(c == '1'))
				} else {
					v = reflect.Append(v, reflect.ValueOf(uint8(c-'0')))
				}
			}
			out = append(out, v.Interface())
		}
		return out
	case "Int2", "Int4", "Int8", "Numeric", "Float4", "Float8":
		return numbers(s, t)
	case "Money":
		var out []any
		for _, n := range []int64{0, 1, -1, 29, 57, 99, -99, 100, 101, -250, 99999, 100000, 123456789, -123456789, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64} {
			out = append(out, n)
		}
		return out
	case "Int2Vector":
		out := []any{reflect.Zero(t).Interface(), reflect.MakeSlice(t, 0, 0).Interface()}
		ns := numbers(s, t.Elem())
		mk := func(x ...any) any {
			v := reflect.MakeSlice(t, 0, len(x))
			for _, e := range x {
				v = reflect.Append(v, reflect.ValueOf(e))
			}
			return v.Interface()
		}
		for _, a := range ns {
			out = append(out, mk(a))
		}
		for _, a := range pick(ns, r.Pick(5, 20)) {
			for _, b := range pick(ns, r.Pick(5, 20)) {
				out = append(out, mk(a, b))
			}
		}
		return append(out, mk(ns[0], ns[1], ns[2]))
	case "Int4Range", "Int8Range", "NumRange":
		ns := numbers(s, t.Elem())
		var out []any
		for _, a := range ns {
			for _, b := range pick(ns, r.Pick(6, 30)) {
				v := reflect.New(t).Elem()
				v.Index(0).Set(reflect.ValueOf(a))
				v.Index(1).Set(reflect.ValueOf(b))
				out = append(out, v.Interface())
			}
		}
		return out
	case "Date":
		if t != timeType {
			return strs(t, "2000-01-02", "1999-12-31", "0001-01-01", "9999-12-31", "2020-02-29")
		}
		d := func(y, m, dd int) time.Time { return time.Date(y, time.Month(m), dd, 0, 0, 0, 0, time.UTC) }
		return []any{d(2000, 1, 2), d(1999, 12, 31), d(1, 1, 1), d(9999, 12, 31), d(2020, 2, 29), d(1582, 10, 15), d(850, 3, 4), time.Date(2001, 5, 6, 23, 59, 59, 999, zone(2*3600)), time.Date(2001, 5, 6, 0, 30, 0, 0, zone(5*3600+1800)), time.Date(2001, 5, 6, 23, 30, 0, 0, zone(-8*3600))}
	case "Time":
		if t != timeType {
			return strs(t, "00:00:00", "23:59:59.999999", "12:34:56", "01:02:03.5", "00:00:00.000001", "04:05:06.789")
		}
		var out []any
		for _, x := range []string{"00:00:00", "23:59:59.999999", "12:34:56", "01:02:03.5", "00:00:00.000001", "04:05:06.789", "10:20:30.123456"} {
			v, _ := time.Parse("15:04:05.999999", x)
			out = append(out, v)
		}
		return append(out, time.Date(2001, 5, 6, 7, 8, 9, 10000, time.UTC), time.Date(2001, 5, 6, 7, 8, 9, 0, zone(7200)))
	case "Timetz":
		if t != timeType {
			return strs(t, "00:00:00+00", "23:59:59.999999+02", "12:34:56-08", "01:02:03.5+05:30", "00:00:00.000001-03:30")
		}
		var out []any
		for _, z := range []int{0, 3600, 2 * 3600, 5*3600 + 1800, -8 * 3600, -(3*3600 + 1800), 14 * 3600} {
			for _, ns := range []int{0, 500000000, 123456000, 1000} {
				out = append(out, time.Date(0, 1, 1, 13, 14, 15, ns, zone(z)))
			}
		}
		return append(out, time.Date(2001, 5, 6, 7, 8, 9, 0, zone(7200)), time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(0, 1, 1, 23, 59, 59, 999999000, time.UTC))
	case "Timestamp", "Timestamptz":
		var out []any
		zs := []int{0}
		if s == "Timestamptz" {
			zs = []int{0, 7200, -8 * 3600, 5*3600 + 1800, -(3*3600 + 1800)}
		}
		for _, z := range zs {
			for _, ns := range []int{0, 500000000, 123456000, 1000, 999999000} {
				out = append(out, time.Date(2004, 10, 19, 10, 23, 54, ns, zone(z)))
			}
		}
		return append(out, time.Date(1999, 1, 8, 4, 5, 6, 0, time.UTC), time.Date(2000, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(9999, 12, 31, 12, 0, 0, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1000, 2, 3, 4, 5, 6, 7000, time.UTC), time.Date(2010, 7, 1, 0, 0, 0, 0, zone(3600)))
	case "DateRange", "TsRange", "TstzRange":
		var ts []time.Time
		if s == "DateRange" {
			ts = []time.Time{{}, time.Date(1999, 1, 8, 0, 0, 0, 0, time.UTC), time.Date(2001, 5, 5, 0, 0, 0, 0, time.UTC), time.Date(9998, 12, 31, 0, 0, 0, 0, time.UTC)}
		} else {
			ts = []time.Time{time.Date(1999, 1, 8, 4, 5, 6, 0, time.UTC), time.Date(2001, 5, 5, 1, 2, 3, 123456000, time.UTC), time.Date(2004, 10, 19, 10, 23, 54, 500000000, time.UTC)}
			if s == "TstzRange" {
				ts = append(ts, time.Date(2005, 10, 19, 10, 23, 54, 0, zone(5*3600+1800)), time.Date(2006, 10, 19, 10, 23, 54, 1000, zone(-8*3600)))
			}
		}
		var out []any
		for i, a := range ts {
			for j, b := range ts {
				if i <= j || s == "DateRange" && j == 0 {
					out = append(out, [2]time.Time{a, b})
				}
			}
		}
		if s != "DateRange" {
			out = append(out, [2]time.Time{{}, ts[0]}, [2]time.Time{ts[0], {}}, [2]time.Time{})
		}
		return out
	case "Point":
		var out []any
		for _, p := range points() {
			out = append(out, p)
		}
		return out
	case "Lseg", "Box":
		var out []any
		for _, a := range points() {
			for _, b := range points() {
				out = append(out, [2][2]float64{a, b})
			}
		}
		return out
	case "Line":
		var out []any
		fs := []float64{0, 1, -1.5, 1e20, 0.1}
		for _, a := range fs {
			for _, b := range fs {
				for _, c := range fs {
					if a != 0 || b != 0 {
						out = append(out, [3]float64{a, b, c})
					}
				}
			}
		}
		return out
	case "Path", "Polygon":
		out := []any{[][2]float64(nil)}
		ps := points()
		for _, a := range ps {
			out = append(out, [][2]float64{a})
			for _, b := range ps {
				out = append(out, [][2]float64{a, b})
			}
		}
		return append(out, [][2]float64{ps[1], ps[2], ps[3]}, [][2]float64{ps[0], ps[1], ps[2], ps[3], ps[0]})
	case "UUID":
		us := []string{"a0eebc99-9c0b-4ef8-bb6d-6bb9bd380a11", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "01234567-89ab-cdef-0123-456789abcdef"}
		if t.Kind() == reflect.Array {
			var out []any
			for _, u := range us {
				b, _ := hex.DecodeString(strings.ReplaceAll(u, "-", ""))
				var a [16]byte
				copy(a[:], b)
				out = append(out, a)
			}
			return out
		}
		return strs(t, us...)
	case "CIDR", "Inet":
		if t == ipType {
			out := []any{net.IP(nil)}
			for _, x := range []string{"192.168.0.1", "0.0.0.0", "255.255.255.255", "::", "::1", "2001:4f8:3:ba:2e0:81ff:fe22:d1f1"} {
				out = append(out, net.ParseIP(x))
			}
			return append(out, net.IPv4(10, 1, 2, 3).To4())
		}
		out := []any{net.IPNet{}}
		cs := []string{"192.168.0.0/24", "10.0.0.0/8", "0.0.0.0/0", "192.168.100.128/25", "1.2.3.4/32", "2001:4f8:3:ba::/64", "::/0", "2001:4f8:3:ba:2e0:81ff:fe22:d1f1/128"}
		if s == "Inet" {
			cs = append(cs, "192.168.0.1/24", "10.255.3.1/8", "2001:4f8:3:ba::5/64")
		}
		for _, x := range cs {
			ip, n, _ := net.ParseCIDR(x)
			if len(n.IP) == 4 {
				ip = ip.To4()
			}
			out = append(out, net.IPNet{IP: ip, Mask: n.Mask})
		}
		if s == "Inet" {
			out = append(out, net.IPNet{IP: net.ParseIP("10.9.8.7")}, net.IPNet{IP: net.ParseIP("2001::7")})
		}
		return out
	case "MACAddr", "MACAddr8":
		var out []any
		xs := []string{"08002b010203", "000000000000", "ffffffffffff", "0123456789ab"}
		if s == "MACAddr8" {
			xs = []string{"08002b0102030405", "0000000000000000", "ffffffffffffffff", "0123456789abcdef"}
		}
		out = append(out, net.HardwareAddr(nil))
		for _, x := range xs {
			b, _ := hex.DecodeString(x)
			out = append(out, net.HardwareAddr(b))
		}
		return out
	case "Bytea":
		return strs(t, "", "a", "\x00", "\xff\xfe", `\`, `"`, ",", "\\x41", "NULL", "hello\x00world", "{}")
	case "HStore":
		return hstores(r, t)
	case "Char", "BPChar":
		var cs []rune
		if t.Kind() == reflect.Uint8 {
			cs = []rune("ab\"\\, {}'N0\t\n\r\f\v\a\b~.;\x01\x7f")
		} else {
			cs = []rune("ab\"\\, {}'N0\t\n\r\f\v\a\b~.;é日\x01\x7f\u00a0😀")
		}
		var out []any
		if t.Kind() == reflect.String {
			out = append(out, "")
		}
		for _, c := range cs {
			if t.Kind() == reflect.String {
				out = append(out, string(c))
			} else {
				out = append(out, reflect.ValueOf(c).Convert(t).Interface())
			}
		}
		return out
	case "Text", "VarChar":
		return strs(t, specials...)
	case "TSQuery":
		return strs(t, `'fat'`, `'fat' & 'rat'`, `'fat' | !'rat'`, `'a b'`, `'it''s'`, `'a\\b'`, `'a"b'`, `'fat' <-> 'rat'`, `'NULL'`, `'a,b'`, `'fat':*AB`, `'{'`)
	case "TSVector":
		var out []any
		out = append(out, reflect.Zero(t).Interface(), reflect.MakeSlice(t, 0, 0).Interface())
		for _, l := range [][]string{{`'cat'`}, {`'cat'`, `'fat'`}, {`'cat':2`, `'fat':7,11`}, {`'cat':2B,4C`}, {`'a b'`}, {`'it''s'`}, {`'a"b'`}, {`'a\\b'`}, {`'a b':3`, `'c,d'`}, {`'NULL'`}, {`'N'`}, {`','`}, {`'{'`, `'}'`}} {
			v := reflect.MakeSlice(t, 0, 0)
			for _, x := range l {
				if t.Elem() == bytesType {
					v = reflect.Append(v, reflect.ValueOf([]byte(x)))
				} else {
					v = reflect.Append(v, reflect.ValueOf(x))
				}
			}
			out = append(out, v.Interface())
		}
		return out
	case "JSON", "XML":
		return docElems(s, t)
	case "Any":
		return []any{"x"}
	}
	return nil
}

func points() [][2]float64 {
	return [][2]float64{{0, 0}, {1, -1.5}, {1e20, 1e-7}, {0.1, 2}, {-3, 123456.789}}
}

func hstores(r picker, t reflect.Type) []any {
	ks := []string{"a", "", "b", "N", "NULL", `"`, `\`, ",", "=>", " ", "a b", "é", "\n", "\t", `a"b`, `a\b`, `x\"y`, "\a", "{", "}", "'"}
	var vs []*string
	vs = append(vs, nil)
	for i := range ks {
		vs = append(vs, &ks[i])
	}
	et := t.Elem()
	ev := func(s *string) (reflect.Value, bool) {
		switch et {
		case stringType:
			if s == nil {
				return reflect.Value{}, false
			}
			return reflect.ValueOf(*s), true
		case nullStrType:
			if s == nil {
				return reflect.ValueOf(sql.NullString{}), true
			}
			return reflect.ValueOf(sql.NullString{String: *s, Valid: true}), true
		}
		if s == nil {
			return reflect.Zero(et), true
		}
		c := *s
		return reflect.ValueOf(&c), true
	}
	out := []any{reflect.Zero(t).Interface(), reflect.MakeMap(t).Interface()}
	for _, k := range ks {
		for _, v := range vs {
			e, ok := ev(v)
			if !ok || v != nil && *v != "a" && k != "a" && *v != k {
				continue
			}
			m := reflect.MakeMap(t)
			m.SetMapIndex(reflect.ValueOf(k), e)
			out = append(out, m.Interface())
		}
	}
	// two and three pairs
	small := ks[:r.Pick(7, 20)]
	for i, a := range small {
		for _, b := range small[i+1:] {
			for _, v := range []*string{nil, &ks[1], &ks[2], &ks[5]} {
				for _, v2 := range []*string{nil, &ks[1], &ks[2], &ks[6]} {
					e, ok := ev(v)
					e2, ok2 := ev(v2)
					if !ok || !ok2 {
						continue
					}
					m := reflect.MakeMap(t)
					m.SetMapIndex(reflect.ValueOf(a), e)
					m.SetMapIndex(reflect.ValueOf(b), e2)
					out = append(out, m.Interface())
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------------------------------------
// JSON and XML

type docS struct {
	XMLName struct{} `json:"-" xml:"foo"`
	A       string   `json:"a,omitempty" xml:"a,attr,omitempty"`
	B       *int     `json:"b,omitempty" xml:"b,omitempty"`
	C       []string `json:"c,omitempty" xml:"c,omitempty"`
}

func docElems(s string, t reflect.Type) []any {
	if t == docType {
		return []any{doc{name: "nil", nilable: true, isNil: true}}
	}
	if t == bytesType {
		if s == "JSON" {
			return strs(t, `{"a": "b"}`, `1`, `"x\"y"`, `null`, `[1, 2]`, `"\\"`, `"a,b"`, `{}`, `[]`, `""`, `"é"`, `{"a": {"b": [null, "c\\\"d"]}}`, `"NULL"`, `"{"`, `-1.5`, `true`)
		}
		return strs(t, `<a>b</a>`, `<a x="1">b, c</a>`, `<a>\</a>`, `NULL`, `<a/>`, `x`, `<a>"</a>`, `{}`, ` <b/> `, `<é/>`, `null`, `a,b`)
	}
	one, two := 1, -2
	ds := []docS{{}, {A: "x"}, {A: `"\ <&`, B: &one}, {A: "é", C: []string{"a", "z", `"`}}, {B: &two, C: []string{"1"}}}
	switch t {
	case reflect.TypeOf(docS{}):
		var out []any
		for _, d := range ds {
			out = append(out, d)
		}
		return out
	case reflect.TypeOf(&docS{}):
		var out []any
		for i := range ds {
			out = append(out, &ds[i])
		}
		return out
	case reflect.TypeOf([]docS{}):
		return []any{[]docS{}, ds[:1:1], ds[1:3:3], []docS{ds[3]}}
	case reflect.TypeOf(map[string]any{}):
		return []any{map[string]any{}, map[string]any{"a": "b"}, map[string]any{"c": []any{1.5, nil, "x"}}, map[string]any{"a": map[string]any{"b": true}}}
	case reflect.TypeOf([]any{}):
		return []any{[]any{}, []any{"a"}, []any{1.0, nil, false}, []any{map[string]any{"x": "y"}}}
	case reflect.TypeOf([]int{}):
		return []any{[]int{}, []int{1}, []int{3, 2, 1}}
	case reflect.TypeOf(map[string]int{}):
		return []any{map[string]int{}, map[string]int{"a": 1}, map[string]int{"b": 2, "c": 3}}
	case stringType:
		return strs(t, "a", "", `"\`, "é<>&", "null")
	case reflect.TypeOf(0):
		return []any{7, 0, -1}
	case reflect.TypeOf(false):
		return []any{true, false}
	}
	return nil
}

// ---------------------------------------------------------------------------------------------
// Sources: SQL expressions whose values the readers get

type source struct {
	expr    string
	want    []reflect.Value
	orError bool
	mayFail bool
	denote  func(db *sql.DB, got any) bool
}

func (s source) key() string { return s.expr }

func sources(r picker, pg string, t reflect.Type) []source {
	if pg == "Any" {
		return anySources(t)
	}
	var out []source
	s, arr := scalarOf(pg)
	for _, sqlt := range sqlTypes(pg) {
		dt := sqlt
		switch s {
		case "Char", "BPChar":
			dt = strings.Replace(sqlt, `"bpchar"`, "char(1)", 1)
		case "Bit":
			dt = strings.Replace(sqlt, `"bit"`, "bit(1)", 1)
		}
		for _, v := range domain(r, pg, t) {
			alts, ok := expr(pg, sqlt, v)
			if !ok {
				continue
			}
			rv := reflect.ValueOf(v)
			if sqlt == "jsonb[]" || sqlt == "jsonb" {
				// jsonb normalises; compared after normalisation below
				dt = sqlt
			}
			for _, a := range alts {
				if a == "" {
					continue
				}
				want := canonGo(pg, rv)
				if dt != sqlt && (!arr || t.Kind() == reflect.Slice) {
					want = padded(want)
				}
				src := source{expr: "(" + a + ")::" + dt, want: []reflect.Value{want}, mayFail: true, orError: false}
				if s == "Timetz" && !arr && t != timeType {
					src.want = nil // a text may spell the zone offset in full
					src.denote = denoting(pg, sqlt, src)
				}
				out = append(out, src)
			}
		}
		if !arr {
			for _, x := range exotic(s, t) {
				x.expr = strings.ReplaceAll(x.expr, "$T", sqlt)
				x.denote = denoting(pg, sqlt, x)
				out = append(out, x)
			}
			continue
		}
		base := strings.TrimSuffix(sqlt, "[]")
		et := reflect.TypeOf(rune(0))
		if t.Kind() == reflect.Slice {
			et = t.Elem()
		}
		// elements the Go domain does not have
		for _, x := range exotic(s, et) {
			x.expr = "ARRAY[" + strings.ReplaceAll(x.expr, "$T", base) + "]::" + dt
			for i := range x.want {
				sl := reflect.MakeSlice(reflect.SliceOf(et), 0, 1)
				sl = reflect.Append(sl, x.want[i])
				x.want[i] = conv1(sl, t)
			}
			x.denote = denoting(pg, sqlt, x)
			out = append(out, x)
		}
		// NULL elements: the zero value of the element, or an error; never lost or moved
		es := elems(r, s, et)
		var good []any
		for _, e := range es {
			if ee, ok := scalarExpr(s, base, reflect.ValueOf(e), 0); ok && !strings.HasPrefix(ee, "NULL") && ee != "" {
				good = append(good, e)
			}
		}
		good = pick(good, 5)
		for _, shape := range []string{"N", "NN", "xN", "Nx", "xNy", "NxN", "xyN"} {
			for gi := range good {
				sl := reflect.MakeSlice(reflect.SliceOf(et), 0, 3)
				var p []string
				k := gi
				hasX := false
				ok := true
				for _, c := range shape {
					if c == 'N' {
						p = append(p, "NULL")
						sl = reflect.Append(sl, reflect.Zero(et))
						continue
					}
					hasX = true
					e := good[k%len(good)]
					k++
					ee, o := scalarExpr(s, base, reflect.ValueOf(e), 0)
					ok = ok && o
					p = append(p, ee)
					cv := canonScalar(s, reflect.ValueOf(e))
					if dt != sqlt {
						cv = padded(cv)
					}
					sl = reflect.Append(sl, cv)
				}
				if ok {
					out = append(out, source{expr: "ARRAY[" + strings.Join(p, ",") + "]::" + dt, want: []reflect.Value{conv1(sl, t)}, orError: true, mayFail: true})
				}
				if !hasX {
					break
				}
			}
		}
	}
	// the Go domain may hold values the database refuses (out of range); those expressions fail
	return dedup(out)
}

// padded is what char(1) makes of v: the empty string becomes a blank.
func padded(v reflect.Value) reflect.Value {
	switch x := v.Interface().(type) {
	case string:
		if x == "" {
			return reflect.ValueOf(" ")
		}
	case []string:
		if x == nil {
			return v
		}
		out := append([]string{}, x...)
		for i := range out {
			if out[i] == "" {
				out[i] = " "
			}
		}
		return reflect.ValueOf(out)
	}
	return v
}

func conv1(sl reflect.Value, t reflect.Type) reflect.Value {
	if t.Kind() == reflect.String {
		return reflect.ValueOf(string(sl.Interface().([]rune)))
	}
	return sl.Convert(t)
}

func dedup(in []source) []source {
	seen := map[string]bool{}
	var out []source
	for _, s := range in {
		if !seen[s.expr] {
			seen[s.expr] = true
			out = append(out, s)
		}
	}
	return out
}

// denoting accepts any Go value whose reference rendering is the same database value.
func denoting(pg, sqlt string, x source) func(*sql.DB, any) bool {
	if x.denote != nil || len(x.want) > 0 {
		return x.denote
	}
	return func(db *sql.DB, got any) bool {
		defer func() { recover() }()
		alts, ok := expr(pg, sqlt, got)
		if !ok {
			return false
		}
		want := ask(db, x.expr)
		for _, a := range alts {
			if a == "" {
				continue
			}
			g := ask(db, a)
			if g.err == nil && g.null == want.null && g.text == want.text {
				return true
			}
		}
		return false
	}
}

// exotic lists scalar database values outside the Go domain; $T is the type.
func exotic(s string, t reflect.Type) []source {
	var out []source
	either := func(xs ...string) {
		for _, x := range xs {
			out = append(out, source{expr: q(x) + "::$T", orError: true})
		}
	}
	numbersFor := func(ds []string) {
		for _, d := range ds {
			sc := source{expr: q(d) + "::$T"}
			w, ok := parseNum(d, t)
			if ok {
				sc.want = []reflect.Value{w}
			}
			sc.orError = !ok || strings.ContainsAny(d, ".eNI")
			out = append(out, sc)
		}
	}
	i2 := []string{"127", "128", "-128", "-129", "255", "256", "32767", "-32768", "-1"}
	i4 := append(i2, "32768", "-32769", "65535", "65536", "2147483647", "-2147483648")
	i8 := append(i4, "2147483648", "4294967295", "4294967296", "-2147483649", "9007199254740993", "9223372036854775807", "-9223372036854775808")
	fl := []string{"1.5", "-0.1", "0.000001", "1e15", "1e20", "1e-7", "NaN", "Infinity", "-Infinity"}
	switch s {
	case "Int2":
		numbersFor(i2)
	case "Int4":
		numbersFor(i4)
	case "Int8":
		numbersFor(i8)
	case "Numeric":
		numbersFor(append(i8, append(fl, "18446744073709551615", "18446744073709551616", "1.0", "1.50", "123456789012345678901234567890.5")...))
	case "Float4":
		numbersFor(append(i2, fl...))
	case "Float8":
		numbersFor(append(i4, append(fl, "1e300", "-1e-300", "4.9e-324")...))
	case "Int4Range", "Int8Range", "NumRange":
		et := t.Elem()
		var ds []string
		switch s {
		case "Int4Range":
			ds = []string{"-2147483648", "-129", "-1", "0", "128", "256", "32768", "65536", "2147483647"}
		case "Int8Range":
			ds = []string{"-9223372036854775808", "-2147483649", "-129", "0", "256", "4294967296", "9223372036854775807"}
		default:
			ds = []string{"-1e30", "-129", "-0.5", "0", "1.5", "256", "4294967296", "1e30"}
		}
		for i, a := range ds {
			for _, b := range ds[i+1:] {
				sc := source{expr: fmt.Sprintf("$T(%s,%s)", a, b)}
				x, ok1 := parseNum(a, et)
				y, ok2 := parseNum(b, et)
				if ok1 && ok2 {
					v := reflect.New(t).Elem()
					v.Index(0).Set(x)
					v.Index(1).Set(y)
					sc.want = []reflect.Value{v}
				}
				sc.orError = !(ok1 && ok2) || strings.ContainsAny(a+b, ".e")
				out = append(out, sc)
			}
		}
		unb := func(e string, i int, d string) {
			v := reflect.New(t).Elem()
			if i >= 0 {
				x, _ := parseNum(d, et)
				v.Index(i).Set(x)
			}
			out = append(out, source{expr: e, want: []reflect.Value{v}, orError: true})
		}
		unb("$T(NULL,NULL)", -1, "")
		unb("$T(3,NULL)", 0, "3")
		unb("$T(NULL,7)", 1, "7")
		unb("'empty'::$T", -1, "")
	case "DateRange", "TsRange", "TstzRange":
		a := time.Date(1999, 1, 8, 0, 0, 0, 0, time.UTC)
		b := time.Date(2001, 5, 5, 0, 0, 0, 0, time.UTC)
		add := func(e string, x, y time.Time) {
			out = append(out, source{expr: e, want: []reflect.Value{reflect.ValueOf([2]time.Time{x, y})}, orError: true})
		}
		z := ""
		if s == "TstzRange" {
			z = "+00"
		}
		add("$T(NULL,NULL)", time.Time{}, time.Time{})
		add("$T('1999-01-08"+z+"',NULL)", a, time.Time{})
		add("$T(NULL,'2001-05-05"+z+"')", time.Time{}, b)
		add("'empty'::$T", time.Time{}, time.Time{})
		if s == "DateRange" {
			add("'(1999-01-07,2001-05-04]'::$T", a, b)
		} else {
			add("'(1999-01-08"+z+",2001-05-05"+z+"]'::$T", a, b)
			add("'[1999-01-08"+z+",2001-05-05"+z+"]'::$T", a, b)
		}
		out = append(out, source{expr: "$T('-infinity','infinity')", orError: true, denote: func(*sql.DB, any) bool { return false }})
	case "Date":
		either("infinity", "-infinity", "0044-03-15 BC", "10000-01-01")
	case "Time":
		either("24:00:00")
	case "Timetz":
		either("24:00:00+00", "10:00:00+15", "10:00:00-15:59") // lib/pq loses the seconds of an offset
	case "Timestamp", "Timestamptz":
		either("infinity", "-infinity", "0044-03-15 10:00:00 BC", "12345-01-01 00:00:00", "1890-01-01 00:00:00", "0001-01-01 00:00:00")
	case "Point":
		either("(Infinity,-Infinity)", "(1e300,-1e-300)")
	case "Lseg":
		either("[(1e300,1),(2,-1e-300)]")
	case "Box":
		either("(1e300,1),(2,-1e-300)")
	case "Path":
		either("((0,0),(1,1))", "[(1e300,1),(2,2)]", "((1e300,1),(2,2),(3,3))")
	case "CIDR":
		either("10.1.2.3/32", "10/8") // net.IPNet has no IPv4-mapped networks
	case "Inet":
		either("10.1.2.3/32", "10.0.0.1/8", "10.0.0.0/8", "fe80::1/64", "0.0.0.0/0")
	case "Char", "BPChar":
		either("é", "日")
	case "VarBit":
		if t.Kind() == reflect.Int64 { // leading zeros are not part of a number
			out = append(out, source{expr: "'000101'::$T", want: []reflect.Value{reflect.ValueOf(int64(5))}})
		} else {
			either("000101")
		}
		either("", "0", strings.Repeat("1", 63), strings.Repeat("1", 64), "1"+strings.Repeat("0", 63))
	case "HStore":
		if t.Elem() == stringType {
			// a NULL value has no string: the empty string, or an error
			for _, e := range []string{`"a"=>NULL`, `"a"=>NULL,"b"=>"1"`, `"N"=>NULL,"b"=>NULL`, `"a"=>"1","b"=>NULL`} {
				m := map[string]string{}
				for _, p := range strings.Split(e, ",") {
					kv := strings.Split(p, "=>")
					k, v := strings.Trim(kv[0], `"`), strings.Trim(kv[1], `"`)
					if v == "NULL" {
						v = ""
					}
					m[k] = v
				}
				out = append(out, source{expr: q(e) + "::$T", want: []reflect.Value{reflect.ValueOf(m)}, orError: true})
			}
		}
	case "JSON":
		if t != bytesType {
			out = append(out, source{expr: "'null'::$T", want: []reflect.Value{reflect.Zero(t)}, orError: true})
		}
	case "Text", "VarChar":
		// values beyond the listed specials: every printable ASCII character
		for c := 33; c < 127; c++ {
			v := reflect.ValueOf(string(rune(c)))
			w := v
			if t == bytesType {
				w = reflect.ValueOf([]byte(v.String()))
			}
			out = append(out, source{expr: q(v.String()) + "::$T", want: []reflect.Value{w}})
		}
	}
	return out
}

// parseNum gives the value of t that a decimal denotes: exact for integers, nearest for floats.
func parseNum(d string, t reflect.Type) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(d, t.Bits())
		if err != nil {
			return v, false
		}
		v.SetFloat(f)
		return v, true
	}
	rat, ok := new(big.Rat).SetString(d)
	if !ok || !rat.IsInt() {
		return v, false
	}
	n := rat.Num()
	if v.CanInt() {
		if !n.IsInt64() || v.OverflowInt(n.Int64()) {
			return v, false
		}
		v.SetInt(n.Int64())
		return v, true
	}
	if !n.IsUint64() || v.OverflowUint(n.Uint64()) {
		return v, false
	}
	v.SetUint(n.Uint64())
	return v, true
}

func anySources(t reflect.Type) []source {
	var out []source
	add := func(e string, v any) {
		w := reflect.New(t).Elem()
		if v != nil {
			w.Set(reflect.ValueOf(v))
		}
		out = append(out, source{expr: e, want: []reflect.Value{w}})
	}
	add("'x'::uuid[]::text", nil)
	out = nil
	add("1::int4", int64(1))
	add("true", true)
	add("'{1,2}'::int4[]", []byte("{1,2}"))
	add("'\\x0102'::bytea", []byte{1, 2})
	add("1.5::float8", 1.5)
	add("'(1,2)'::point", []byte("(1,2)"))
	return out
}

// ---------------------------------------------------------------------------------------------
// Comparison

type pgval struct {
	null bool
	text string
	err  error
}

func (p pgval) String() string {
	switch {
	case p.err != nil:
		return "error(" + p.err.Error() + ")"
	case p.null:
		return "NULL"
	}
	return fmt.Sprintf("%q", p.text)
}

func ask(db *sql.DB, e string, args ...any) (out pgval) {
	var s sql.NullString
	out.err = db.QueryRow("SELECT CASE WHEN x IS NOT DISTINCT FROM NULL THEN NULL ELSE format('%s', x) END FROM (SELECT "+e+" AS x) q", args...).Scan(&s)
	if out.err != nil && strings.Contains(out.err.Error(), "could not identify an equality operator") {
		out.err = db.QueryRow("SELECT CASE WHEN x IS NULL THEN NULL ELSE format('%s', x) END FROM (SELECT "+e+" AS x) q", args...).Scan(&s)
	}
	out.null, out.text = !s.Valid, s.String
	return out
}

func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "NULL"
	case []byte:
		if x == nil {
			return "[]byte(nil)"
		}
		return fmt.Sprintf("%q", x)
	case string:
		return fmt.Sprintf("%q", x)
	case time.Time:
		return x.Format(time.RFC3339Nano)
	case doc:
		return x.name
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Slice:
		if rv.IsNil() {
			return "nil"
		}
		if ip, ok := v.(net.IP); ok {
			return ip.String()
		}
		fallthrough
	case reflect.Array:
		var p []string
		for i := 0; i < rv.Len(); i++ {
			p = append(p, show(rv.Index(i).Interface()))
		}
		return "[" + strings.Join(p, ",") + "]"
	case reflect.Map:
		if rv.IsNil() {
			return "nil"
		}
		var p []string
		for _, k := range rv.MapKeys() {
			p = append(p, show(k.Interface())+"=>"+show(rv.MapIndex(k).Interface()))
		}
		sort.Strings(p)
		return "{" + strings.Join(p, ",") + "}"
	case reflect.Ptr:
		if rv.IsNil() {
			return "nil"
		}
		return "&" + show(rv.Elem().Interface())
	}
	if n, ok := v.(net.IPNet); ok {
		return n.String()
	}
	if n, ok := v.(sql.NullString); ok {
		if !n.Valid {
			return "null"
		}
		return fmt.Sprintf("%q", n.String)
	}
	return fmt.Sprintf("%v", v)
}

// same compares two Go values of one type by what they denote.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch x := a.Interface().(type) {
	case time.Time:
		y := b.Interface().(time.Time)
		if x.Year() == 0 && y.Year() == 0 { // a time of day: its offset is part of the value
			_, ox := x.Zone()
			_, oy := y.Zone()
			if ox != oy {
				return false
			}
		}
		return x.Equal(y)
	case net.IP:
		y := b.Interface().(net.IP)
		return (x == nil) == (y == nil) && x.Equal(y)
	case net.IPNet:
		y := b.Interface().(net.IPNet)
		if (x.IP == nil) != (y.IP == nil) || !x.IP.Equal(y.IP) {
			return false
		}
		return bytes.Equal(x.Mask, y.Mask) || fullMask(x) && fullMask(y) // an address without a mask is a host
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() || !same(a.MapIndex(k), bv) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		return reflect.DeepEqual(a.Interface(), b.Interface())
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		return x == y || x != x && y != y
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func fullMask(n net.IPNet) bool {
	if len(n.Mask) == 0 {
		return true
	}
	ones, bits := n.Mask.Size()
	return bits > 0 && ones == bits
}
