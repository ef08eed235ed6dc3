package main

// Values given to the library, each with the database form it must be bound
// as.  Every value comes as a pair (a for the run, b for the shadow run): the
// two differ in content only.

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/amarin/query"
)

// Val is the value record of the specification.
type Val struct {
	K string `json:"k"` // raw | valuer | provider | err | list
	T string `json:"t"`
	V string `json:"v"`
	L []Val  `json:"l"`

	a, b any
}

type (
	intValuer    int
	stringValuer struct{ s string }
	bytesValuer  struct{ s string }
	ptrValuer    struct{ n int }
	listValuer   []int // a list that knows its own database form
	nilValuer    struct{}
	errValuer    struct{ id string }
	intProvider  int
	strProvider  struct{ s string }
	nilProvider  struct{}
	namedString  string
	namedInt     int
	plainStruct  struct{ N int }
)

func (v intValuer) Value() (driver.Value, error)    { return int64(v) + 1, nil }
func (v stringValuer) Value() (driver.Value, error) { return "db:" + v.s, nil }
func (v bytesValuer) Value() (driver.Value, error)  { return []byte(v.s), nil }
func (v *ptrValuer) Value() (driver.Value, error)   { return int64(v.n) * 2, nil }
func (v listValuer) Value() (driver.Value, error)   { return fmt.Sprint([]int(v)), nil }
func (v nilValuer) Value() (driver.Value, error)    { return nil, nil }
func (v errValuer) Value() (driver.Value, error)    { return nil, failures[len(v.id)%len(failures)] }
func (p intProvider) DatabaseValue() interface{}    { return int(p) * 3 }
func (p strProvider) DatabaseValue() interface{}    { return "db:" + p.s }
func (p nilProvider) DatabaseValue() interface{}    { return nil }

// a value may have no database form for any reason
var failures = []error{errors.New("no database form"), driver.ErrSkip, fmt.Errorf("wrapped: %w", driver.ErrSkip), sql.ErrNoRows, io.EOF,
	context.Canceled, driver.ErrBadConn, query.Error, fmt.Errorf("%w: no database form", query.Error), driver.ErrRemoveArgument}

// canon is the type and the text of a parameter as bound.
func canon(x any) [2]string {
	switch v := x.(type) {
	case nil:
		return [2]string{"nil", ""}
	case errValuer:
		return [2]string{"err", v.id}
	case time.Time:
		return [2]string{"time.Time", v.Format(time.RFC3339Nano)}
	case string:
		return [2]string{"string", v}
	case []byte:
		if v == nil {
			return [2]string{"[]uint8", "<nil>"}
		}
		return [2]string{"[]uint8", hex.EncodeToString(v)}
	}
	r := reflect.ValueOf(x)
	t := r.Type().String()
	switch r.Kind() {
	case reflect.Slice:
		if r.Type().Elem().Kind() == reflect.Uint8 {
			if r.IsNil() {
				return [2]string{t, "<nil>"}
			}
			return [2]string{t, hex.EncodeToString(r.Bytes())}
		}
		var sb strings.Builder
		for i := 0; i < r.Len(); i++ {
			c := canon(r.Index(i).Interface())
			sb.WriteString(c[0] + "=" + c[1] + ";")
		}
		return [2]string{"list:" + t, sb.String()}
	case reflect.Pointer:
		if r.IsNil() {
			return [2]string{t, "<nil>"}
		}
		c := canon(r.Elem().Interface())
		return [2]string{t, c[1]}
	}
	return [2]string{t, fmt.Sprintf("%+v", x)}
}

func canonAll(xs []any) [][2]string {
	res := make([][2]string, len(xs))
	for i, x := range xs {
		res[i] = canon(x)
	}
	return res
}

// rawVal is bound unchanged; dbVal as db.
func rawVal(a, b any) Val {
	c := canon(a)
	return Val{K: "raw", T: c[0], V: c[1], L: []Val{}, a: a, b: b}
}
func dbVal(k string, a, b, db any) Val {
	c := canon(db)
	return Val{K: k, T: c[0], V: c[1], L: []Val{}, a: a, b: b}
}

// bound is the parameter the value becomes when it is not a list.
func bound(v Val) [2]string { return [2]string{v.T, v.V} }

func listOf(a, b any, els ...Val) Val {
	t := reflect.TypeOf(a).String()
	if els == nil {
		els = []Val{}
	}
	return Val{K: "list", T: t, L: els, a: a, b: b}
}

type valueGen struct {
	rnd   *rand.Rand
	n     int
	wide  bool
	tight bool
	seen  []Val // scalars made before: the same value may be given again
}

// marker text: appears nowhere else, so that it can be looked for in SQL text
func (g *valueGen) num() (int, int) {
	g.n++
	return 7000000 + g.n, 8000000 + g.n
}

var hostile = []string{
	"zq%d", "zq%d' OR '1'='1", "zq%d\"; DROP TABLE t; --", "?zq%d?", "$1 zq%d $2", "zq%d)", "(zq%d",
	"%%zq%d%%", "zq%d\x00", "zq%d\\", "zq%d /* x */", "NULL zq%d", "zq%d\n", "Ünïçødé zq%d", " zq%d ", "zq%d_", "%%%%zq%d",
}

func (g *valueGen) str() (string, string) {
	a, b := g.num()
	f := hostile[0]
	if g.rnd.Intn(3) > 0 {
		f = hostile[g.rnd.Intn(len(hostile))]
	}
	if g.rnd.Intn(40) == 0 { // the empty text is a text too
		return "", fmt.Sprintf("zq%d", b)
	}
	return fmt.Sprintf(f, a), fmt.Sprintf(f, b)
}

func (g *valueGen) text() Val {
	a, b := g.str()
	if g.rnd.Intn(10) == 0 {
		return g.textKind(g.rnd.Intn(len(texts)))
	}
	return rawVal(a, b)
}

var texts = []string{"", " ", "%", "_", "%%", "\\", "\\%", "'", "''", "$1", "?", "\x00", "\xff", "NULL", strings.Repeat("lang ", 60), "\n", "a", "A",
	"a%", "%a", "a%b", "a_b", "a\\_b", "100%", "Ü", "?a?", "a'b", "a b"}

func (g *valueGen) textKind(k int) Val {
	_, b := g.str()
	return rawVal(texts[k%len(texts)], b)
}

const scalarKinds = 27

// scalar makes a value that is one parameter wherever it is used: mostly a new
// one, sometimes one at the edge of its type or one given before.
func (g *valueGen) scalar() Val {
	most := 12
	if g.tight && g.rnd.Intn(2) == 0 && len(g.seen) > 0 {
		most = 1
	}
	if g.tight && g.rnd.Intn(6) == 0 {
		return g.scalarKind(3) // nil
	}
	switch k := g.rnd.Intn(most); {
	case k == 0 && len(g.seen) > 0:
		return g.seen[g.rnd.Intn(len(g.seen))]
	case k == 1:
		return g.edge()
	case k == 2: // the other run has a value of another kind
		v, o := g.scalarKind(g.rnd.Intn(scalarKinds+6)), g.scalarKind(g.rnd.Intn(scalarKinds+6))
		if v.K != "err" && o.K != "err" {
			v.b = o.b
		}
		return v
	}
	v := g.scalarKind(g.rnd.Intn(scalarKinds + 6))
	if len(g.seen) < 12 {
		g.seen = append(g.seen, v)
	} else {
		g.seen[g.rnd.Intn(12)] = v
	}
	return v
}

// edge makes a value at the edge of its type; the other run has a plain one.
func (g *valueGen) edge() Val {
	return g.edgeKind(g.rnd.Intn(len(edges)))
}

var edges = []any{0, 1, -1, math.MaxInt, math.MinInt, int64(math.MaxInt64), int64(math.MinInt64), uint64(math.MaxUint64), uint8(0),
	int8(-128), math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 1e300, float32(0.1), "", " ", "0", "NULL", "null",
	"'", "$1", "?", "\x00", "\xff\xfe", "true", "%", "_", strings.Repeat("long ", 60), []byte{}, []byte(nil), (*int)(nil), (*string)(nil),
	false, true, time.Time{}, time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.FixedZone("x", -5*3600)), plainStruct{}, [2]int{}, rune('x'),
	namedString(""), namedInt(0), complex(1, 2), uintptr(0), map[string]int{"a": 1}, struct{}{}, "1", "-1", "1.5", "2020-02-29", "t", "{}", "[1]", "a,b", -1.5, 1.0,
	math.SmallestNonzeroFloat64, uint(1), int32(math.MaxInt32), time.Duration(1), time.Unix(0, 0)}

func (g *valueGen) edgeKind(k int) Val {
	_, m := g.num()
	a := edges[k%len(edges)]
	var b any = m
	if g.rnd.Intn(2) == 0 {
		b = edges[g.rnd.Intn(len(edges))]
	}
	return rawVal(a, b)
}

// twice makes a list element equal to one before it.
func twice[T any](g *valueGen, a, b []T, els []Val) {
	if n := len(els); n > 1 && g.rnd.Intn(3) == 0 {
		for k := g.rnd.Intn(3); k >= 0; k-- {
			i := 1 + g.rnd.Intn(n-1)
			j := i - 1
			if g.rnd.Intn(3) == 0 {
				j = g.rnd.Intn(i)
			}
			a[i], els[i] = a[j], els[j]
			if g.rnd.Intn(2) == 0 {
				b[i] = b[j]
			}
		}
	}
}

func (g *valueGen) scalarKind(kind int) Val {
	n, m := g.num()
	switch kind {
	case 0:
		return rawVal(int64(n), int64(m))
	case 1:
		return rawVal(float64(n)+0.25, float64(m)+0.75)
	case 2:
		return rawVal(n%2 == 0, n%2 != 0)
	case 3:
		return rawVal(nil, nil)
	case 4:
		return rawVal([]byte(fmt.Sprintf("zq%d", n)), []byte(fmt.Sprintf("zq%d'", m)))
	case 5:
		return rawVal(time.Unix(int64(n)*100, int64(n)).UTC(), time.Unix(int64(m)*100, int64(m)).UTC())
	case 6:
		return dbVal("valuer", intValuer(n), intValuer(m), int64(n)+1)
	case 7:
		a, b := g.str()
		return dbVal("valuer", stringValuer{a}, stringValuer{b}, "db:"+a)
	case 8:
		a, b := g.str()
		return dbVal("provider", strProvider{a}, strProvider{b}, "db:"+a)
	case 9:
		return dbVal("provider", intProvider(n), intProvider(m), n*3)
	case 10:
		return rawVal(&n, &m)
	case 11:
		a, b := g.str()
		return dbVal("valuer", sql.NullString{String: a, Valid: true}, sql.NullString{String: b, Valid: true}, a)
	case 12:
		return dbVal("valuer", sql.NullInt64{}, sql.NullInt64{}, nil)
	case 13:
		return dbVal("valuer", &ptrValuer{n}, &ptrValuer{m}, int64(n)*2)
	case 14:
		return dbVal("valuer", listValuer{n, 1}, listValuer{m, 2}, fmt.Sprint([]int{n, 1}))
	case 15:
		return dbVal("valuer", nilValuer{}, nilValuer{}, nil)
	case 16:
		id := fmt.Sprint(n) + strings.Repeat("e", g.rnd.Intn(len(failures)))
		return dbVal("err", errValuer{id}, errValuer{fmt.Sprint(m)}, errValuer{id})
	case 17:
		a, b := g.str()
		return rawVal(namedString(a), namedString(b))
	case 18:
		return rawVal([2]int{n, 1}, [2]int{m, 2})
	case 19:
		a, b := g.str()
		return dbVal("valuer", bytesValuer{a}, bytesValuer{b}, []byte(a))
	case 20:
		return rawVal(uint8(n), uint8(n+1))
	case 21:
		return rawVal(json.RawMessage(fmt.Sprintf("{%d}", n)), json.RawMessage(fmt.Sprintf("{%d}", m)))
	case 22:
		return rawVal(plainStruct{n}, plainStruct{m})
	case 23:
		return dbVal("provider", nilProvider{}, nilProvider{}, nil)
	case 24:
		a, b := g.str()
		return rawVal(&a, &b)
	case 25:
		return rawVal(uint64(n)<<32, uint64(m)<<32)
	case 26:
		return rawVal(namedInt(-n), namedInt(-m))
	default:
		if kind%2 == 0 {
			return rawVal(n, m)
		}
		return g.text()
	}
}

const listKinds = 27

func (g *valueGen) list(kind, n int) Val {
	els := make([]Val, 0, n)
	switch kind {
	case 0:
		a, b := make([]int, n), make([]int, n)
		for i := range a {
			a[i], b[i] = g.num()
			els = append(els, rawVal(a[i], b[i]))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 1:
		a, b := make([]string, n), make([]string, n)
		for i := range a {
			a[i], b[i] = g.str()
			els = append(els, rawVal(a[i], b[i]))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 2, 3:
		a, b := make([]any, n), make([]any, n)
		for i := range a {
			v := g.scalar()
			a[i], b[i] = v.a, v.b
			els = append(els, v)
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 4:
		a, b := make([]intValuer, n), make([]intValuer, n)
		for i := range a {
			x, y := g.num()
			a[i], b[i] = intValuer(x), intValuer(y)
			els = append(els, dbVal("valuer", a[i], b[i], int64(x)+1))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 5:
		a, b := make([]driver.Valuer, n), make([]driver.Valuer, n)
		for i := range a {
			x, y := g.str()
			a[i], b[i] = stringValuer{x}, stringValuer{y}
			els = append(els, dbVal("valuer", a[i], b[i], "db:"+x))
			if g.rnd.Intn(4) == 0 {
				e := g.scalarKind(16)
				a[i], b[i], els[i] = e.a.(driver.Valuer), e.b.(driver.Valuer), e
			}
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 6:
		a, b := make([]query.ValueProvider, n), make([]query.ValueProvider, n)
		for i := range a {
			x, y := g.num()
			a[i], b[i] = intProvider(x), intProvider(y)
			els = append(els, dbVal("provider", a[i], b[i], x*3))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 7:
		a, b := make([]strProvider, n), make([]strProvider, n)
		for i := range a {
			x, y := g.str()
			a[i], b[i] = strProvider{x}, strProvider{y}
			els = append(els, dbVal("provider", a[i], b[i], "db:"+x))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 8:
		a, b := make([]*ptrValuer, n), make([]*ptrValuer, n)
		for i := range a {
			x, y := g.num()
			a[i], b[i] = &ptrValuer{x}, &ptrValuer{y}
			els = append(els, dbVal("valuer", a[i], b[i], int64(x)*2))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 9:
		a, b := make([][]byte, n), make([][]byte, n)
		for i := range a {
			x, y := g.num()
			a[i], b[i] = []byte(fmt.Sprintf("zq%d", x)), []byte(fmt.Sprintf("zq%d", y))
			els = append(els, rawVal(a[i], b[i]))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 10:
		a, b := make([]namedString, n), make([]namedString, n)
		for i := range a {
			x, y := g.str()
			a[i], b[i] = namedString(x), namedString(y)
			els = append(els, rawVal(a[i], b[i]))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 11:
		a, b := make([]float64, n), make([]float64, n)
		for i := range a {
			x, y := g.num()
			a[i], b[i] = float64(x)+0.5, float64(y)+0.5
			els = append(els, rawVal(a[i], b[i]))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	case 13:
		return plain(g, n, func(x int) int64 { return int64(x) })
	case 14:
		return plain(g, n, func(x int) int32 { return int32(x) })
	case 15:
		return plain(g, n, func(x int) uint { return uint(x) })
	case 16:
		return plain(g, n, func(x int) uint64 { return uint64(x) << 20 })
	case 17:
		return plain(g, n, func(x int) uint16 { return uint16(x) })
	case 18:
		return plain(g, n, func(x int) int8 { return int8(x) })
	case 19:
		return plain(g, n, func(x int) bool { return x%3 == 0 })
	case 20:
		return plain(g, n, func(x int) float32 { return float32(x) + 0.5 })
	case 21:
		return plain(g, n, func(x int) time.Time { return time.Unix(int64(x)*100, int64(x)).UTC() })
	case 22:
		return plain(g, n, func(x int) namedInt { return namedInt(x) })
	case 23:
		return plain(g, n, func(x int) *int { return &x })
	case 24:
		return plain(g, n, func(x int) plainStruct { return plainStruct{x} })
	case 25:
		v := plain(g, n, func(x int) int64 { return int64(x) })
		return listOf(namedList(v.a.([]int64)), namedList(v.b.([]int64)), v.L...)
	default:
		a, b := make([][]int, n), make([][]int, n)
		for i := range a {
			x, y := g.num()
			a[i], b[i] = []int{x, i}, []int{y, i}
			els = append(els, listOf(a[i], b[i], rawVal(x, y), rawVal(i, i)))
		}
		twice(g, a, b, els)
		return listOf(a, b, els...)
	}
}

type namedList []int64

func plain[T any](g *valueGen, n int, of func(int) T) Val {
	a, b, els := make([]T, n), make([]T, n), make([]Val, 0, n)
	for i := range a {
		x, y := g.num()
		a[i], b[i] = of(x), of(y)
		els = append(els, rawVal(a[i], b[i]))
	}
	twice(g, a, b, els)
	return listOf(a, b, els...)
}

// plainList is bound as one parameter outside of IN.
func (g *valueGen) plainList() Val {
	return g.list([]int{0, 1, 9, 10, 11, 13, 15, 18, 19, 21, 23, 24, 25}[g.rnd.Intn(13)], 1+g.rnd.Intn(3))
}

// any value for a comparison, INSERT or UPDATE
func (g *valueGen) value() Val {
	if g.rnd.Intn(8) == 0 {
		return g.plainList()
	}
	return g.scalar()
}

// inValue for IN: mostly lists
func (g *valueGen) inValue() Val {
	if g.rnd.Intn(6) == 0 {
		return g.scalar()
	}
	n := 1 + g.rnd.Intn(4)
	if g.rnd.Intn(12) == 0 {
		n = 9 + g.rnd.Intn(4)
	}
	if g.wide && g.rnd.Intn(2) == 0 {
		n = []int{20, 31, 32, 33, 60, 64, 90, 99, 100, 101, 127, 128, 129, 150, 255, 256, 257, 300}[g.rnd.Intn(18)]
	}
	if g.wide && g.rnd.Intn(40) == 0 {
		n = []int{500, 511, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2001, 2049}[g.rnd.Intn(11)]
	}
	return g.list(g.rnd.Intn(listKinds), n)
}

// texts to look for in SQL
func leakTexts(v Val) []string {
	var res []string
	if v.K == "list" {
		for _, e := range v.L {
			res = append(res, leakTexts(e)...)
		}
		return res
	}
	i := strings.IndexAny(v.V, "78")
	for ; i >= 0 && i+7 <= len(v.V); i++ {
		s := v.V[i : i+7]
		if (s[0] == '7' || s[0] == '8') && s[1] == '0' && isDigits(s) {
			res = append(res, s)
			break
		}
	}
	return res
}

func isDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}
