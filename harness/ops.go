package main

// Executes events of the specification against the real library.

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	q "github.com/amarin/query"
)

type Event struct {
	Op  string         `json:"op"`
	R   int            `json:"r"`
	A   []int          `json:"a"`
	S   map[string]any `json:"s"`
	Via int            `json:"via"`
}

type piece struct {
	C string `json:"c"`
	X string `json:"x"`
}

func (e *Event) str(k string) string {
	s, _ := e.S[k].(string)
	return s
}
func (e *Event) strs(k string) []string {
	switch v := e.S[k].(type) {
	case []string:
		return v
	case []any:
		res := make([]string, len(v))
		for i := range v {
			res[i], _ = v[i].(string)
		}
		return res
	}
	return nil
}
func (e *Event) num(k string) int {
	switch v := e.S[k].(type) {
	case int:
		return v
	case float64:
		return int(v)
	}
	return 0
}
func (e *Event) amount() uint {
	if x := e.str("x"); x != "" {
		n, _ := strconv.ParseUint(x, 10, 64)
		return uint(n)
	}
	return uint(e.num("n"))
}
func (e *Event) flag(k string) bool { b, _ := e.S[k].(bool); return b }
func (e *Event) val(k string) Val   { v, _ := e.S[k].(Val); return v }
func pieces(x any) []piece {
	switch v := x.(type) {
	case []piece:
		return v
	case []any:
		res := make([]piece, len(v))
		for i := range v {
			m, _ := v[i].(map[string]any)
			res[i].C, _ = m["c"].(string)
			res[i].X, _ = m["x"].(string)
		}
		return res
	}
	return nil
}
func pieceText(ps []piece) string {
	var sb strings.Builder
	for _, p := range ps {
		sb.WriteString(p.X)
	}
	return sb.String()
}

// ---- objects that are not types of the library

type incomplete struct {
	b q.IncompleteSelectJoin
	m q.IncompleteSelectManyJoiner
	s q.IncompleteSelectSingleJoiner
}
type vmResult struct{ fv []q.FieldValue }
type validResult struct{ ok, own bool }
type uniqResult struct{ l []q.FieldName }
type nameResult struct{ n string }
type failed struct {
	how, msg string // err | panic
	own      bool   // an error of the package
}

func refused(how string, err error) failed { return failed{how, err.Error(), errors.Is(err, q.Error)} }

type skipped struct{}

type world struct {
	objs []any
	alt  bool // the shadow: other values, other numbers of rows
	// overwrites of everything handed to the library, done after the call
	scribbles []func()
	// readers of what the call returned besides its object
	looks []func() string
}

func (w *world) value(v Val) any {
	if w.alt {
		return v.b
	}
	return v.a
}

// rows is an offset or a limit; the shadow asks for another positive one, so
// that the text must not depend on it.
func (w *world) rows(n uint) uint {
	switch {
	case !w.alt || n == 0:
		return n
	case n > 1<<20:
		return n - 1001
	case n == 1:
		return 24
	}
	return n * 3
}

// args makes a fresh argument list with spare capacity, which the caller
// overwrites after the call.
func args[T any](w *world, idx []int) []T {
	var zero T
	res := make([]T, 0, len(idx)+3)
	for _, i := range idx {
		res = append(res, w.objs[i-1].(T))
	}
	w.scribble(func() {
		full := res[:cap(res)]
		for i := range full {
			full[i] = junk(zero).(T)
		}
	})
	return res
}

func (w *world) scribble(f func()) { w.scribbles = append(w.scribbles, f) }

// twoOf: two results of the same call belong to the caller, who overwrites
// one of them and goes on reading the other.
func twoOf[T any](w *world, a, b *T) T {
	w.scribble(func() { *b = junk(*b).(T) })
	w.looks = append(w.looks, func() string { return fmt.Sprintf("%+v", *a) })
	return *a
}

// own takes what a returned pointer points to; the caller then overwrites it.
func own[T any](p *T) T {
	x := *p
	*p = junk(x).(T)
	return x
}

func junk(x any) any {
	switch x.(type) {
	case q.FieldDefinition:
		return q.Field("junk").Of("junk").As("junk")
	case q.FieldSorting:
		return q.DESC("junk")
	case q.FieldValue:
		return *q.NewFieldValue("junk", "junk")
	case q.FieldName:
		return q.FieldName("junk")
	case q.TableIdent:
		return q.Table("junk junk2")
	default:
		return q.Or(q.EqualTo("junk", "junk"))
	}
}

func condArgs(w *world, e *Event) []q.Condition {
	res := make([]q.Condition, 0, len(e.A)+3)
	for k, i := range e.A {
		res = append(res, w.cond(w.objs[i-1], (e.Via/5+k)%4 == 3))
	}
	w.scribble(func() {
		full := res[:cap(res)]
		for i := range full {
			full[i] = q.Or(q.EqualTo("junk", "junk"))
		}
	})
	return res
}

// cond is a condition; a group may be given by a pointer, whose variable the
// caller then uses for something else.
func (w *world) cond(x any, pointer bool) q.Condition {
	if g, ok := x.(q.Group); ok && pointer {
		w.scribble(func() { g = q.NewGroup(q.LogicalOR, q.EqualTo("junk", "junk"), q.EqualTo("junk", "junk")) })
		return &g
	}
	return x.(q.Condition)
}

// ---- spellings

func fieldText(f []string) string {
	s := f[1]
	if f[0] != "" {
		s = f[0] + "." + s
	}
	if f[2] != "" {
		s += []string{" as ", " AS ", " As "}[len(s)%3] + f[2]
	}
	return s
}

func tableText(t []string, via int) string {
	if t[1] == "" {
		return t[0]
	}
	return t[0] + []string{" ", " as ", " AS "}[via%3] + t[1]
}

func tableIdent(t []string, via int) q.TableIdent {
	if t[0] == "" {
		return q.TableIdent{}
	}
	switch via % 4 {
	case 0:
		return q.Table(tableText(t, via/4))
	case 1:
		return q.Table(q.TableName(tableText(t, via/4)))
	case 2:
		return q.TableName(t[0]).Ident().As(q.TableName(t[1]))
	default:
		x, err := q.TableOrError(tableText(t, via/4))
		if err != nil {
			panic(err)
		}
		return q.Table(own(x))
	}
}

func field(f []string, via int) q.FieldDefinition {
	switch via % 8 {
	case 0:
		return q.Field(fieldText(f))
	case 1:
		return q.Field(q.FieldName(fieldText(f)))
	case 2:
		return q.TableName(f[0]).Field(q.FieldName(f[1])).As(q.FieldName(f[2]))
	case 3:
		return q.FieldName(f[1]).Field().As(q.FieldName(f[2])).Of(q.TableName(f[0]))
	case 4:
		x, err := q.FieldOrError(fieldText(f))
		if err != nil {
			panic(err)
		}
		return q.Field(own(x))
	case 5:
		if f[0] != "" {
			return q.Table(f[0]).Field(q.FieldName(f[1])).As(q.FieldName(f[2]))
		}
		return q.Field(f[1]).As(q.FieldName(f[2]))
	case 6:
		x, err := q.FieldOrError(q.FieldName(fieldText(f)))
		if err != nil {
			panic(err)
		}
		y, err := q.FieldOrError(own(x))
		if err != nil {
			panic(err)
		}
		return own(y)
	default:
		if f[0] != "" {
			return q.Table("wrong " + f[0]).Field(q.FieldName(f[1])).As(q.FieldName(f[2]))
		}
		return q.Field(f[1]).As("x").As(q.FieldName(f[2]))
	}
}

func joinTypeOf(s string) q.TableJoinType {
	switch s {
	case "LEFT JOIN":
		return q.LeftJoin
	case "RIGHT JOIN":
		return q.RightJoin
	case "FULL JOIN":
		return q.FullJoin
	}
	return q.InnerJoin
}

func logical(j string) q.JoinType {
	if j == "OR" {
		return q.LogicalOR
	}
	return q.LogicalAND
}

func selFrom(t []string, via int) q.BaseSelectBuilder {
	switch via % 3 {
	case 0:
		return q.SelectFrom(tableText(t, via/3))
	case 1:
		return q.SelectFrom(q.TableName(tableText(t, via/3)))
	default:
		return q.SelectFrom(tableIdent(t, via/3))
	}
}

func (w *world) from(e *Event) any {
	t, via := e.strs("t"), e.Via
	cs := condArgs(w, e)
	v := via / 12
	switch e.str("mode") {
	case "base":
		switch via % 4 {
		case 0:
			return selFrom(t, v).Where(cs...)
		case 1:
			return q.TableName(tableText(t, v)).Select(cs...)
		case 2:
			return tableIdent(t, v).Select(cs...)
		default:
			if len(cs) == 0 {
				return selFrom(t, v)
			}
			return selFrom(t, v).Where().Where(cs...)
		}
	case "many":
		switch via % 6 {
		case 0:
			return q.SelectManyFrom(tableText(t, v)).Where(cs...)
		case 1:
			return q.SelectManyFrom(q.TableName(tableText(t, v))).Where(cs...)
		case 2:
			return q.SelectManyFrom(tableIdent(t, v)).Where(cs...)
		case 3:
			return q.TableName(tableText(t, v)).SelectMany(cs...)
		case 4:
			return tableIdent(t, v).SelectMany(cs...)
		default:
			return q.SelectManyFromBase(selFrom(t, v).Where(cs...))
		}
	default:
		switch via % 6 {
		case 0:
			return q.SelectSingleFrom(tableText(t, v)).Where(cs...)
		case 1:
			return q.SelectSingleFrom(q.TableName(tableText(t, v))).Where(cs...)
		case 2:
			return q.SelectSingleFrom(tableIdent(t, v)).Where(cs...)
		case 3:
			return q.TableName(tableText(t, v)).SelectOne(cs...)
		case 4:
			return tableIdent(t, v).SelectOne(cs...)
		default:
			return q.SelectSingleFromBase(selFrom(t, v).Where(cs...))
		}
	}
}

func (w *world) leaf(e *Event) any {
	f, o, via := e.strs("f"), e.str("o"), e.Via
	fn := q.FieldName(fieldText(f))
	v := e.val("v")
	x := w.value(v)
	two := via%2 == 0
	switch o {
	case "=":
		if two {
			return q.EqualTo(fn, x)
		}
		return fn.EqualTo(x)
	case ">":
		return q.GreaterThan(fn, x)
	case ">=":
		return q.GreaterOrEqual(fn, x)
	case "<":
		return q.Less(fn, x)
	case "<=":
		return q.LessOrEqual(fn, x)
	case "in":
		if two {
			return q.In(fn, x)
		}
		return fn.In(x)
	case "like":
		if two {
			return q.Contains(fn, x.(string))
		}
		return fn.Contains(x.(string))
	case "ilike":
		if two {
			return q.IContains(fn, x.(string))
		}
		return fn.IContains(x.(string))
	case "null":
		if two {
			return q.IsNull(fn)
		}
		return fn.IsNull()
	case "istrue":
		return newCustom(via, o, q.Field(fn))
	case "between", "geo", "cost", "exists":
		var vals []any
		for _, el := range v.L {
			vals = append(vals, w.value(el))
		}
		return newCustom(via, o, q.Field(fn), vals...)
	}
	panic("harness: unknown comparison " + o)
}

type harnessError struct{ msg string }

// apply makes the call.  A refusal comes back as failed.
func (w *world) apply(e *Event) (res any) {
	w.scribbles, w.looks = nil, nil
	if e.R != 0 {
		switch w.objs[e.R-1].(type) {
		case failed, skipped:
			return skipped{}
		}
	}
	for _, i := range e.A {
		switch w.objs[i-1].(type) {
		case failed, skipped:
			return skipped{}
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			err, ok := r.(error)
			res = failed{"panic", fmt.Sprint(r), ok && errors.Is(err, q.Error)}
		}
	}()
	return w.call(e)
}

func (w *world) call(e *Event) any {
	var r any
	if e.R != 0 {
		r = w.objs[e.R-1]
	}
	via := e.Via
	two := via%2 == 0
	recv := func() q.Condition { return w.cond(r, via/11%5 == 4) }
	switch e.Op {
	// ---------------------------------------------------------- conditions
	case "leaf":
		return w.leaf(e)
	case "not":
		if two {
			return q.Not(recv())
		}
		return recv().Negate(true)
	case "neg":
		return recv().Negate(e.flag("b"))
	case "cjoin":
		if two {
			return recv().Join(logical(e.str("j")))
		}
		if via%4 == 1 {
			if e.str("j") == "OR" {
				return q.Or(recv())
			}
			return q.And(recv())
		}
		return logical(e.str("j")).Join(recv())
	case "and":
		return recv().And(condArgs(w, e)...)
	case "or":
		return recv().Or(condArgs(w, e)...)
	case "andf":
		return q.And(r.(q.Condition), condArgs(w, e)...)
	case "orf":
		return q.Or(r.(q.Condition), condArgs(w, e)...)
	case "gand":
		return r.(q.Group).GroupAND(condArgs(w, e)...)
	case "gor":
		return r.(q.Group).GroupOR(condArgs(w, e)...)
	case "newgroup":
		return q.NewGroup(logical(e.str("j")), condArgs(w, e)...)
	case "joinmany":
		return logical(e.str("j")).Join(condArgs(w, e)...)
	case "brackets":
		return r.(q.Group).WithBrackets()
	case "afs":
		return recv().ApplyFieldSpec(w.objs[e.A[0]-1].(q.FieldDefinition))
	case "aft":
		return recv().ApplyFieldTable(q.TableName(e.str("t")))

	// ------------------------------------------------- fields, tables, ...
	case "fld":
		return field(e.strs("f"), via)
	case "fldparse":
		s := pieceText(pieces(e.S["p"]))
		if e.str("how") == "err" {
			var x, y *q.FieldDefinition
			var err error
			if two {
				x, err = q.FieldOrError(s)
				y, _ = q.FieldOrError(s)
			} else {
				x, err = q.FieldOrError(q.FieldName(s))
				y, _ = q.FieldOrError(q.FieldName(s))
			}
			if err != nil {
				return refused("err", err)
			}
			return twoOf(w, x, y)
		}
		switch via % 4 {
		case 0:
			return q.Field(s)
		case 1:
			return q.Field(q.FieldName(s))
		case 2:
			return q.FieldName(s).Field()
		default:
			return q.NewFields(s).FieldDefinitions()[0]
		}
	case "fldas":
		return r.(q.FieldDefinition).As(q.FieldName(e.str("n")))
	case "fldof":
		return r.(q.FieldDefinition).Of(q.TableName(e.str("n")))
	case "tbl":
		return tableIdent(e.strs("t"), via)
	case "tblparse":
		s := pieceText(pieces(e.S["p"]))
		if e.str("how") == "err" {
			var x, y *q.TableIdent
			var err error
			if two {
				x, err = q.TableOrError(s)
				y, _ = q.TableOrError(s)
			} else {
				x, err = q.TableOrError(q.TableName(s))
				y, _ = q.TableOrError(q.TableName(s))
			}
			if err != nil {
				return refused("err", err)
			}
			return twoOf(w, x, y)
		}
		switch via % 3 {
		case 0:
			return q.Table(s)
		case 1:
			return q.Table(q.TableName(s))
		default:
			return q.TableName(s).Ident()
		}
	case "tblas":
		return r.(q.TableIdent).As(q.TableName(e.str("n")))
	case "tblfld":
		if by, ok := e.S["q"].(string); ok && by != "" { // the table it is taken from decides
			return r.(q.TableIdent).Field(q.FieldName(by + "." + e.str("n")))
		}
		return r.(q.TableIdent).Field(q.FieldName(e.str("n")))
	case "fv":
		f := e.strs("f")
		x := w.value(e.val("v"))
		full := fieldText(f)
		if f[2] != "" && via%5 > 1 { // the other ways take no alias
			via %= 2
		}
		switch via % 5 {
		case 0:
			return twoOf(w, q.NewFieldValue(q.FieldName(full), x), q.NewFieldValue(q.FieldName(full), x))
		case 1:
			return q.FieldName(full).Value(x)
		case 2:
			return field([]string{f[0], f[1], "al"}, via/5).Value(x)
		case 3:
			p := q.NewFieldValue(q.FieldName(f[1]), x)
			res := p.ApplyFieldTable(q.TableName(f[0]))
			own(p)
			return res
		default:
			if f[0] == "" && f[1] != "" && q.FieldName(f[1]).Validate() == nil {
				fvs, err := q.ValuesMap{f[1]: x}.FieldValues()
				if err != nil {
					return refused("err", err)
				}
				return fvs[0]
			}
			return q.Field(full).Value(x)
		}
	case "fvafs":
		return r.(q.FieldValue).ApplyFieldSpec(w.objs[e.A[0]-1].(q.FieldDefinition))
	case "fvaft":
		return r.(q.FieldValue).ApplyFieldTable(q.TableName(e.str("t")))
	case "ord":
		f := e.strs("f")
		fn := q.FieldName(fieldText([]string{f[0], f[1], ""}))
		d := e.str("d")
		switch {
		case via%3 == 0:
			return q.OrderBy(fn, q.SortDirection(d))
		case d == "ASC" && via%3 == 1:
			return q.ASC(fn)
		case d == "ASC":
			return q.OrderBy(fn)
		default:
			return q.DESC(fn)
		}
	case "ordparse":
		fn, d := q.FieldName(pieceText(pieces(e.S["p"]))), e.str("d")
		more := []q.SortDirection{}
		if d2, ok := e.S["d2"].(string); ok && d != "" && d != "ASC" && d != "DESC" {
			more = append(more, q.SortDirection(d2))
		}
		switch {
		case d == "":
			return q.OrderBy(fn)
		case d == "ASC" && two:
			return q.ASC(fn)
		case d == "DESC" && two:
			return q.DESC(fn)
		default:
			return q.OrderBy(fn, append([]q.SortDirection{q.SortDirection(d)}, more...)...)
		}
	case "ordafs":
		return r.(q.FieldSorting).ApplyFieldSpec(w.objs[e.A[0]-1].(q.FieldDefinition))
	case "fls":
		var l []any
		for k, f := range args[q.FieldDefinition](w, e.A) {
			spelling := (via + k) % 3
			if strings.Contains(string(f.TableName())+string(f.FieldName()), ".") { // schema-qualified: has no text form
				spelling = 0
			}
			switch spelling {
			case 0:
				l = append(l, f)
			case 1:
				l = append(l, fieldText([]string{string(f.TableName()), string(f.FieldName()), string(f.Alias())}))
			default:
				l = append(l, q.FieldName(fieldText([]string{string(f.TableName()), string(f.FieldName()), string(f.Alias())})))
			}
		}
		w.scribble(func() {
			for i := range l {
				l[i] = "junk"
			}
		})
		if len(l) == 0 && via%2 == 1 {
			return q.Fields{}
		}
		return q.NewFields(l...)
	case "flsset":
		return r.(q.Fields).Fields(args[q.FieldDefinition](w, e.A)...)

	// ------------------------------------------------------------- select
	case "from":
		return w.from(e)
	case "where":
		cs := condArgs(w, e)
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			return x.Where(cs...)
		case q.SelectManyBuilder:
			return x.Where(cs...)
		case q.SelectSingleBuilder:
			return x.Where(cs...)
		case q.UpdateBuilder:
			return x.Where(cs...)
		case q.DeleteBuilder:
			return x.Where(cs...)
		}
	case "fields":
		fs := args[q.FieldDefinition](w, e.A)
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			return x.Fields(fs...)
		case q.SelectManyBuilder:
			return x.Fields(fs...)
		case q.SelectSingleBuilder:
			return x.Fields(fs...)
		}
	case "order":
		os := args[q.FieldSorting](w, e.A)
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			return x.OrderBy(os...)
		case q.SelectManyBuilder:
			return x.OrderBy(os...)
		case q.SelectSingleBuilder:
			return x.OrderBy(os...)
		}
	case "offset":
		n := w.rows(e.amount())
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			return x.Offset(n)
		case q.SelectManyBuilder:
			return x.Offset(n)
		case q.SelectSingleBuilder:
			return x.Offset(n)
		}
	case "limit":
		n := e.num("n")
		if e.str("x") != "" {
			n = int(e.amount())
		}
		if n > 0 {
			n = int(w.rows(uint(n)))
		}
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			return x.Limit(n)
		case q.SelectManyBuilder:
			return x.Limit(n)
		case q.SelectSingleBuilder:
			return x.Limit(n)
		}
	case "many":
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			if two {
				return q.SelectManyFromBase(x)
			}
			return x.Many()
		case q.SelectManyBuilder:
			return x.Many()
		case q.SelectSingleBuilder:
			return x.Many()
		}
	case "single":
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			if two {
				return q.SelectSingleFromBase(x)
			}
			return x.Single()
		case q.SelectManyBuilder:
			return x.Single()
		case q.SelectSingleBuilder:
			return x.Single()
		}
	case "join":
		return w.join(e, r)
	case "joinroot":
		return w.joinRoot(e)
	case "on":
		l, rf := w.objs[e.A[0]-1].(q.FieldDefinition), w.objs[e.A[1]-1].(q.FieldDefinition)
		switch x := r.(incomplete); {
		case x.m != nil:
			return x.m.On(l, rf)
		case x.s != nil:
			return x.s.On(l, rf)
		default:
			return x.b.On(l, rf)
		}
	case "count":
		f := e.strs("f")
		fns := []q.FieldName{}
		if len(f) > 0 {
			fns = append(fns, q.FieldName(fieldText(f)))
		}
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			if len(fns) == 0 && two {
				return x.Count()
			}
			return q.Count(x, fns...)
		case q.SelectManyBuilder:
			if len(fns) == 0 && two {
				return x.Count()
			}
			return q.Count(x.BaseSelectBuilder, fns...)
		case q.SelectSingleBuilder:
			if len(fns) == 0 && two {
				return x.Count()
			}
			return q.Count(x.BaseSelectBuilder, fns...)
		}
	case "cntroot":
		return tableIdent(e.strs("t"), via).Count(condArgs(w, e)...)
	case "toupd":
		vs := args[q.FieldValue](w, e.A)
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			return x.Update(vs...)
		case q.SelectManyBuilder:
			return x.Update(vs...)
		case q.SelectSingleBuilder:
			return x.Update(vs...)
		}
	case "todel":
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			return x.Delete()
		case q.SelectManyBuilder:
			return x.Delete()
		case q.SelectSingleBuilder:
			return x.Delete()
		}
	case "toins":
		vs := args[q.FieldValue](w, e.A)
		switch x := r.(type) {
		case q.BaseSelectBuilder:
			return x.InsertInto(vs...)
		case q.SelectManyBuilder:
			return x.InsertInto(vs...)
		case q.SelectSingleBuilder:
			return x.InsertInto(vs...)
		}

	// ------------------------------------------------------------- writes
	case "upd":
		t, vs := e.strs("t"), args[q.FieldValue](w, e.A)
		return writer(t, via,
			func() any { return q.Update(t[0]).Set(vs...) },
			func() any { return q.Update(q.TableName(t[0])).Set(vs...) },
			func() any { return q.TableName(t[0]).Update(vs...) },
			func() any { return q.Update(tableIdent(t, via/6)).Set(vs...) },
			func() any { return tableIdent(t, via/6).Update(vs...) })
	case "del":
		t, cs := e.strs("t"), condArgs(w, e)
		return writer(t, via,
			func() any { return q.Delete(t[0]).Where(cs...) },
			func() any { return q.Delete(q.TableName(t[0])).Where(cs...) },
			func() any { return q.TableName(t[0]).Delete(cs...) },
			func() any { return q.Delete(tableIdent(t, via/6)).Where(cs...) },
			func() any { return tableIdent(t, via/6).Delete(cs...) })
	case "ins":
		t, vs := e.strs("t"), args[q.FieldValue](w, e.A)
		return writer(t, via,
			func() any { return q.InsertInto(t[0]).Values(vs...) },
			func() any { return q.InsertInto(q.TableName(t[0])).Values(vs...) },
			func() any { return q.TableName(t[0]).InsertInto(vs...) },
			func() any { return q.InsertInto(tableIdent(t, via/6)).Values(vs...) },
			func() any { return tableIdent(t, via/6).InsertInto(vs...) })
	case "set":
		return r.(q.UpdateBuilder).Set(args[q.FieldValue](w, e.A)...)
	case "values":
		return r.(q.InsertBuilder).Values(args[q.FieldValue](w, e.A)...)

	// -------------------------------------------------------------- others
	case "whr":
		if via%4 == 3 {
			return q.WhereClause{}
		}
		return q.NewWhere()
	case "wgand":
		return r.(q.WhereClause).GroupAND(condArgs(w, e)...)
	case "wgor":
		return r.(q.WhereClause).GroupOR(condArgs(w, e)...)
	case "wafs":
		return r.(q.WhereClause).ApplyFieldSpec(w.objs[e.A[0]-1].(q.FieldDefinition))
	case "jc":
		return q.JoinFields(w.objs[e.A[0]-1].(q.FieldDefinition), w.objs[e.A[1]-1].(q.FieldDefinition))
	case "jnr":
		return w.joiner(e, r.(q.JoinCondition))
	case "jnrnew":
		return q.NewTableJoiner(w.objs[e.A[0]-1].(q.TableIdent), joinTypeOf(e.str("jt")), w.objs[e.A[1]-1].(q.JoinCondition))
	case "jnrfields":
		l, rf := w.objs[e.A[0]-1].(q.FieldDefinition), w.objs[e.A[1]-1].(q.FieldDefinition)
		return joinTypeOf(e.str("jt")).By(l, rf)
	case "jnrby":
		return r.(q.TableJoiner).By(w.objs[e.A[0]-1].(q.FieldDefinition), w.objs[e.A[1]-1].(q.FieldDefinition))
	case "lim":
		return q.Limiter{}
	case "limoff":
		return r.(q.Limiter).Offset(w.rows(e.amount()))
	case "limlim":
		return r.(q.Limiter).Limit(w.rows(e.amount()))
	case "vm":
		m := q.ValuesMap{}
		for _, x := range e.S["m"].([]vmEntry) {
			m[pieceText(x.P)] = w.value(x.V)
		}
		fvs, err := m.FieldValues()
		if err != nil {
			if len(fvs) != 0 {
				return vmResult{fvs}
			}
			return refused("err", err)
		}
		return vmResult{fvs}
	case "valid":
		err := q.FieldName(pieceText(pieces(e.S["p"]))).Validate()
		return validResult{err == nil, errors.Is(err, q.Error)}
	case "uniq":
		l := make([]q.FieldName, 0, 8)
		for _, s := range e.strs("l") {
			l = append(l, q.FieldName(s))
		}
		keep := append([]q.FieldName{}, l...)
		res := q.UniqFieldNames(l)
		for i := range keep {
			if keep[i] != l[i] {
				return uniqResult{[]q.FieldName{"argument overwritten"}}
			}
		}
		w.scribble(func() {
			full := l[:cap(l)]
			for i := range full {
				full[i] = "junk"
			}
		})
		return uniqResult{res}
	case "opname":
		return nameResult{q.Operation(e.num("n")).New().Operation().String()}
	case "jtname":
		return nameResult{joinTypeOf(e.str("jt")).String()}
	}
	panic(harnessError{fmt.Sprintf("cannot %s on %T", e.Op, r)})
}

type vmEntry struct {
	P []piece `json:"p"`
	V Val     `json:"v"`
}

func writer(t []string, via int, text, name, nameM, ident, identM func() any) any {
	alts := []func() any{ident, identM}
	if t[1] == "" {
		alts = []func() any{ident, text, name, nameM, identM}
	}
	return alts[via%len(alts)]()
}

func (w *world) join(e *Event, r any) any {
	t, jt, via := e.strs("t"), joinTypeOf(e.str("jt")), e.Via
	short := via%2 == 0
	switch x := r.(type) {
	case q.BaseSelectBuilder:
		ti := tableIdent(t, via/2)
		if !short {
			return incomplete{b: x.Join(ti, jt)}
		}
		switch jt {
		case q.LeftJoin:
			return incomplete{b: x.LeftJoin(ti)}
		case q.RightJoin:
			return incomplete{b: x.RightJoin(ti)}
		case q.FullJoin:
			return incomplete{b: x.FullJoin(ti)}
		}
		return incomplete{b: x.InnerJoin(ti)}
	case q.SelectManyBuilder:
		tn := q.TableName(tableText(t, via/2))
		if !short {
			return incomplete{m: x.Join(tn, jt)}
		}
		switch jt {
		case q.LeftJoin:
			return incomplete{m: x.LeftJoin(tn)}
		case q.RightJoin:
			return incomplete{m: x.RightJoin(tn)}
		case q.FullJoin:
			return incomplete{m: x.FullJoin(tn)}
		}
		return incomplete{m: x.InnerJoin(tn)}
	case q.SelectSingleBuilder:
		tn := q.TableName(tableText(t, via/2))
		if !short {
			return incomplete{s: x.Join(tn, jt)}
		}
		switch jt {
		case q.LeftJoin:
			return incomplete{s: x.LeftJoin(tn)}
		case q.RightJoin:
			return incomplete{s: x.RightJoin(tn)}
		case q.FullJoin:
			return incomplete{s: x.FullJoin(tn)}
		}
		return incomplete{s: x.InnerJoin(tn)}
	}
	panic(harnessError{fmt.Sprintf("cannot join %T", r)})
}

func (w *world) joinRoot(e *Event) any {
	l, t, jt, via := e.strs("l"), e.strs("t"), joinTypeOf(e.str("jt")), e.Via
	rt := tableIdent(t, via/5)
	switch via % 5 {
	case 0:
		return incomplete{b: jt.Tables(tableIdent(l, via/20), rt)}
	case 1:
		return incomplete{b: tableIdent(l, via/20).Join(rt, jt)}
	case 2:
		return incomplete{b: q.TableName(tableText(l, via/20)).Join(rt, jt)}
	case 3:
		x := tableIdent(l, via/20)
		switch jt {
		case q.LeftJoin:
			return incomplete{b: x.LeftJoin(rt)}
		case q.RightJoin:
			return incomplete{b: x.RightJoin(rt)}
		case q.FullJoin:
			return incomplete{b: x.FullJoin(rt)}
		}
		return incomplete{b: x.InnerJoin(rt)}
	default:
		x := q.TableName(tableText(l, via/20))
		switch jt {
		case q.LeftJoin:
			return incomplete{b: x.LeftJoin(rt)}
		case q.RightJoin:
			return incomplete{b: x.RightJoin(rt)}
		case q.FullJoin:
			return incomplete{b: x.FullJoin(rt)}
		}
		return incomplete{b: x.InnerJoin(rt)}
	}
}

func (w *world) joiner(e *Event, jc q.JoinCondition) any {
	jt := joinTypeOf(e.str("jt"))
	if e.Via%3 == 0 {
		return jc.Using(jt)
	}
	switch jt {
	case q.LeftJoin:
		return jc.LeftJoin()
	case q.RightJoin:
		return jc.RightJoin()
	case q.FullJoin:
		return jc.FullJoin()
	}
	return jc.InnerJoin()
}
