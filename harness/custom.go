package main

// Conditions written by a user of the library: embedding query.BaseCondition
// the way the library's own ones do, behind a pointer, or with nothing from
// the library at all.

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/amarin/query"
)

type body struct {
	field query.FieldDefinition
	kind  string // between | istrue | geo | cost | exists
	vals  []any
}

// custom embeds BaseCondition; ptrCustom is used as a pointer; ownCustom keeps
// its join type and negation itself.
type (
	custom struct {
		query.BaseCondition
		body
	}
	ptrCustom struct {
		query.BaseCondition
		body
	}
	ownCustom struct {
		body
		join query.JoinType
		neg  bool
	}
)

func newCustom(via int, kind string, field query.FieldDefinition, vals ...any) query.Condition {
	b := body{field, kind, vals}
	switch via / 4 % 3 {
	case 0:
		return custom{body: b, BaseCondition: query.BaseCondition{}.Join(query.LogicalAND)}
	case 1:
		return &ptrCustom{body: b, BaseCondition: query.BaseCondition{}.Join(query.LogicalAND)}
	default:
		return ownCustom{body: b, join: query.LogicalAND}
	}
}

// wrapped is the condition inside of an "exists" one, made with the library.
func (c body) wrapped() query.Condition {
	first := query.EqualTo("zz.k", c.vals[0])
	if len(c.vals) == 1 {
		return query.Not(first)
	}
	return query.And(first, query.Or(query.In("zz.m", c.vals[1:]), query.IsNull("zz.m")))
}

func (c body) text(neg string, ph func(int) string, sub func(query.Condition) string) (sql string) {
	f := c.field.As("").RenderSpec()
	switch c.kind {
	case "between":
		sql = f + "  BETWEEN " + ph(1) + " AND  " + ph(2)
	case "istrue":
		sql = f + " IS  TRUE"
	case "exists":
		sql = "EXISTS ( SELECT 1 FROM zz WHERE zz.id = " + f + " AND ( " + sub(c.wrapped()) + " ) )"
	case "cost": // has text that looks like placeholders
		sql = "cost( " + f + " , '$1 ? it''s $2'"
		for i := range c.vals {
			sql += " , " + ph(i+1)
		}
		sql += " )"
	default:
		sql = "geo( " + f
		for i := range c.vals {
			sql += " , " + ph(i+1)
		}
		sql += " )"
	}
	if neg != "" {
		sql = neg + " " + sql
	}
	return sql
}

func (c body) numbered(neg string, n int) string {
	return c.text(neg, func(i int) string { return "$" + strconv.Itoa(n+i) }, func(x query.Condition) string { return x.Render(n) })
}
func (c body) raw(neg string) string {
	return c.text(neg, func(int) string { return "?" }, func(x query.Condition) string { return x.RenderSQL() })
}
func (c body) Values() []any {
	if c.kind == "exists" {
		return c.wrapped().Values()
	}
	return append([]any(nil), c.vals...)
}

// FieldName is of use for some of them only.
func (c body) FieldName() query.FieldName {
	if c.kind == "exists" || c.kind == "cost" {
		return ""
	}
	return c.field.FieldName()
}
func (c body) rebound(spec query.FieldDefinition) body {
	if c.field.FieldName() == spec.FieldName() {
		c.field = spec
	}
	return c
}

func (c custom) Render(n int) string                               { return c.numbered(c.RenderNegate(), n) }
func (c custom) RenderSQL() string                                 { return c.raw(c.RenderNegate()) }
func (c custom) And(cs ...query.Condition) query.Condition         { return query.And(c, cs...) }
func (c custom) Or(cs ...query.Condition) query.Condition          { return query.Or(c, cs...) }
func (c custom) ApplyFieldTable(t query.TableName) query.Condition { c.field = c.field.Of(t); return c }
func (c custom) Join(j query.JoinType) query.Condition {
	c.BaseCondition = c.BaseCondition.Join(j)
	return c
}
func (c custom) Negate(n bool) query.Condition {
	c.BaseCondition = c.BaseCondition.Negate(n)
	return c
}
func (c custom) ApplyFieldSpec(spec query.FieldDefinition) query.Condition {
	c.body = c.rebound(spec)
	return c
}

func (c *ptrCustom) Render(n int) string                       { return c.numbered(c.RenderNegate(), n) }
func (c *ptrCustom) RenderSQL() string                         { return c.raw(c.RenderNegate()) }
func (c *ptrCustom) And(cs ...query.Condition) query.Condition { return query.And(c, cs...) }
func (c *ptrCustom) Or(cs ...query.Condition) query.Condition  { return query.Or(c, cs...) }
func (c *ptrCustom) Join(j query.JoinType) query.Condition {
	d := *c
	d.BaseCondition = d.BaseCondition.Join(j)
	return &d
}
func (c *ptrCustom) Negate(n bool) query.Condition {
	d := *c
	d.BaseCondition = d.BaseCondition.Negate(n)
	return &d
}
func (c *ptrCustom) ApplyFieldTable(t query.TableName) query.Condition {
	d := *c
	d.field = d.field.Of(t)
	return &d
}
func (c *ptrCustom) ApplyFieldSpec(spec query.FieldDefinition) query.Condition {
	d := *c
	d.body = d.rebound(spec)
	return &d
}

func (c ownCustom) Render(n int) string                       { return c.numbered(c.RenderNegate(), n) }
func (c ownCustom) RenderSQL() string                         { return c.raw(c.RenderNegate()) }
func (c ownCustom) And(cs ...query.Condition) query.Condition { return query.And(c, cs...) }
func (c ownCustom) Or(cs ...query.Condition) query.Condition  { return query.Or(c, cs...) }
func (c ownCustom) JoinType() query.JoinType                  { return c.join }
func (c ownCustom) IsNegate() bool                            { return c.neg }
func (c ownCustom) Join(j query.JoinType) query.Condition     { c.join = j; return c }
func (c ownCustom) Negate(n bool) query.Condition             { c.neg = n; return c }
func (c ownCustom) RenderNegate() string {
	if c.neg {
		return "NOT"
	}
	return ""
}
func (c ownCustom) RenderJoin(first bool) string {
	if first {
		return ""
	}
	return string(c.join)
}
func (c ownCustom) ApplyFieldTable(t query.TableName) query.Condition {
	c.field = c.field.Of(t)
	return c
}
func (c ownCustom) ApplyFieldSpec(spec query.FieldDefinition) query.Condition {
	c.body = c.rebound(spec)
	return c
}

var _, _, _ query.Condition = custom{}, &ptrCustom{}, ownCustom{}

// exists reads what an "exists" condition renders.
func (p *parser) exists() *node {
	p.i += 2
	p.expect("SELECT", "1", "FROM", "ZZ", "WHERE", "ZZ.ID", "=")
	f := p.word()
	p.expect("AND", "(")
	x := p.expr()
	p.expect(")", ")")
	ps := x.params()
	o := "exists"
	if want := wrappedShape(len(ps)); x.shape() != want {
		o += "!mangled"
	}
	return leafNode(f, o, ps...)
}

// params lists the placeholders below a node, shape says what it is made of.
func (x *node) params() []int {
	res := append([]int{}, x.P...)
	for _, c := range x.C {
		res = append(res, c.params()...)
	}
	return res
}

func (x *node) shape() string {
	if x.K == "leaf" {
		return fmt.Sprintf("%s %s %d", x.O, x.F[1], len(x.P))
	}
	parts := make([]string, len(x.C))
	for i, c := range x.C {
		parts[i] = c.shape()
	}
	return x.K + "(" + strings.Join(parts, ",") + ")"
}

func wrappedShape(n int) string {
	if n == 1 {
		return "not(= zz.k 1)"
	}
	return fmt.Sprintf("and(= zz.k 1,or(in zz.m %d,null zz.m 0))", n-1)
}
