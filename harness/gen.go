package main

// Random histories, and the choices left open by histories generated from the
// specification (spelling, comparison kind, values).

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

type meta struct {
	kind  string
	empty bool // condition without members
	dead  bool // ... negated: only ever given to others
	neg   bool
	grp   bool
	size  int    // leaves
	t     string // table of a field
	n     string // name of a field
	typed string // builder mode
	joins int
}

type generator struct {
	rnd          *rand.Rand
	val          *valueGen
	m            []meta
	turn         int // rotates comparison kinds
	pre          int // prelude length
	prof         map[string]int
	total        int
	ops          []string
	leaves, many int
	tight        bool // few names, values and kinds of comparison, so that equal ones meet
	kinds        []string
}

func (g *generator) nameList() []string {
	if g.tight {
		return names[:2]
	}
	return names
}
func (g *generator) tableList() []string {
	if g.tight {
		return tables[:2]
	}
	return tables
}
func (g *generator) aliasList() []string {
	if g.tight {
		return []string{"u", "f", "al"}
	}
	return aliases
}

func newGenerator(seed int64) *generator {
	r := rand.New(rand.NewSource(seed))
	return &generator{rnd: r, val: &valueGen{rnd: r, n: int(seed%900) * 1000}, turn: int(seed%1000 + seed/1000), leaves: 14, many: 1, kinds: comparisons}
}

// restart makes the choices of one history depend on its number alone.
func (g *generator) restart(seed int64, h int) {
	g.rnd.Seed(seed*1000003 + int64(h)*7919)
	g.val.n = (h%400 + 1) * 2000
	g.val.seen = nil
	g.turn = h * 5
	g.kinds = comparisons
	if g.tight {
		g.kinds = nil
		for i := 1 + g.rnd.Intn(3); i > 0; i-- {
			g.kinds = append(g.kinds, comparisons[g.rnd.Intn(len(comparisons))])
		}
	}
}

var (
	names = []string{"f", "g", "h", "name", "notes", "inbox", "order_id", "andy", "F", "Name", "NAME", "createdAt", "f2", "ff", "as_of",
		"größe", strings.Repeat("long_", 14), "name2", "x1"}
	tables  = []string{"t", "u", "orders", "v2", "T", "Orders", "t2", "таблица"}
	aliases = []string{"al", "x", "fromdate", "f", "zz", "o2", "AL", "F", "T", "t3"}
)

func (g *generator) pick(s []string) string { return s[g.rnd.Intn(len(s))] }
func (g *generator) chance(n int) bool      { return g.rnd.Intn(n) == 0 }

func (g *generator) fieldRef() []string {
	l := g.nameList()
	f := []string{"", l[g.rnd.Intn(min(8, len(l)))], ""}
	if g.chance(4) {
		f[1] = g.pick(l)
	}
	if g.chance(2) {
		f[0] = g.pick(g.tableList())
	}
	if g.chance(3) {
		f[2] = g.pick(g.aliasList())
	}
	return f
}
func (g *generator) tableRef() []string {
	t := []string{g.pick(g.tableList()), ""}
	if g.chance(3) {
		t[1] = g.pick(g.aliasList()[1:])
	}
	return t
}

var comparisons = []string{"=", ">", ">=", "<", "<=", "in", "like", "ilike", "null"}
var customs = []string{"between", "istrue", "geo", "cost", "exists"}

// fill chooses what a generated event left open.
func (g *generator) fill(e *Event) {
	if e.S == nil {
		e.S = map[string]any{}
	}
	if e.A == nil {
		e.A = []int{}
	}
	e.Via = g.rnd.Intn(240)
	if g.tight {
		fold(e)
	}
	if e.Op == "leaf" {
		switch e.S["o"] {
		case "?":
			e.S["o"] = g.kinds[g.turn%len(g.kinds)]
			g.turn++
		case "c":
			e.S["o"] = customs[g.turn%len(customs)]
			g.turn++
		}
		if _, have := e.S["v"].(Val); !have {
			e.S["v"] = g.leafValue(e.str("o"), tokOf(e.S["v"]))
		}
		return
	}
	if m, ok := e.S["m"].([]any); ok { // values map
		l := make([]vmEntry, len(m))
		for i := range m {
			x, _ := m[i].(map[string]any)
			l[i] = vmEntry{P: pieces(x["p"]), V: g.val.scalar()}
		}
		e.S["m"] = l
	}
	if _, has := e.S["v"]; has {
		if _, have := e.S["v"].(Val); !have {
			e.S["v"] = g.plainValue(tokOf(e.S["v"]))
		}
	}
}

// fold gives generated calls few names, so that equal ones meet.
func fold(e *Event) {
	if f, ok := e.S["f"].([]any); ok && len(f) == 3 {
		t, n := f[0], f[1]
		if n != "g" && n != "A" {
			n = "f"
		}
		if t != "" && t != "u" {
			t = "t"
		}
		e.S["f"] = []any{t, n, f[2]}
	}
	if t, ok := e.S["t"].([]any); ok && len(t) == 2 && t[0] != "" && t[0] != "u" {
		e.S["t"] = []any{"t", t[1]}
	}
}

// tokOf says what kind of value a generated event asks for.
func tokOf(x any) string {
	switch v := x.(type) {
	case string:
		return v
	case map[string]any:
		t, _ := v["tok"].(string)
		return t
	}
	return "tok"
}

// plainValue: "tok" any value, "list" a list, "k<n>" one scalar kind, "e<n>" one value
// at the edge of its type, "t<n>" one unusual text
func (g *generator) plainValue(tok string) Val {
	var k int
	switch {
	case tok == "list":
		return g.val.plainList()
	case tok == "int":
		n, m := g.val.num()
		return rawVal(n, m)
	case len(tok) > 1 && tok[0] == 'k':
		fmt.Sscanf(tok[1:], "%d", &k)
		return g.val.scalarKind(k)
	case len(tok) > 1 && tok[0] == 'e':
		fmt.Sscanf(tok[1:], "%d", &k)
		return g.val.edgeKind(k)
	}
	return g.val.value()
}

func (g *generator) leafValue(o, tok string) Val {
	var k, n int
	switch o {
	case "null", "istrue":
		return rawVal(nil, nil)
	case "like", "ilike":
		if len(tok) > 1 && tok[0] == 't' && tok != "tok" {
			fmt.Sscanf(tok[1:], "%d", &k)
			return g.val.textKind(k)
		}
		return g.val.text()
	case "between":
		return g.val.list(g.rnd.Intn(2), 2)
	case "geo", "cost", "exists":
		n := 1 + g.rnd.Intn(4)
		if g.chance(8) {
			n = 9 + g.rnd.Intn(8)
		}
		if o != "exists" && g.chance(6) { // no parameter at all
			n = 0
		}
		return g.val.list(g.rnd.Intn(2), n)
	case "in":
		if c, _ := fmt.Sscanf(tok, "l%dx%d", &k, &n); c == 2 { // list kind k of n elements
			return g.val.list(k, n)
		}
		if tok == "tok" || tok == "" {
			return g.val.inValue()
		}
	}
	return g.plainValue(tok)
}

// ------------------------------------------------------------ random calls

func (g *generator) find(ok func(*meta) bool) int {
	// mostly recent objects, sometimes any
	n := len(g.m)
	for try := 0; try < 12; try++ {
		i := g.rnd.Intn(n)
		if g.chance(2) && n > 8 {
			i = n - 1 - g.rnd.Intn(8)
		}
		if ok(&g.m[i]) {
			return i + 1
		}
	}
	for k, o := 0, g.rnd.Intn(n); k < n; k++ {
		if i := (k + o) % n; ok(&g.m[i]) {
			return i + 1
		}
	}
	return 0
}

func (g *generator) at(i int) meta {
	if i == 0 {
		return meta{}
	}
	return g.m[i-1]
}

// width: statements of one history have at most this many comparisons, calls
// this many arguments.
func (g *generator) setWide(wide, tight bool) {
	g.tight, g.val.tight = tight, tight
	g.val.wide, g.leaves, g.many = wide, 14, 1
	if wide {
		g.leaves, g.many = 60, 4
	}
}

func (g *generator) isArg(m *meta) bool   { return m.kind == "cond" && m.size <= g.leaves/2 }
func (g *generator) isCond(m *meta) bool  { return g.isArg(m) && !m.dead }
func (g *generator) isGroup(m *meta) bool { return g.isCond(m) && m.grp }
func (g *generator) isSel(m *meta) bool   { return m.kind == "sel" && m.size <= g.leaves }
func (g *generator) ofKind(k string) func(*meta) bool {
	return func(m *meta) bool { return m.kind == k && m.size <= g.leaves }
}

func (g *generator) several(k string, min, max int) []int {
	n := min + g.rnd.Intn(max-min+1)
	if g.many > 1 && max > 1 && g.chance(3) {
		n = min + g.rnd.Intn((max-min)*g.many+1)
	}
	res := []int{}
	for i := 0; i < n; i++ {
		var x int
		if k == "cond" {
			x = g.find(g.isArg)
		} else {
			x = g.find(g.ofKind(k))
		}
		if x == 0 {
			break
		}
		res = append(res, x)
	}
	return res
}

func (g *generator) conds(min, max int) []int { return g.several("cond", min, max) }

func (g *generator) qualified() int {
	return g.find(func(m *meta) bool { return m.kind == "fld" && m.t != "" })
}

func (g *generator) leafEvent() *Event {
	e := &Event{Op: "leaf", S: map[string]any{"o": "?", "f": g.fieldRef(), "v": "tok"}}
	if g.chance(6) {
		e.S["o"] = "c"
	}
	return e
}

var joinTypes = []string{"INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"}
var pieceTexts = map[string][]string{
	"id": {"f", "name", "Ab_9", "ü", "notes", "asx", "x-y", "order#", "ta", "a--b", "--", "c*", "/*d*/", "e\\g", "-1", "_", "0"}, "dot": {"."},
	"sp": {" ", "\t", "\n", "\u00a0", "\u2003", "\v", "\f", "\r"}, "q": {"'", "\""}, "as": {"as", "AS", "As", "aS"},
}

// pieceSeq makes a text of the given classes.
func (g *generator) pieceSeq(classes ...string) []piece {
	res := []piece{}
	for _, c := range classes {
		res = append(res, piece{c, g.pick(pieceTexts[c])})
	}
	return res
}

func (g *generator) randomPieces(noQuote bool) []piece {
	n := g.rnd.Intn(7)
	cls := []string{"id", "dot", "sp", "as", "id", "id", "q"}
	if noQuote {
		cls = cls[:6]
	}
	res := []string{}
	for len(res) < n {
		c := g.pick(cls)
		if len(res) > 0 {
			p := res[len(res)-1]
			if (c == "id" || c == "as") && (p == "id" || p == "as") { // keep words apart
				continue
			}
		}
		res = append(res, c)
	}
	return g.pieceSeq(res...)
}

func (g *generator) number() int {
	return []int{0, 1, 2, 5, 9, 10, 11, 25, 99, 100, 127, 128, 255, 256, 1000, 65535, 65536, 77777, 2000000000}[g.rnd.Intn(19)]
}

// amount is an offset or a limit; those beyond the integers of TLC as text.
func (g *generator) amount(e *Event, most uint64) {
	e.S["n"] = g.number()
	if g.chance(8) {
		big := []uint64{math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}
		x := big[g.rnd.Intn(len(big))]
		if x > most {
			x = most
		}
		e.S["n"], e.S["x"] = 1, strconv.FormatUint(x, 10)
	}
}

// propose makes one random call of the given kind; nil when impossible now.
func (g *generator) propose(op string) *Event {
	e := &Event{Op: op, S: map[string]any{}, A: []int{}}
	switch op {
	case "leaf":
		return g.leafEvent()
	case "not":
		e.R = g.find(func(m *meta) bool { return g.isCond(m) && !m.neg && (!m.empty || g.chance(3)) })
	case "neg":
		e.R = g.find(func(m *meta) bool { return g.isCond(m) && !m.empty })
		e.S["b"] = !g.at(e.R).neg
	case "cjoin":
		e.R = g.find(g.isCond)
		e.S["j"] = g.pick([]string{"AND", "OR"})
	case "and", "or":
		e.R = g.find(g.isCond)
		e.A = g.conds(1, 3)
	case "andf", "orf":
		e.R = g.find(g.isCond)
		e.A = g.conds(0, 3)
	case "gand", "gor":
		e.R = g.find(g.isGroup)
		e.A = g.conds(0, 3)
	case "newgroup":
		e.S["j"] = g.pick([]string{"AND", "OR"})
		e.A = g.conds(0, 4)
		return e
	case "joinmany":
		e.S["j"] = g.pick([]string{"AND", "OR"})
		e.A = g.conds(1, 3)
		return e
	case "brackets":
		e.R = g.find(g.isGroup)
	case "afs", "wafs", "fvafs", "ordafs":
		e.R = g.find(g.ofKind(map[string]string{"afs": "cond", "wafs": "whr", "fvafs": "fv", "ordafs": "ord"}[op]))
		e.A = g.several("fld", 1, 1)
	case "aft", "fvaft":
		e.R = g.find(g.ofKind(map[string]string{"aft": "cond", "fvaft": "fv"}[op]))
		e.S["t"] = g.pick(g.tableList())
	case "fld":
		e.S["f"] = g.fieldRef()
		return e
	case "fldparse", "tblparse":
		e.S["p"] = g.randomPieces(true)
		if g.chance(2) { // one that can be read
			cl := []string{"id"}
			if op == "fldparse" && g.chance(2) {
				cl = []string{"id", "dot", "id"}
			}
			if g.chance(2) {
				cl = append(cl, "sp", "as", "sp", "id")
			}
			e.S["p"] = g.pieceSeq(cl...)
		}
		e.S["how"] = g.pick([]string{"err", "panic"})
		return e
	case "valid":
		e.S["p"] = g.randomPieces(false)
		return e
	case "ordparse":
		e.S["p"] = g.randomPieces(false)
		e.S["d"] = g.pick([]string{"", "ASC", "DESC", "asc", "DESC ", "x", "ASC; DROP"})
		if g.chance(4) {
			e.S["d2"] = g.pick([]string{"ASC", "DESC", "x", ""})
		}
		return e
	case "fldas", "fldof":
		e.R = g.find(g.ofKind("fld"))
		e.S["n"] = g.pick(append(append([]string{}, g.aliasList()...), ""))
		if op == "fldof" {
			e.S["n"] = g.pick(append(append([]string{}, g.tableList()...), ""))
		}
	case "tbl":
		e.S["t"] = g.tableRef()
		return e
	case "tblas":
		e.R = g.find(g.ofKind("tbl"))
		e.S["n"] = g.pick([]string{"x", "zz", "t", "orders", ""})
	case "tblfld":
		e.R = g.find(g.ofKind("tbl"))
		e.S["n"] = g.pick(g.nameList())
		if g.chance(3) { // written as belonging to a table
			e.S["q"] = g.pick(append([]string{g.at(e.R).t, g.at(e.R).t, g.at(e.R).t}, g.tableList()...))
		}
	case "fv":
		f := g.fieldRef()
		e.S["f"], e.S["v"] = []string{f[0], f[1], f[2]}, "tok"
		return e
	case "ord":
		f := g.fieldRef()
		e.S["f"], e.S["d"] = []string{f[0], f[1], ""}, g.pick([]string{"ASC", "DESC"})
		return e
	case "fls":
		e.A = g.several("fld", 0, 4)
		return e
	case "flsset":
		e.R = g.find(g.ofKind("fls"))
		e.A = g.several("fld", 0, 4)
	case "from":
		e.S["mode"], e.S["t"] = g.pick([]string{"base", "many", "single"}), g.tableRef()
		e.A = g.conds(0, 2)
		return e
	case "where":
		e.R = g.find(func(m *meta) bool {
			return (m.kind == "sel" || m.kind == "upd" || m.kind == "del") && m.size <= g.leaves
		})
		e.A = g.conds(0, 3)
	case "fields":
		e.R = g.find(g.isSel)
		e.A = g.several("fld", 0, 4)
	case "order":
		e.R = g.find(g.isSel)
		e.A = g.several("ord", 0, 3)
	case "offset":
		e.R = g.find(g.isSel)
		g.amount(e, math.MaxUint64)
	case "limit":
		e.R = g.find(g.isSel)
		g.amount(e, math.MaxInt64)
		if g.chance(5) {
			e.S["n"] = -[]int{0, 1, 2, 100, math.MaxInt32, 1 << 30}[g.rnd.Intn(6)]
			delete(e.S, "x")
		}
	case "many", "single", "todel":
		e.R = g.find(g.isSel)
	case "count":
		e.R = g.find(g.isSel)
		e.S["f"] = []string{}
		if g.chance(2) {
			e.S["f"] = g.fieldRef()
		}
	case "cntroot":
		e.S["t"] = g.tableRef()
		e.A = g.conds(0, 2)
		return e
	case "toupd", "toins":
		e.R = g.find(g.isSel)
		e.A = g.several("fv", 0, 4)
	case "join":
		e.R = g.find(func(m *meta) bool { return g.isSel(m) && m.joins < 8*g.many })
		e.S["jt"], e.S["t"] = g.pick(joinTypes), g.tableRef()
	case "joinroot":
		e.S["l"], e.S["jt"], e.S["t"] = g.tableRef(), g.pick(joinTypes), g.tableRef()
		return e
	case "on", "jnrby":
		e.R = g.find(g.ofKind(map[string]string{"on": "inc", "jnrby": "jnr"}[op]))
		e.A = []int{g.qualified(), g.qualified()}
	case "jc", "jnrfields":
		e.A = []int{g.qualified(), g.qualified()}
		if op == "jnrfields" {
			e.S["jt"] = g.pick(joinTypes)
		}
		if e.A[0] == 0 || e.A[1] == 0 {
			return nil
		}
		return e
	case "jnr":
		e.R = g.find(g.ofKind("jc"))
		e.S["jt"] = g.pick(joinTypes)
	case "jnrnew":
		e.A = []int{g.find(g.ofKind("tbl")), g.find(g.ofKind("jc"))}
		e.S["jt"] = g.pick(joinTypes)
		if e.A[0] == 0 || e.A[1] == 0 {
			return nil
		}
		return e
	case "upd", "ins":
		e.S["t"] = g.tableRef()
		if g.chance(12) {
			e.S["t"] = []string{"", ""}
		}
		e.A = g.several("fv", 0, 3)
		return e
	case "del":
		e.S["t"] = g.tableRef()
		if g.chance(12) {
			e.S["t"] = []string{"", ""}
		}
		e.A = g.conds(0, 2)
		return e
	case "set":
		e.R = g.find(g.ofKind("upd"))
		e.A = g.several("fv", 0, 4)
	case "values":
		e.R = g.find(g.ofKind("ins"))
		e.A = g.several("fv", 0, 4)
	case "whr", "lim":
		return e
	case "wgand", "wgor":
		e.R = g.find(g.ofKind("whr"))
		e.A = g.conds(0, 3)
	case "limoff", "limlim":
		e.R = g.find(g.ofKind("lim"))
		g.amount(e, math.MaxUint64)
	case "vm":
		seen := map[string]bool{}
		l := []any{}
		for i := g.rnd.Intn(5); i >= 0; i-- {
			p := g.pieceSeq("id")
			if g.chance(3) {
				p = g.pieceSeq("id", "dot", "id")
			}
			if g.chance(8) {
				p = g.randomPieces(false)
			}
			if g.chance(3) { // differs from another one in letter case only
				p = []piece{{"id", g.pick([]string{"f", "F", "name", "Name", "NAME", "ü", "Ü", "t1", "T1", "k", "K", "\u212a"})}}
				if g.chance(3) {
					p = append([]piece{{"id", g.pick([]string{"t", "T"})}, {"dot", "."}}, p...)
				}
			} else {
				p = append(p, piece{"id", fmt.Sprint(i)})
			}
			if k := len(p); k > 1 && p[k-2].C != "id" {
				p[k-1].X = "c" + p[k-1].X
			}
			if t := pieceText(p); !seen[t] {
				seen[t] = true
				l = append(l, map[string]any{"p": toAny(p)})
			}
		}
		e.S["m"] = l
		return e
	case "uniq":
		l := []string{}
		for i := g.rnd.Intn(9); i > 0; i-- {
			l = append(l, g.pick(names[:4]))
		}
		e.S["l"] = l
		return e
	case "opname":
		e.S["n"] = g.rnd.Intn(4)
		return e
	case "jtname":
		e.S["jt"] = g.pick(joinTypes)
		return e
	default:
		panic(harnessError{"no proposal for " + op})
	}
	if e.R == 0 {
		return nil
	}
	for _, a := range e.A {
		if a == 0 {
			return nil
		}
	}
	if op == "on" || op == "jnrby" {
		return e
	}
	if (op == "afs" || op == "wafs" || op == "fvafs" || op == "ordafs") && len(e.A) == 0 {
		return nil
	}
	return e
}

func toAny(p []piece) []any {
	res := make([]any, len(p))
	for i := range p {
		res[i] = map[string]any{"c": p[i].C, "x": p[i].X}
	}
	return res
}

// note records what is known about the new object.
func (g *generator) note(e *Event, kind string) {
	r := g.at(e.R)
	m := meta{kind: kind}
	switch kind {
	case "cond":
		switch e.Op {
		case "leaf":
			m.size = 1
		case "not", "neg", "cjoin", "brackets", "afs", "aft":
			m = r
			if e.Op == "not" {
				m.neg, m.dead = true, m.empty
			}
			if e.Op == "neg" {
				m.neg = e.flag("b")
			}
		default:
			if e.R != 0 {
				m = r
			} else {
				m.empty = true
			}
			m.grp = m.grp || len(e.A) > 0 || e.Op == "newgroup"
			if e.Op == "joinmany" && len(e.A) == 1 {
				m = g.at(e.A[0])
				break
			}
			for _, a := range e.A {
				x := g.at(a)
				m.size += x.size
				if !x.empty {
					m.empty = false
					m.neg = false
				}
			}
		}
	case "tbl":
		if e.Op == "tbl" {
			m.t = e.strs("t")[g.rnd.Intn(2)]
		}
	case "fld":
		switch e.Op {
		case "fld":
			m.t = e.strs("f")[0]
		case "fldas":
			m.t = r.t
		case "fldof":
			m.t = e.str("n")
		case "tblfld":
			m.t = "known"
		}
	default:
		m.size, m.joins = r.size, r.joins
		if e.Op == "on" {
			m.joins++
		}
		for _, a := range e.A {
			m.size += g.at(a).size
		}
	}
	g.m = append(g.m, m)
}

func (g *generator) setProfile(p map[string]int) {
	g.prof, g.total, g.ops = p, 0, nil
	for _, op := range allOps {
		if w := p[op]; w > 0 {
			g.total += w
			g.ops = append(g.ops, op)
		}
	}
}

func (g *generator) next() *Event {
	for {
		k := g.rnd.Intn(g.total)
		for _, op := range g.ops {
			if k -= g.prof[op]; k < 0 {
				if e := g.propose(op); e != nil {
					g.fill(e)
					return e
				}
				break
			}
		}
	}
}
