package main

// Reads SQL text into clauses.  The reader accepts any way to write the same
// statement: spacing, keyword case, brackets, <> or !=, JOIN for INNER JOIN,
// OFFSET and LIMIT in either order.

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

type tok struct {
	s   string // text
	up  string // upper case
	off int    // position in the source
	end int
	ph  bool // placeholder
	n   int  // its number (position for "?")
}

func isOpChar(r rune) bool { return r == '=' || r == '<' || r == '>' || r == '!' }

// quoted is the length of the literal rs begins with, 0 when it has no end.
func quoted(rs []rune) int {
	for i := 1; i < len(rs); i++ {
		if rs[i] == '\'' {
			if i+1 < len(rs) && rs[i+1] == '\'' {
				i++
				continue
			}
			return i + 1
		}
	}
	return 0
}

func tokenize(src string) (res []tok) {
	rs := []rune(src)
	offs := make([]int, len(rs)+1)
	{
		o := 0
		for i, r := range rs {
			offs[i] = o
			o += len(string(r))
		}
		offs[len(rs)] = len(src)
	}
	q := 0
	add := func(i, j int) {
		s := string(rs[i:j])
		t := tok{s: s, up: strings.ToUpper(s), off: offs[i], end: offs[j]}
		if s == "?" {
			q++
			t.ph, t.n = true, q
		} else if len(s) > 1 && s[0] == '$' {
			if n, err := strconv.Atoi(s[1:]); err == nil {
				t.ph, t.n = true, n
			}
		}
		res = append(res, t)
	}
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case r == '\'' && quoted(rs[i:]) > 0: // a literal of a user condition
			j := i + quoted(rs[i:])
			add(i, j)
			i = j
		case r == '(' || r == ')' || r == ',' || r == '?' || r == ';':
			add(i, i+1)
			i++
		case r == '$':
			j := i + 1
			for j < len(rs) && rs[j] >= '0' && rs[j] <= '9' {
				j++
			}
			add(i, j)
			i = j
		case isOpChar(r):
			j := i + 1
			for j < len(rs) && isOpChar(rs[j]) {
				j++
			}
			add(i, j)
			i = j
		default:
			j := i
			for j < len(rs) && !unicode.IsSpace(rs[j]) && !isOpChar(rs[j]) &&
				rs[j] != '(' && rs[j] != ')' && rs[j] != ',' && rs[j] != '$' && rs[j] != '?' && rs[j] != ';' {
				j++
			}
			add(i, j)
			i = j
		}
	}
	return res
}

// skeleton is the statement with every placeholder replaced by "?".
func skeleton(src string) string {
	var sb strings.Builder
	for _, t := range tokenize(src) {
		if t.ph {
			sb.WriteString(" ?")
		} else {
			sb.WriteString(" " + t.s)
		}
	}
	return strings.TrimSpace(sb.String())
}

// placeholders lists placeholder numbers left to right.
func placeholders(src string) []int {
	res := []int{}
	for _, t := range tokenize(src) {
		if t.ph {
			res = append(res, t.n)
		}
	}
	return res
}

func countQuestion(src string) int {
	n := 0
	for _, t := range tokenize(src) {
		if t.s == "?" {
			n++
		}
	}
	return n
}

type node struct {
	K string   `json:"k"`
	F []string `json:"f"`
	O string   `json:"o"`
	P []int    `json:"p"`
	C []*node  `json:"c"`
}

func noNode() *node { return &node{K: "none", F: []string{}, P: []int{}, C: []*node{}} }
func inner(k string, c ...*node) *node {
	return &node{K: k, F: []string{}, P: []int{}, C: c}
}
func leafNode(f, o string, p ...int) *node {
	if p == nil {
		p = []int{}
	}
	return &node{K: "leaf", F: []string{"", f}, O: o, P: p, C: []*node{}}
}

type syntaxError struct{ msg string }

type parser struct {
	src string
	t   []tok
	i   int
}

func (p *parser) fail(msg string) {
	rest := ""
	if p.i < len(p.t) {
		rest = p.src[p.t[p.i].off:]
	}
	panic(syntaxError{fmt.Sprintf("%s at %q", msg, rest)})
}
func (p *parser) eof() bool { return p.i >= len(p.t) }
func (p *parser) peek() string {
	if p.eof() {
		return ""
	}
	return p.t[p.i].up
}
func (p *parser) peekAt(k int) string {
	if p.i+k >= len(p.t) {
		return ""
	}
	return p.t[p.i+k].up
}
func (p *parser) is(words ...string) bool {
	for k, w := range words {
		if p.peekAt(k) != w {
			return false
		}
	}
	return true
}
func (p *parser) accept(words ...string) bool {
	if p.is(words...) {
		p.i += len(words)
		return true
	}
	return false
}
func (p *parser) expect(words ...string) {
	if !p.accept(words...) {
		p.fail("expected " + strings.Join(words, " "))
	}
}

var reserved = map[string]bool{"SELECT": true, "FROM": true, "WHERE": true, "AND": true, "OR": true, "NOT": true,
	"ORDER": true, "LIMIT": true, "OFFSET": true, "JOIN": true, "INNER": true, "LEFT": true, "RIGHT": true,
	"FULL": true, "ON": true, "SET": true, "VALUES": true, "AS": true, "IN": true, "IS": true, "LIKE": true,
	"ILIKE": true, "BETWEEN": true, "GROUP": true, "HAVING": true, "UNION": true, "RETURNING": true, "USING": true}

func (p *parser) word() string {
	if p.eof() || p.t[p.i].ph || reserved[p.peek()] || strings.ContainsAny(p.t[p.i].s, "(),;=<>!") {
		p.fail("expected a name")
	}
	s := p.t[p.i].s
	p.i++
	return s
}
func (p *parser) ph() int {
	if p.eof() || !p.t[p.i].ph {
		p.fail("expected a placeholder")
	}
	n := p.t[p.i].n
	p.i++
	return n
}

func (p *parser) expr() *node {
	c := []*node{p.conj()}
	for p.accept("OR") {
		c = append(c, p.conj())
	}
	if len(c) == 1 {
		return c[0]
	}
	return inner("or", c...)
}
func (p *parser) conj() *node {
	c := []*node{p.unary()}
	for p.accept("AND") {
		c = append(c, p.unary())
	}
	if len(c) == 1 {
		return c[0]
	}
	return inner("and", c...)
}
func (p *parser) unary() *node {
	if p.accept("NOT") {
		return inner("not", p.unary())
	}
	if p.is("(") {
		p.i++
		x := p.expr()
		p.expect(")")
		return x
	}
	return p.predicate()
}

// operators written by user conditions of the harness: their text must come through unchanged
func (p *parser) exact(start int, want string) string {
	from, to := p.t[start].off, p.t[p.i-1].end
	got := p.src[from:to]
	var sb strings.Builder
	for j := 0; j < len(got); {
		if k := quoted([]rune(got[j:])); got[j] == '\'' && k > 0 { // literals of user conditions are ASCII
			sb.WriteString(got[j : j+k])
			j += k
		} else if got[j] == '?' {
			sb.WriteByte('#')
			j++
		} else if got[j] == '$' {
			j++
			for j < len(got) && got[j] >= '0' && got[j] <= '9' {
				j++
			}
			sb.WriteByte('#')
		} else {
			sb.WriteByte(got[j])
			j++
		}
	}
	if sb.String() != want {
		return "!mangled"
	}
	return ""
}

func (p *parser) predicate() *node {
	start := p.i
	if p.is("EXISTS", "(") {
		return p.exists()
	}
	if p.is("GEO", "(") {
		p.i += 2
		f := p.word()
		ps := []int{}
		for p.accept(",") {
			ps = append(ps, p.ph())
		}
		p.expect(")")
		return leafNode(f, "geo"+p.exact(start, "geo( "+f+strings.Repeat(" , #", len(ps))+" )"), ps...)
	}
	if p.is("COST", "(") {
		p.i += 2
		f := p.word()
		p.expect(",")
		if p.eof() || p.t[p.i].s != "'$1 ? it''s $2'" {
			p.fail("text of a user condition changed")
		}
		p.i++
		ps := []int{}
		for p.accept(",") {
			ps = append(ps, p.ph())
		}
		p.expect(")")
		return leafNode(f, "cost"+p.exact(start, "cost( "+f+" , '$1 ? it''s $2'"+strings.Repeat(" , #", len(ps))+" )"), ps...)
	}
	f := p.word()
	switch {
	case p.accept("IS", "NULL"):
		return leafNode(f, "null")
	case p.accept("IS", "NOT", "NULL"):
		return inner("not", leafNode(f, "null"))
	case p.accept("IS", "TRUE"):
		return leafNode(f, "istrue"+p.exact(start, f+" IS  TRUE"))
	case p.accept("BETWEEN"):
		a := p.ph()
		p.expect("AND")
		b := p.ph()
		return leafNode(f, "between"+p.exact(start, f+"  BETWEEN # AND  #"), a, b)
	}
	neg := p.accept("NOT")
	var x *node
	switch {
	case p.accept("IN"):
		p.expect("(")
		ps := []int{}
		if !p.is(")") {
			ps = append(ps, p.ph())
			for p.accept(",") {
				ps = append(ps, p.ph())
			}
		}
		p.expect(")")
		x = leafNode(f, "in", ps...)
	case p.accept("LIKE"):
		x = leafNode(f, "like", p.ph())
	case p.accept("ILIKE"):
		x = leafNode(f, "ilike", p.ph())
	case !neg && (p.is("=") || p.is("<") || p.is(">") || p.is("<=") || p.is(">=") || p.is("<>") || p.is("!=")):
		o := p.peek()
		p.i++
		if o == "!=" {
			o = "<>"
		}
		x = leafNode(f, o, p.ph())
	default:
		p.fail("expected a comparison")
	}
	if neg {
		x = inner("not", x)
	}
	return x
}

func guard(f func()) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(syntaxError); ok {
				bad = se.msg
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

func newParser(src string) *parser { return &parser{src: src, t: tokenize(src)} }

func parseWhere(src string) (x *node, bad string) {
	x = noNode()
	p := newParser(src)
	if p.eof() {
		return x, ""
	}
	bad = guard(func() {
		y := p.expr()
		if !p.eof() {
			p.fail("unexpected text")
		}
		x = y
	})
	return x, bad
}

type pg struct {
	I int    `json:"i"`
	X string `json:"x"`
}
type joinObs struct {
	Jt string    `json:"jt"`
	T  [2]string `json:"t"`
	On []string  `json:"on"`
}

type selClauses struct {
	F    [][2]string `json:"f"`
	Cf   string      `json:"cf"`
	From [2]string   `json:"from"`
	J    []joinObs   `json:"j"`
	W    *node       `json:"w"`
	Ord  [][2]string `json:"ord"`
	Off  pg          `json:"off"`
	Lim  pg          `json:"lim"`
}

func emptySel() selClauses {
	return selClauses{F: [][2]string{}, J: []joinObs{}, W: noNode(), Ord: [][2]string{}}
}

func (p *parser) column() [2]string {
	var c string
	if p.is("*") {
		p.i++
		c = "*"
	} else {
		c = p.word()
	}
	a := ""
	if p.accept("AS") {
		a = p.word()
	} else if !p.eof() && !p.t[p.i].ph && !reserved[p.peek()] && !p.is(",") && !p.is(")") && !p.is("(") && !p.is(";") {
		a = p.word()
	}
	return [2]string{c, a}
}

func (p *parser) columns() (res [][2]string) {
	res = append(res, p.column())
	for p.accept(",") {
		res = append(res, p.column())
	}
	return res
}

func (p *parser) table() [2]string {
	n := p.word()
	a := ""
	if p.accept("AS") {
		a = p.word()
	} else if !p.eof() && !reserved[p.peek()] && !p.is("(") && !p.is(")") && !p.is(",") && !p.is(";") && !p.t[p.i].ph {
		a = p.word()
	}
	if a == n {
		a = ""
	}
	return [2]string{n, a}
}

func (p *parser) joins() (res []joinObs) {
	res = []joinObs{}
	for {
		jt := ""
		switch {
		case p.accept("INNER", "JOIN"), p.accept("JOIN"):
			jt = "INNER JOIN"
		case p.accept("LEFT", "JOIN"), p.accept("LEFT", "OUTER", "JOIN"):
			jt = "LEFT JOIN"
		case p.accept("RIGHT", "JOIN"), p.accept("RIGHT", "OUTER", "JOIN"):
			jt = "RIGHT JOIN"
		case p.accept("FULL", "JOIN"), p.accept("FULL", "OUTER", "JOIN"):
			jt = "FULL JOIN"
		default:
			return res
		}
		j := joinObs{Jt: jt, T: p.table()}
		p.expect("ON")
		j.On = p.onFields()
		res = append(res, j)
	}
}

func (p *parser) onFields() []string {
	br := p.accept("(")
	l := p.word()
	p.expect("=")
	r := p.word()
	if br {
		p.expect(")")
	}
	return []string{l, r}
}

func (p *parser) fromTail(s *selClauses) {
	s.From = p.table()
	s.J = p.joins()
}

func (p *parser) page() pg {
	if !p.eof() && p.t[p.i].ph {
		return pg{I: p.ph()}
	}
	if p.eof() {
		p.fail("expected a number")
	}
	x := p.t[p.i].s
	if _, err := strconv.Atoi(x); err != nil {
		p.fail("expected a number")
	}
	p.i++
	return pg{X: x}
}

func (p *parser) paging(s *selClauses) {
	seenOff, seenLim := false, false
	for {
		switch {
		case !seenOff && p.accept("OFFSET"):
			s.Off = p.page()
			seenOff = true
		case !seenLim && p.accept("LIMIT"):
			s.Lim = p.page()
			seenLim = true
		default:
			return
		}
	}
}

func (p *parser) orderItem() [2]string {
	c := p.word()
	d := "ASC"
	if p.accept("ASC") {
		d = "ASC"
	} else if p.accept("DESC") {
		d = "DESC"
	}
	return [2]string{c, d}
}

func parseSelect(src string) (s selClauses, bad string) {
	s = emptySel()
	p := newParser(src)
	bad = guard(func() {
		p.expect("SELECT")
		if p.is("COUNT", "(") {
			p.i += 2
			if p.accept("*") {
				s.Cf = "*"
			} else {
				s.Cf = p.word()
			}
			p.expect(")")
		} else {
			s.F = p.columns()
		}
		p.expect("FROM")
		p.fromTail(&s)
		if p.accept("WHERE") {
			s.W = p.expr()
		}
		if p.accept("ORDER", "BY") {
			s.Ord = append(s.Ord, p.orderItem())
			for p.accept(",") {
				s.Ord = append(s.Ord, p.orderItem())
			}
		}
		p.paging(&s)
		p.accept(";")
		if !p.eof() {
			p.fail("unexpected text")
		}
	})
	if bad != "" {
		s = emptySel()
	}
	return s, bad
}

func parseFrom(src string) (from [2]string, j []joinObs, bad string) {
	s := emptySel()
	p := newParser(src)
	bad = guard(func() {
		p.fromTail(&s)
		if !p.eof() {
			p.fail("unexpected text")
		}
	})
	return s.From, s.J, bad
}

func parseColumns(src string) (res [][2]string, bad string) {
	res = [][2]string{}
	p := newParser(src)
	bad = guard(func() {
		res = p.columns()
		if !p.eof() {
			p.fail("unexpected text")
		}
	})
	return res, bad
}

func parseJoin(src string) (j joinObs, bad string) {
	p := newParser(src)
	j.On = []string{}
	bad = guard(func() {
		js := p.joins()
		if len(js) != 1 || !p.eof() {
			p.fail("expected one join")
		}
		j = js[0]
	})
	return j, bad
}

func parseOn(src string) (on []string, bad string) {
	on = []string{}
	p := newParser(src)
	bad = guard(func() {
		on = p.onFields()
		if !p.eof() {
			p.fail("unexpected text")
		}
	})
	return on, bad
}

func parsePaging(src string) (s selClauses, bad string) {
	s = emptySel()
	p := newParser(src)
	bad = guard(func() {
		p.paging(&s)
		if !p.eof() {
			p.fail("unexpected text")
		}
	})
	return s, bad
}

type setObs struct {
	C string `json:"c"`
	I int    `json:"i"`
}
type writeClauses struct {
	T    string   `json:"t"`
	Sets []setObs `json:"sets"`
	W    *node    `json:"w"`
}

func parseWrite(kind, src string) (s writeClauses, bad string) {
	s = writeClauses{Sets: []setObs{}, W: noNode()}
	p := newParser(src)
	bad = guard(func() {
		switch kind {
		case "upd":
			p.expect("UPDATE")
			s.T = p.word()
			p.expect("SET")
			for {
				c := p.word()
				p.expect("=")
				s.Sets = append(s.Sets, setObs{c, p.ph()})
				if !p.accept(",") {
					break
				}
			}
			if p.accept("WHERE") {
				s.W = p.expr()
			}
		case "del":
			p.expect("DELETE", "FROM")
			s.T = p.word()
			if p.accept("WHERE") {
				s.W = p.expr()
			}
		case "ins":
			p.expect("INSERT", "INTO")
			s.T = p.word()
			p.expect("(")
			for {
				s.Sets = append(s.Sets, setObs{C: p.word()})
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			p.expect("VALUES")
			p.expect("(")
			for k := 0; ; k++ {
				n := p.ph()
				if k >= len(s.Sets) {
					p.fail("more values than columns")
				}
				s.Sets[k].I = n
				if !p.accept(",") {
					if k != len(s.Sets)-1 {
						p.fail("fewer values than columns")
					}
					break
				}
			}
			p.expect(")")
		}
		p.accept(";")
		if !p.eof() {
			p.fail("unexpected text")
		}
	})
	if bad != "" {
		s = writeClauses{Sets: []setObs{}, W: noNode()}
	}
	return s, bad
}

// ---- single definitions are read by position, so that any name works in them

// named reads "x", "x a" (when allowed) and "x AS a".
func named(src string, implicit bool) (x [2]string, ok bool) {
	w := strings.Fields(src)
	switch {
	case len(w) == 1:
		return [2]string{w[0], ""}, true
	case len(w) == 2 && implicit:
		return [2]string{w[0], w[1]}, true
	case len(w) == 3 && strings.EqualFold(w[1], "as"):
		return [2]string{w[0], w[2]}, true
	}
	return [2]string{"unreadable: " + src, ""}, false
}

func columnOf(src string) [2]string {
	x, _ := named(src, true)
	return x
}

func tableOf(src string) [2]string {
	x, ok := named(src, true)
	if ok && x[1] == x[0] {
		x[1] = ""
	}
	return x
}

func orderOf(src string) [2]string {
	w := strings.Fields(src)
	switch {
	case len(w) == 1:
		return [2]string{w[0], "ASC"}
	case len(w) == 2 && (strings.EqualFold(w[1], "ASC") || strings.EqualFold(w[1], "DESC")):
		return [2]string{w[0], strings.ToUpper(w[1])}
	}
	return [2]string{"unreadable: " + src, ""}
}

// awkward: the name cannot be told from a key word inside a statement
func awkward(names ...string) bool {
	for _, n := range names {
		for _, part := range strings.Split(n, ".") {
			if reserved[strings.ToUpper(part)] || strings.ContainsAny(part, "'\"") {
				return true
			}
		}
	}
	return false
}
