package main

// Everything an object shows through the exported API, first as it is (raw,
// for digests), then read into clauses (observation, for the specification).

import (
	"errors"
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	q "github.com/amarin/query"
)

type item struct {
	key  string
	text string      // text
	prm  [][2]string // parameters or other pairs
	sql  bool        // SQL text: may not depend on values
}

type raw struct {
	kind  string
	items []item
	fail  string // panic while observing
	awk   bool   // has a name that only stands for itself alone
}

func (r *raw) sql(k, s string)       { r.items = append(r.items, item{key: k, text: s, sql: true}) }
func (r *raw) att(k, s string)       { r.items = append(r.items, item{key: k, text: s}) }
func (r *raw) prm(k string, p []any) { r.items = append(r.items, item{key: k, prm: takeParams(p)}) }
func (r *raw) pairs(k string, p [][2]string) {
	r.items = append(r.items, item{key: k, prm: p})
}
func (r *raw) get(k string) *item {
	for i := range r.items {
		if r.items[i].key == k {
			return &r.items[i]
		}
	}
	return &item{prm: [][2]string{}}
}
func (r *raw) s(k string) string      { return r.get(k).text }
func (r *raw) p(k string) [][2]string { return r.get(k).prm }

func (r *raw) digest() string {
	h := fnv.New32a()
	fmt.Fprint(h, r.kind, "\x01", r.fail)
	for _, it := range r.items {
		fmt.Fprint(h, "\x02", it.key, "\x03", it.text)
		for _, p := range it.prm {
			fmt.Fprint(h, "\x04", p[0], "\x05", p[1])
		}
	}
	return strconv.FormatUint(uint64(h.Sum32()), 36)
}

func (r *raw) sqlText() string {
	var sb strings.Builder
	for _, it := range r.items {
		if it.sql {
			sb.WriteString(it.text)
			sb.WriteByte(1)
		}
	}
	return sb.String()
}

// takeParams reads a returned list, then overwrites it as a caller may.
func takeParams(p []any) [][2]string {
	res := canonAll(p)
	full := p[:cap(p)]
	for i := range full {
		full[i] = "overwritten by the caller"
	}
	return res
}

func takeFields(fs []q.FieldDefinition) [][3]string {
	res := make([][3]string, len(fs))
	for i, f := range fs {
		res[i] = [3]string{string(f.TableName()), string(f.FieldName()), string(f.Alias())}
	}
	full := fs[:cap(fs)]
	for i := range full {
		full[i] = q.Field("overwritten")
	}
	return res
}

func takeSets(vs []q.FieldValue) (res, vals [][2]string) {
	res = make([][2]string, len(vs))
	vals = make([][2]string, len(vs))
	for i, v := range vs {
		res[i] = [2]string{string(v.TableName()), string(v.FieldName())}
		vals[i] = [2]string{"?", "not one"}
		if l := takeParams(v.Values()); len(l) == 1 {
			vals[i] = l[0]
		}
	}
	full := vs[:cap(vs)]
	for i := range full {
		full[i] = *q.NewFieldValue("overwritten", 0)
	}
	return res, vals
}

// startOf is the number of parameters taken before, for a rendering that does
// not start at 0; every text has its own.
func startOf(r0 string) int {
	h := fnv.New32a()
	h.Write([]byte(skeleton(r0)))
	return []int{1, 2, 7, 8, 9, 10, 90, 99, 100, 127, 255, 999, 9999, 65530, 1999999}[h.Sum32()%15]
}

type alone interface {
	Render(int) string
	RenderSQL() string
	Values() []any
}

func (r *raw) alone(x alone) {
	r0 := x.Render(0)
	k := startOf(r0)
	r.sql("r0", r0)
	r.sql("r7", x.Render(k))
	r.att("k7", strconv.Itoa(k))
	r.sql("q", x.RenderSQL())
	r.prm("prm", x.Values())
}

func fieldsText(fs [][3]string) string {
	var sb strings.Builder
	for _, f := range fs {
		sb.WriteString(f[0] + "\x06" + f[1] + "\x06" + f[2] + "\x07")
	}
	return sb.String()
}

func fieldsOf(s string) [][3]string {
	res := [][3]string{}
	for _, l := range strings.Split(s, "\x07") {
		if p := strings.Split(l, "\x06"); len(p) == 3 {
			res = append(res, [3]string{p[0], p[1], p[2]})
		}
	}
	return res
}

var onLeft, onRight = q.Field("f").Of("probe"), q.Field("g").Of("probe")

// collect reads an object.
func collect(x any) (r *raw) {
	r = &raw{}
	defer func() {
		if p := recover(); p != nil {
			r.fail = fmt.Sprint(p)
			if r.fail == "" {
				r.fail = "panic"
			}
		}
	}()
	switch v := x.(type) {
	case failed:
		r.kind = "fail"
		r.att("how", v.how)
		r.att("msg", v.msg)
		r.att("own", strconv.FormatBool(v.own))
	case skipped:
		r.kind = "skip"
	case q.BaseSelectBuilder:
		r.kind = "sel"
		sql, prm, err := v.BuildQueryAndParams()
		r.build(sql, prm, err)
		r.alone(v)
		r.sql("from", v.RenderFrom())
		r.att("tn", string(v.TableName()))
		r.att("op", v.Operation().String())
		r.att("fd", fieldsText(takeFields(v.FieldDefinitions())))
		fs := []any{}
		for _, f := range v.FieldDefinitions() {
			fs = append(fs, f)
		}
		r.sql("fl", q.NewFields(fs...).FieldList())
		r.att("str", v.String())
	case q.SelectManyBuilder:
		r.kind = "sel"
		sql, prm, err := v.BuildQueryAndParams()
		r.build(sql, prm, err)
		r.alone(v)
		r.sql("from", v.RenderFrom())
		r.att("tn", string(v.TableName()))
		r.att("op", v.Operation().String())
		r.att("fd", fieldsText(takeFields(v.FieldDefinitions())))
		r.sql("fl", v.FieldList())
	case q.SelectSingleBuilder:
		r.kind = "sel"
		sql, prm, err := v.BuildQueryAndParams()
		r.build(sql, prm, err)
		r.alone(v)
		r.sql("from", v.RenderFrom())
		r.att("tn", string(v.TableName()))
		r.att("op", v.Operation().String())
		r.att("fd", fieldsText(takeFields(v.FieldDefinitions())))
		r.sql("fl", v.FieldList())
	case incomplete:
		r.kind = "inc"
		switch {
		case v.m != nil:
			sql, prm, err := v.m.On(onLeft, onRight).BuildQueryAndParams()
			r.build(sql, prm, err)
		case v.s != nil:
			sql, prm, err := v.s.On(onLeft, onRight).BuildQueryAndParams()
			r.build(sql, prm, err)
		default:
			sql, prm, err := v.b.On(onLeft, onRight).BuildQueryAndParams()
			r.build(sql, prm, err)
		}
	case q.CountBuilder:
		r.kind = "cnt"
		sql, prm, err := v.BuildQueryAndParams()
		r.build(sql, prm, err)
		r.sql("from", v.RenderFrom())
	case q.UpdateBuilder:
		r.kind = "upd"
		sql, prm, err := v.BuildQueryAndParams()
		r.build(sql, prm, err)
		r.sql("from", v.RenderFrom())
		r.att("tn", string(v.TableName()))
		r.att("op", v.Operation().String())
		sv, vals := takeSets(v.SetValues())
		r.pairs("sv", sv)
		r.pairs("svv", vals)
	case q.DeleteBuilder:
		r.kind = "del"
		sql, prm, err := v.BuildQueryAndParams()
		r.build(sql, prm, err)
		r.sql("from", v.RenderFrom())
		r.att("tn", string(v.TableName()))
		r.att("op", v.Operation().String())
	case q.InsertBuilder:
		r.kind = "ins"
		sql, prm, err := v.BuildQueryAndParams()
		r.build(sql, prm, err)
		r.sql("from", v.RenderFrom())
		r.att("tn", string(v.TableName()))
		r.att("op", v.Operation().String())
		sv, vals := takeSets(v.SetValues())
		r.pairs("sv", sv)
		r.pairs("svv", vals)
	case q.WhereClause:
		r.kind = "whr"
		r.alone(v)
		cs := v.Conditions()
		r.att("nc", strconv.Itoa(len(cs)))
		for i, c := range cs {
			r.sql("c"+strconv.Itoa(i), c.Render(0))
			r.prm("cp"+strconv.Itoa(i), c.Values())
			r.att("cj"+strconv.Itoa(i), string(c.JoinType()))
		}
		full := cs[:cap(cs)]
		for i := range full {
			full[i] = q.EqualTo("overwritten", 0)
		}
		_ = append(cs, q.EqualTo("overwritten", 0))
	case q.FieldDefinition:
		r.kind = "fld"
		r.att("t", string(v.TableName()))
		r.att("n", string(v.FieldName()))
		r.att("a", string(v.Alias()))
		r.awk = awkward(string(v.TableName()), string(v.FieldName()), string(v.Alias()))
		r.sql("spec", v.RenderSpec())
		r.sql("txt", v.RenderField())
		r.sql("tspec", v.RenderTableSpec())
		r.att("tfn", string(v.TableFieldName()))
	case q.TableIdent:
		r.kind = "tbl"
		r.awk = awkward(string(v.TableName()), string(v.Alias()))
		r.att("n", string(v.TableName()))
		r.att("a", string(v.Alias()))
		r.sql("from", v.RenderFrom())
	case q.FieldSorting:
		r.kind = "ord"
		r.att("t", string(v.TableName()))
		r.att("n", string(v.FieldName()))
		r.att("a", string(v.Alias()))
		r.awk = awkward(string(v.TableName()), string(v.FieldName()), string(v.Alias()))
		r.att("d", v.Direction().String())
		r.sql("txt", v.Render())
	case q.FieldValue:
		r.kind = "fv"
		r.att("t", string(v.TableName()))
		r.att("n", string(v.FieldName()))
		r.att("a", string(v.Alias()))
		r.sql("spec", v.RenderSpec())
		r.prm("vals", v.Values())
	case q.Fields:
		r.kind = "fls"
		r.att("len", strconv.Itoa(v.Len()))
		r.att("fd", fieldsText(takeFields(v.FieldDefinitions())))
		r.sql("fl", v.FieldList())
	case q.Limiter:
		r.kind = "lim"
		r.alone(v)
	case q.JoinCondition:
		r.kind = "jc"
		r.sql("on", v.Render())
	case q.TableJoiner:
		r.kind = "jnr"
		r.sql("j", v.RenderFrom())
		r.att("jt", v.JoinType().String())
		r.sql("on", v.JoinCondition().Render())
	case vmResult:
		r.kind = "vm"
		for _, f := range v.fv {
			c := [2]string{"?", "?"}
			if vals := f.Values(); len(vals) == 1 {
				c = canon(vals[0])
			}
			r.pairs("e", [][2]string{{string(f.TableName()), string(f.FieldName())}, c})
		}
		sort.SliceStable(r.items, func(a, b int) bool { // their order is a map's
			return asJSON(r.items[a].prm) < asJSON(r.items[b].prm)
		})
	case validResult:
		r.kind = "valid"
		r.att("ok", strconv.FormatBool(v.ok))
		r.att("own", strconv.FormatBool(v.own))
	case uniqResult:
		r.kind = "uniq"
		for _, n := range v.l {
			r.att("n", string(n))
		}
	case nameResult:
		r.kind = "name"
		r.att("n", v.n)
	case q.Condition:
		r.kind = "cond"
		r.alone(v)
		r.att("join", string(v.JoinType()))
		r.att("neg", strconv.FormatBool(v.IsNegate()))
		r.att("rneg", v.RenderNegate())
		r.att("fn", string(v.FieldName()))
		r.att("rj", v.RenderJoin(false))
		r.att("rjf", v.RenderJoin(true))
	default:
		panic(harnessError{fmt.Sprintf("cannot observe %T", x)})
	}
	return r
}

func (r *raw) build(sql string, prm []any, err error) {
	r.sql("sql", sql)
	r.items = append(r.items, item{key: "bprm", prm: takeParams(prm)})
	e, qe := "", "false"
	if err != nil {
		e = "error: " + err.Error()
		if errors.Is(err, q.Error) {
			qe = "true"
		}
	}
	r.att("err", e)
	r.att("qerr", qe)
}

type obs map[string]any

func joinBad(bs ...string) string {
	for _, b := range bs {
		if b != "" {
			return b
		}
	}
	return ""
}

func (r *raw) aloneObs(o obs) {
	r0 := r.s("r0")
	o["prm"] = r.p("prm")
	o["ph"], o["sk"] = placeholders(r0), skeleton(r0)
	o["ph7"], o["sk7"] = placeholders(r.s("r7")), skeleton(r.s("r7"))
	o["k7"], _ = strconv.Atoi(r.s("k7"))
	o["skq"], o["nq"] = skeleton(r.s("q")), countQuestion(r.s("q"))
}

// interpret turns what was read into the observation of the specification.
func interpret(r *raw) (o obs) {
	defer func() {
		if x := recover(); x != nil {
			o = obs{"st": "panic", "msg": fmt.Sprint("unreadable: ", x)}
		}
	}()
	o = obs{"st": "ok"}
	if r.fail != "" {
		o["st"], o["msg"] = "panic", r.fail
		return o
	}
	switch r.kind {
	case "fail":
		o["st"], o["msg"], o["own"] = r.s("how"), r.s("msg"), r.s("own") == "true"
	case "skip":
		o["st"] = "skip"
	case "cond":
		ast, bad := parseWhere(r.s("r0"))
		o["bad"], o["ast"] = bad, ast
		r.aloneObs(o)
		o["join"], o["neg"], o["fn"] = r.s("join"), r.s("neg") == "true", r.s("fn")
		o["rj"], o["rjf"] = r.s("rj"), r.s("rjf")
		o["rneg"] = strings.ToUpper(strings.TrimSpace(r.s("rneg")))
	case "whr":
		ast, bad := parseWhere(r.s("r0"))
		o["bad"], o["ast"] = bad, ast
		r.aloneObs(o)
		nc, _ := strconv.Atoi(r.s("nc"))
		cs := []obs{}
		for i := 0; i < nc; i++ {
			k := strconv.Itoa(i)
			ast, bad := parseWhere(r.s("c" + k))
			if bad != "" {
				o["bad"] = bad
			}
			cs = append(cs, obs{"ast": ast, "prm": r.p("cp" + k), "join": r.s("cj" + k)})
		}
		o["nc"], o["cs"] = nc, cs
	case "sel":
		s, bad := parseSelect(r.s("sql"))
		fl, bad2 := parseColumns(r.s("fl"))
		from, j, bad3 := parseFrom(r.s("from"))
		o["bad"], o["berr"], o["s"] = joinBad(bad, bad2, bad3), r.s("err") != "", s
		o["prm"], o["ph"], o["sk"] = r.p("bprm"), placeholders(r.s("sql")), skeleton(r.s("sql"))
		o["r0"] = obs{"ph": placeholders(r.s("r0")), "sk": skeleton(r.s("r0"))}
		o["r7"] = obs{"ph": placeholders(r.s("r7")), "sk": skeleton(r.s("r7"))}
		o["k7"], _ = strconv.Atoi(r.s("k7"))
		o["q"] = obs{"sk": skeleton(r.s("q")), "n": countQuestion(r.s("q"))}
		o["v"] = r.p("prm")
		o["tn"], o["opn"] = r.s("tn"), r.s("op")
		o["fd"], o["fl"] = fieldsOf(r.s("fd")), fl
		o["rf"] = obs{"from": from, "j": j}
	case "cnt":
		s, bad := parseSelect(r.s("sql"))
		from, j, bad3 := parseFrom(r.s("from"))
		o["bad"], o["berr"], o["s"] = joinBad(bad, bad3), r.s("err") != "", s
		o["prm"], o["ph"] = r.p("bprm"), placeholders(r.s("sql"))
		o["rf"] = obs{"from": from, "j": j}
	case "upd", "del", "ins":
		o["berr"], o["bq"] = r.s("err") != "", r.s("qerr") == "true"
		o["bempty"] = r.s("sql") == "" && len(r.p("bprm")) == 0
		s, bad := writeClauses{Sets: []setObs{}, W: noNode()}, ""
		if r.s("err") == "" {
			s, bad = parseWrite(r.kind, r.s("sql"))
		}
		o["bad"], o["s"] = bad, s
		o["prm"], o["ph"] = r.p("bprm"), placeholders(r.s("sql"))
		o["tn"], o["opn"], o["rf"] = r.s("tn"), r.s("op"), r.s("from")
		o["sv"], o["svv"] = r.p("sv"), r.p("svv")
	case "fld":
		o["t"], o["n"], o["a"] = r.s("t"), r.s("n"), r.s("a")
		o["spec"] = columnOf(r.s("spec"))
		o["txt"], o["tspec"], o["tfn"] = r.s("txt"), r.s("tspec"), r.s("tfn")
	case "tbl":
		o["n"], o["a"] = r.s("n"), r.s("a")
		o["from"] = tableOf(r.s("from"))
	case "ord":
		o["t"], o["n"], o["a"], o["d"] = r.s("t"), r.s("n"), r.s("a"), r.s("d")
		o["txt"] = orderOf(r.s("txt"))
	case "fv":
		o["t"], o["n"], o["a"], o["vals"] = r.s("t"), r.s("n"), r.s("a"), r.p("vals")
		o["spec"] = columnOf(r.s("spec"))
	case "fls":
		o["len"], _ = strconv.Atoi(r.s("len"))
		fl, _ := parseColumns(r.s("fl"))
		o["fd"], o["fl"] = fieldsOf(r.s("fd")), fl
	case "lim":
		s, bad := parsePaging(r.s("r0"))
		o["bad"], o["s"] = bad, s
		r.aloneObs(o)
	case "jc":
		on, bad := parseOn(r.s("on"))
		if bad != "" {
			on = []string{"unreadable: " + r.s("on")}
		}
		o["on"] = on
	case "jnr":
		j, bad := parseJoin(r.s("j"))
		on, bad2 := parseOn(r.s("on"))
		o["bad"], o["j"], o["jt"], o["on"] = joinBad(bad, bad2), j, r.s("jt"), on
	case "vm":
		m := [][]any{}
		for _, it := range r.items {
			m = append(m, []any{it.prm[0][0], it.prm[0][1], it.prm[1]})
		}
		sort.Slice(m, func(a, b int) bool { return asJSON(m[a]) < asJSON(m[b]) })
		o["m"] = m
	case "valid":
		o["ok"], o["own"] = r.s("ok") == "true", r.s("own") == "true"
	case "uniq":
		l := []string{}
		for _, it := range r.items {
			l = append(l, it.text)
		}
		o["l"] = l
	case "name":
		o["n"] = r.s("n")
	}
	return o
}

// retained is what an object returned when it was obtained, put aside by the
// caller: nothing that happens later may change it.
type retained struct {
	r     *raw
	dig   string
	lists []func() string // reads a returned list
	want  []string
}

func (k *retained) list(read func() string) {
	k.lists = append(k.lists, read)
	k.want = append(k.want, read())
}

func (k *retained) params(p []any) { k.list(func() string { return asJSON(canonAll(p)) }) }
func (k *retained) fields(fs []q.FieldDefinition) {
	k.list(func() string {
		var sb strings.Builder
		for _, f := range fs {
			sb.WriteString(string(f.TableName()) + "\x06" + string(f.FieldName()) + "\x06" + string(f.Alias()) + "\x07")
		}
		return sb.String()
	})
}
func (k *retained) sets(vs []q.FieldValue) {
	k.list(func() string {
		var sb strings.Builder
		for _, v := range vs {
			sb.WriteString(string(v.TableName()) + "\x06" + string(v.FieldName()) + "\x06" + asJSON(canonAll(v.Values())) + "\x07")
		}
		return sb.String()
	})
}

type built interface {
	BuildQueryAndParams() (string, []any, error)
}

func retain(x any, r *raw, looks []func() string) (k *retained) {
	k = &retained{r: r, dig: r.digest()}
	for _, look := range looks {
		k.list(look)
	}
	defer func() { _ = recover() }()
	if v, ok := x.(built); ok {
		_, p, _ := v.BuildQueryAndParams()
		k.params(p)
	}
	if v, ok := x.(interface{ Values() []any }); ok {
		k.params(v.Values())
	}
	if v, ok := x.(interface{ FieldDefinitions() []q.FieldDefinition }); ok {
		k.fields(v.FieldDefinitions())
	}
	if v, ok := x.(interface{ SetValues() []q.FieldValue }); ok {
		k.sets(v.SetValues())
	}
	if v, ok := x.(q.WhereClause); ok {
		cs := v.Conditions()
		k.list(func() string {
			var sb strings.Builder
			for _, c := range cs {
				sb.WriteString(c.Render(3) + asJSON(canonAll(c.Values())))
			}
			return sb.String()
		})
	}
	return k
}

// changed says whether anything put aside is not what it was.
func (k *retained) changed() string {
	if k.r.digest() != k.dig {
		return "+text"
	}
	for i, read := range k.lists {
		if read() != k.want[i] {
			return "+list"
		}
	}
	return ""
}
