------------------------------ MODULE QueryAPI ------------------------------
(* The query library as a state machine over a registry of objects.          *)
(*                                                                           *)
(* objs is the sequence of everything obtained so far: conditions, fields,   *)
(* tables, builders, ...  A call is an event                                 *)
(*    [op, r: receiver index or 0, a: argument indices, s: plain arguments]  *)
(* and every call appends exactly one object.  No call ever changes an       *)
(* existing entry (Immutable below): what an object shows is a function of   *)
(* the object alone.                                                         *)
EXTENDS Conditions, Idents

VARIABLE objs

Fail(how)  == [kd |-> "fail", how |-> how]       \* the call must be refused
Skip       == [kd |-> "skip"]                    \* nothing is claimed
Failed(x)  == x.kd \in {"fail", "skip"}

------------------------------------------------------------------------------
(* values and what they are bound to *)

(* a value is [k, t, v, l]: kind, type label, text, elements                 *)
ElemText(e) == e.t \o "=" \o e.v \o ";"
Bind(v) ==
  CASE v.k = "list" -> <<"list:" \o v.t,
                         FoldLeft(LAMBDA acc, e : acc \o ElemText(e), "", v.l)>>
    [] v.k = "err"  -> <<"err", v.v>>
    [] OTHER        -> <<v.t, v.v>>       \* raw, valuer, provider
ListBind(v) == IF v.k = "list" THEN [i \in 1..Len(v.l) |-> Bind(v.l[i])] ELSE <<Bind(v)>>
LikeBind(v) == <<"string", "%" \o v.v \o "%">>

------------------------------------------------------------------------------
(* fields, tables, orderings *)

Fld(t, n, a)  == [kd |-> "fld", t |-> t, n |-> n, a |-> a]
Tbl(n, a)     == [kd |-> "tbl", n |-> n, a |-> IF a = n THEN "" ELSE a]
TblRef(t)     == IF t.a = "" THEN t.n ELSE t.a       \* name columns are qualified with
FldOf(x)      == Fld(x[1], x[2], x[3])
TblOf(x)      == Tbl(x[1], x[2])

(* text of a field in ORDER BY: the alias when it differs from the name *)
OrderText(f)  == IF f.a # "" /\ f.a # f.n THEN f.a ELSE ColText(<<f.t, f.n>>)

LeafNode(o, f, v, ps) == Leaf(<<f[1], f[2]>>, o, ps)

(* user conditions need not tell a field name *)
NameShown(s) == IF s.o \in {"cost", "exists"} THEN "" ELSE s.f[2]

(* bound parameters of a comparison *)
LeafParams(o, v) ==
  CASE o \in {"null", "istrue"}        -> <<>>
    [] o \in {"like", "ilike"}         -> <<LikeBind(v)>>
    [] o \in {"in", "between", "geo", "cost", "exists"}  -> ListBind(v)
    [] OTHER                           -> <<Bind(v)>>

------------------------------------------------------------------------------
(* statements *)

(* an amount of rows: whether it is above zero, and how it is written        *)
Amount(n) == [p |-> n > 0, x |-> ToString(n)]
NoAmount  == Amount(0)
AmountOf(s) == IF "x" \in DOMAIN s THEN [p |-> TRUE, x |-> s.x] ELSE Amount(s.n)

NewSel(mode, tbl, cs) ==
  [kd |-> "sel", mode |-> mode, t |-> tbl, joins |-> <<>>, fields |-> <<>>,
   w |-> Combine(EmptyGroup("AND"), "AND", cs), order |-> <<>>, off |-> NoAmount, lim |-> NoAmount]

NoPaging(x) == [x EXCEPT !.order = <<>>, !.off = NoAmount, !.lim = NoAmount]
ToMany(x)   == IF x.mode = "many" THEN x ELSE [NoPaging(x) EXCEPT !.mode = "many"]

NewUpd(n, w, sets) == [kd |-> "upd", t |-> n, w |-> w, sets |-> sets]
NewDel(n, w)       == [kd |-> "del", t |-> n, w |-> w]
NewIns(n, sets)    == [kd |-> "ins", t |-> n, sets |-> sets]
NewCnt(x, f)       == [kd |-> "cnt", t |-> x.t, joins |-> x.joins, w |-> x.w, f |-> f]

Join(jt, tbl) == [jt |-> jt, t |-> tbl, l |-> Fld("", "", ""), r |-> Fld("", "", "")]

NoFilter == EmptyGroup("AND")
Filter(w, cs) == Combine(w, "AND", cs)

------------------------------------------------------------------------------
(* The result of every call.  R is the receiver, A the argument objects.     *)

ApplySpecC(c, d) == [c EXCEPT !.b = IF c.e THEN @ ELSE WithField(@, d.t, d.n)]
ApplyTblC(c, t)  == [c EXCEPT !.b = IF c.e THEN @ ELSE WithTable(@, t)]
(* an ordering or a value takes the whole definition over *)
ApplySpecF(f, d) == IF f.n = d.n THEN [f EXCEPT !.t = d.t, !.a = d.a] ELSE f

CondOps == {"leaf", "not", "neg", "cjoin", "and", "or", "andf", "orf", "gand", "gor",
            "newgroup", "joinmany", "brackets", "afs", "aft"}
ResCond(e, R, A) ==
  CASE e.op = "leaf"     -> LeafCond(LeafNode(e.s.o, e.s.f, e.s.v, LeafParams(e.s.o, e.s.v)), NameShown(e.s))
    [] e.op = "not"      -> Negated(R, TRUE)
    [] e.op = "neg"      -> Negated(R, e.s.b)
    [] e.op = "cjoin"    -> JoinAs(R, e.s.j)
    [] e.op = "and"      -> AndM(R, A)
    [] e.op = "or"       -> OrM(R, A)
    [] e.op = "andf"     -> AndF(R, A)
    [] e.op = "orf"      -> OrF(R, A)
    [] e.op = "gand"     -> Combine(R, "AND", A)
    [] e.op = "gor"      -> Combine(R, "OR", A)
    [] e.op = "newgroup" -> GroupOf(e.s.j, A)
    [] e.op = "joinmany" -> IF Len(A) = 1 THEN JoinAs(A[1], e.s.j) ELSE GroupOf(e.s.j, A)
    [] e.op = "brackets" -> R
    [] e.op = "afs"      -> ApplySpecC(R, A[1])
    [] e.op = "aft"      -> ApplyTblC(R, e.s.t)

FieldOps == {"fld", "fldparse", "fldas", "fldof", "tbl", "tblparse", "tblas", "tblfld",
             "fv", "fvafs", "fvaft", "ord", "ordparse", "ordafs", "fls", "flsset"}
Fv(f, v) == [kd |-> "fv", f |-> f, v |-> v]
ResField(e, R, A) ==
  CASE e.op = "fld"      -> FldOf(e.s.f)
    [] e.op = "fldparse" -> LET q == ParseField(e.s.p)
                            IN IF q.ok THEN Fld(q.t, q.n, q.a) ELSE Fail(e.s.how)
    [] e.op = "fldas"    -> [R EXCEPT !.a = e.s.n]
    [] e.op = "fldof"    -> [R EXCEPT !.t = e.s.n]
    [] e.op = "tbl"      -> TblOf(e.s.t)
    [] e.op = "tblparse" -> LET q == ParseTable(e.s.p)
                            IN IF q.ok THEN Tbl(q.n, q.a) ELSE Fail(e.s.how)
    [] e.op = "tblas"    -> Tbl(R.n, e.s.n)
    [] e.op = "tblfld"   -> Fld(TblRef(R), e.s.n, "")
    [] e.op = "fv"       -> Fv(FldOf(e.s.f), e.s.v)
    [] e.op = "fvafs"    -> [R EXCEPT !.f = ApplySpecF(@, A[1])]
    [] e.op = "fvaft"    -> [R EXCEPT !.f.t = e.s.t]
    [] e.op = "ord"      -> [kd |-> "ord", f |-> FldOf(e.s.f), d |-> e.s.d]
    [] e.op = "ordparse" ->
         IF ~ValidName(e.s.p) \/ e.s.d \notin {"", "ASC", "DESC"} THEN Fail("panic")
         ELSE LET q == ParseField(e.s.p)
              IN IF ~q.ok THEN Skip
                 ELSE [kd |-> "ord", f |-> Fld(q.t, q.n, q.a), d |-> IF e.s.d = "" THEN "ASC" ELSE e.s.d]
    [] e.op = "ordafs"   -> [R EXCEPT !.f = ApplySpecF(@, A[1])]
    [] e.op = "fls"      -> [kd |-> "fls", fields |-> A]
    [] e.op = "flsset"   -> [kd |-> "fls", fields |-> A]

SelectOps == {"from", "where", "fields", "order", "offset", "limit", "many", "single",
              "join", "joinroot", "on", "count", "cntroot", "toupd", "todel", "toins"}
ResSelect(e, R, A) ==
  CASE e.op = "from"    -> NewSel(e.s.mode, TblOf(e.s.t), A)
    [] e.op = "where"   -> [R EXCEPT !.w = Filter(@, A)]
    [] e.op = "fields"  -> [R EXCEPT !.fields = A]
    [] e.op = "order"   -> [ToMany(R) EXCEPT !.order = @ \o A]
    [] e.op = "offset"  -> [ToMany(R) EXCEPT !.off = AmountOf(e.s)]
    [] e.op = "limit"   -> [ToMany(R) EXCEPT !.lim = AmountOf(e.s)]
    [] e.op = "many"    -> [NoPaging(R) EXCEPT !.mode = "many"]
    [] e.op = "single"  -> [NoPaging(R) EXCEPT !.mode = "single"]
    [] e.op = "join"    -> [kd |-> "inc", x |-> [R EXCEPT !.joins = Append(@, Join(e.s.jt, TblOf(e.s.t)))]]
    [] e.op = "joinroot" -> [kd |-> "inc", x |-> [NewSel("base", TblOf(e.s.l), <<>>)
                                                  EXCEPT !.joins = <<Join(e.s.jt, TblOf(e.s.t))>>]]
    [] e.op = "on"      -> [R.x EXCEPT !.joins[Len(R.x.joins)].l = A[1],
                                       !.joins[Len(R.x.joins)].r = A[2]]
    [] e.op = "count"   -> NewCnt(R, IF e.s.f = <<>> THEN Fld("", "*", "") ELSE FldOf(e.s.f))
    [] e.op = "cntroot" -> NewCnt(NewSel("base", TblOf(e.s.t), A), Fld("", "*", ""))
    [] e.op = "toupd"   -> NewUpd(R.t.n, R.w, A)
    [] e.op = "todel"   -> NewDel(R.t.n, R.w)
    [] e.op = "toins"   -> NewIns(R.t.n, A)

WriteOps == {"upd", "del", "ins", "set", "values"}
ResWrite(e, R, A) ==
  CASE e.op = "upd"    -> NewUpd(e.s.t[1], NoFilter, A)
    [] e.op = "del"    -> NewDel(e.s.t[1], Filter(NoFilter, A))
    [] e.op = "ins"    -> NewIns(e.s.t[1], A)
    [] e.op = "set"    -> [R EXCEPT !.sets = @ \o A]
    [] e.op = "values" -> [R EXCEPT !.sets = @ \o A]

OtherOps == {"whr", "wgand", "wgor", "wafs", "jc", "jnr", "jnrnew", "jnrby", "jnrfields",
             "lim", "limoff", "limlim", "vm", "valid", "uniq", "opname", "jtname"}
ResOther(e, R, A) ==
  CASE e.op = "whr"    -> [kd |-> "whr", w |-> NoFilter]
    [] e.op = "wgand"  -> [R EXCEPT !.w = Combine(@, "AND", A)]
    [] e.op = "wgor"   -> [R EXCEPT !.w = Combine(@, "OR", A)]
    [] e.op = "wafs"   -> [R EXCEPT !.w = ApplySpecC(@, A[1])]
    [] e.op = "jc"     -> [kd |-> "jc", l |-> A[1], r |-> A[2]]
    [] e.op = "jnr"    -> [kd |-> "jnr", j |-> [jt |-> e.s.jt, t |-> Tbl(R.r.t, ""), l |-> R.l, r |-> R.r]]
    [] e.op = "jnrfields" -> [kd |-> "jnr", j |-> [jt |-> e.s.jt, t |-> Tbl(A[2].t, ""), l |-> A[1], r |-> A[2]]]
    [] e.op = "jnrnew" -> [kd |-> "jnr", j |-> [jt |-> e.s.jt, t |-> A[1], l |-> A[2].l, r |-> A[2].r]]
    [] e.op = "jnrby"  -> [R EXCEPT !.j.l = A[1], !.j.r = A[2]]
    [] e.op = "lim"    -> [kd |-> "lim", off |-> NoAmount, lim |-> NoAmount]
    [] e.op = "limoff" -> [R EXCEPT !.off = AmountOf(e.s)]
    [] e.op = "limlim" -> [R EXCEPT !.lim = AmountOf(e.s)]
    [] e.op = "vm"     -> IF \E i \in 1..Len(e.s.m) : ~ValidName(e.s.m[i].p) THEN Fail("err")
                          ELSE IF \E i \in 1..Len(e.s.m) : ~ParseField(e.s.m[i].p).ok THEN Skip
                          ELSE [kd |-> "vm", m |-> [i \in 1..Len(e.s.m) |->
                                  LET q == ParseField(e.s.m[i].p)
                                  IN <<q.t, q.n, Bind(e.s.m[i].v)>>]]
    [] e.op = "valid"  -> [kd |-> "valid", ok |-> ValidName(e.s.p)]
    [] e.op = "uniq"   -> [kd |-> "uniq", l |-> Uniq(e.s.l)]
    [] e.op = "opname" -> [kd |-> "name", n |-> CASE e.s.n = 0 -> "SELECT" [] e.s.n = 1 -> "INSERT"
                                                  [] e.s.n = 2 -> "UPDATE" [] e.s.n = 3 -> "DELETE"
                                                  [] OTHER -> "?"]
    [] e.op = "jtname" -> [kd |-> "name", n |-> e.s.jt]

(* "where" is also the filter call of UPDATE and DELETE builders *)
Res(e, O) ==
  LET R == IF e.r = 0 THEN Skip ELSE O[e.r]
      A == [i \in 1..Len(e.a) |-> O[e.a[i]]]
  IN CASE e.r # 0 /\ Failed(R)                        -> Skip
       [] \E i \in 1..Len(A) : Failed(A[i])           -> Skip
       [] e.op \in CondOps                            -> ResCond(e, R, A)
       [] e.op \in FieldOps                           -> ResField(e, R, A)
       [] e.op \in SelectOps                          -> ResSelect(e, R, A)
       [] e.op \in WriteOps                           -> ResWrite(e, R, A)
       [] e.op \in OtherOps                           -> ResOther(e, R, A)

(* one call *)
Do(e) == objs' = Append(objs, Res(e, objs))

------------------------------------------------------------------------------
(* What a built statement consists of: clauses, and the parameters in the    *)
(* order of their placeholders.                                              *)

RECURSIVE ParamsOf(_)
ParamsOf(x) ==
  IF x.k = "leaf" THEN x.p
  ELSE FoldLeft(LAMBDA acc, y : acc \o ParamsOf(y), <<>>, x.c)

FilterParams(w) == IF w.e THEN <<>> ELSE ParamsOf(w.b)
PagingParams(off, lim) ==
  (IF off.p THEN <<<<"uint", off.x>>>> ELSE <<>>) \o
  (IF lim.p THEN <<<<"uint", lim.x>>>> ELSE <<>>)
SetParams(sets) == [i \in 1..Len(sets) |-> Bind(sets[i].v)]

StmtKinds == {"sel", "cnt", "upd", "del", "ins"}
Params(x) ==
  CASE x.kd = "sel" -> FilterParams(x.w) \o
                       (IF x.mode = "many" THEN PagingParams(x.off, x.lim) ELSE <<>>)
    [] x.kd = "cnt" -> FilterParams(x.w)
    [] x.kd = "upd" -> SetParams(x.sets) \o FilterParams(x.w)
    [] x.kd = "del" -> FilterParams(x.w)
    [] x.kd = "ins" -> SetParams(x.sets)

(* which builds must be refused *)
Refused(x) ==
  CASE x.kd = "upd" -> x.w.e \/ x.sets = <<>> \/ x.t = ""
    [] x.kd = "del" -> x.w.e \/ x.t = ""
    [] x.kd = "ins" -> x.sets = <<>> \/ x.t = ""
    [] OTHER        -> FALSE
=============================================================================
