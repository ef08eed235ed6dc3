------------------------------- MODULE Conform -------------------------------
(* Compares what the implementation showed for an object with what the       *)
(* specification says it must show.  Mis(e, x, o) is the set of differing     *)
(* aspects, as strings "<kind>.<aspect>"; {} when the observation is allowed. *)
(*                                                                           *)
(* Observations are projections of real SQL text: the harness parses the     *)
(* text and reports clauses, expression trees with placeholder numbers, the  *)
(* parameters, and token skeletons (text with every placeholder replaced by  *)
(* "?").  Nothing here depends on spacing, brackets, operand order or any    *)
(* other way to write the same statement.                                    *)
EXTENDS QueryAPI

If(b, a) == IF b THEN {a} ELSE {}
Tag(kd, S) == {kd \o "." \o a : a \in S}

Missing == <<"?", "missing">>
RECURSIVE Resolve(_, _)
Resolve(x, prm) ==
  IF x.k = "leaf"
  THEN [x EXCEPT !.p = [i \in 1..Len(x.p) |->
          IF x.p[i] \in 1..Len(prm) THEN prm[x.p[i]] ELSE Missing]]
  ELSE [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Resolve(x.c[i], prm)]]

(* each of 1..n exactly once *)
Numbered(ph, n) == Len(ph) = n /\ {ph[i] : i \in 1..Len(ph)} = 1..n
InOrder(ph)     == \A i \in 1..Len(ph) : ph[i] = i
Shifted(ph, k)  == [i \in 1..Len(ph) |-> ph[i] + k]

(* ------- WHERE expression against a condition object ------- *)
MisWhere(w, ast, prm) ==
  IF w.e THEN If(ast.k # "none", "mean")
  ELSE IF ast.k = "none" THEN {"mean", "lost"}
  ELSE LET r == Resolve(ast, prm)
           bag == SameBag(Leaves(r), Leaves(w.b))
       IN If(~bag, "leaf") \cup If(~Equiv(r, Mean(w)), "mean")

(* -- a clause that can be rendered alone: $-numbered at 0 and 7, and with ? -- *)
MisAlone(o) ==
  If(~Numbered(o.ph, Len(o.prm)), "num")
  \cup If(o.skq # o.sk \/ o.nq # Len(o.prm) \/ ~InOrder(o.ph), "raw")
  \cup If(o.sk7 # o.sk \/ o.ph7 # Shifted(o.ph, o.k7), "shift")

MisCond(x, o) ==
  IF o.bad # "" THEN {"syntax"}
  ELSE MisWhere(x, o.ast, o.prm) \cup MisAlone(o)
       \cup If(Len(o.prm) # Len(FilterParams(x)), "nprm")
       \cup If(o.join # x.join, "join")
       \cup If(~x.e /\ o.neg # x.neg, "neg")
       \cup If(~x.e /\ o.rneg # (IF x.neg THEN "NOT" ELSE ""), "neg")
       \cup If(o.fn # x.f, "fname")
       \cup If(o.rjf # "" \/ o.rj # x.join, "rjoin")

(* the conditions a where clause lists, each attached by its own join type *)
Listed(cs) == [i \in 1..Len(cs) |-> MkCond(Resolve(cs[i].ast, cs[i].prm), FALSE, FALSE, FALSE, cs[i].join, "")]

MisWhr(x, o) ==
  IF o.bad # "" THEN {"syntax"}
  ELSE MisWhere(x.w, o.ast, o.prm) \cup MisAlone(o)
       \cup If(Len(o.prm) # Len(FilterParams(x.w)), "nprm")
       \cup If((o.nc = 0) # x.w.e, "conds")
       \cup If(~x.w.e /\ o.nc > 0 /\ ~Equiv(FlatJoin(Listed(o.cs)), Mean(x.w)), "clist")

------------------------------------------------------------------------------
\* an alias equal to the name is written only where it hides a table
Field2(f)   == <<ColText(<<f.t, f.n>>), IF f.a = f.n /\ f.t = "" THEN "" ELSE f.a>>
Fields2(fs) == IF fs = <<>> THEN <<<<"*", "">>>> ELSE [i \in 1..Len(fs) |-> Field2(fs[i])]
Field3(f)   == <<f.t, f.n, f.a>>
Table2(t)   == <<t.n, t.a>>
Join6(j)    == [jt |-> j.jt, t |-> Table2(j.t),
                on |-> {ColText(<<j.l.t, j.l.n>>), ColText(<<j.r.t, j.r.n>>)}]
Both(on)    == IF Len(on) = 2 THEN {on[1], on[2]} ELSE {"not two"}
ObsJoin(j)  == [jt |-> j.jt, t |-> j.t, on |-> Both(j.on)]
Joins6(js)  == [i \in 1..Len(js) |-> Join6(js[i])]
ObsJoins(js) == [i \in 1..Len(js) |-> ObsJoin(js[i])]
Order2(os)  == [i \in 1..Len(os) |-> <<OrderText(os[i].f), os[i].d>>]

(* offset / limit: absent, or a number written out or bound; integer types are all the same *)
PagingOk(want, got, prm) ==
  IF ~want.p THEN got.i = 0 /\ got.x = ""
  ELSE IF got.i = 0 THEN got.x = want.x
  ELSE /\ got.x = "" /\ got.i \in 1..Len(prm) /\ prm[got.i][2] = want.x

(* numbers of the placeholders of paging come after those of the filter *)
PagingLast(o) ==
  LET nums == {o.s.off.i, o.s.lim.i} \ {0}
  IN \A n \in nums : n > Len(o.prm) - Cardinality(nums)

MisBuilt(x, o) ==
  If(~Numbered(o.ph, Len(o.prm)), "num") \cup If(Len(o.prm) # Len(Params(x)), "nprm")

MisSel(x, o) ==
  IF o.bad # "" THEN {"syntax"}
  ELSE MisBuilt(x, o)
   \cup If(o.berr, "err")
   \cup If(o.s.f # Fields2(x.fields), "fields")
   \cup If(o.s.from # Table2(x.t), "from")
   \cup If(ObsJoins(o.s.j) # Joins6(x.joins), "joins")
   \cup MisWhere(x.w, o.s.w, o.prm)
   \cup If(o.s.ord # (IF x.mode = "many" THEN Order2(x.order) ELSE <<>>), "order")
   \cup If(~PagingOk(IF x.mode = "many" THEN x.off ELSE NoAmount, o.s.off, o.prm), "off")
   \cup If(~PagingOk(CASE x.mode = "many" -> x.lim [] x.mode = "single" -> Amount(1) [] OTHER -> NoAmount,
                     o.s.lim, o.prm), "lim")
   \cup If(~PagingLast(o), "plast")
   \cup If(o.q.sk # o.sk \/ o.q.n # Len(o.prm) \/ ~InOrder(o.r0.ph), "raw")
   \cup If(o.r0.sk # o.sk \/ o.r0.ph # o.ph, "alone")
   \cup If(o.r7.sk # o.sk \/ o.r7.ph # Shifted(o.r0.ph, o.k7), "shift")
   \cup If(o.v # o.prm, "values")
   \cup If(o.tn # x.t.n, "tname")
   \cup If(o.opn # "SELECT", "op")
   \cup If(o.fd # [i \in 1..Len(x.fields) |-> Field3(x.fields[i])], "fdefs")
   \cup If(o.fl # Fields2(x.fields), "flist")
   \cup If(o.rf.from # Table2(x.t) \/ ObsJoins(o.rf.j) # Joins6(x.joins), "rfrom")

MisCnt(x, o) ==
  IF o.bad # "" THEN {"syntax"}
  ELSE MisBuilt(x, o)
   \cup If(o.berr, "err")
   \cup If(o.s.cf # ColText(<<x.f.t, x.f.n>>), "field")
   \cup If(o.s.from # Table2(x.t), "from")
   \cup If(ObsJoins(o.s.j) # Joins6(x.joins), "joins")
   \cup MisWhere(x.w, o.s.w, o.prm)
   \cup If(o.s.ord # <<>>, "order")
   \cup If(o.s.off.i # 0 \/ o.s.off.x # "" \/ o.s.lim.i # 0 \/ o.s.lim.x # "", "paging")
   \cup If(o.rf.from # Table2(x.t) \/ ObsJoins(o.rf.j) # Joins6(x.joins), "rfrom")

(* assignments and columns: <<column, number of its placeholder>> *)
SetsOk(sets, got, prm) ==
  /\ Len(got) = Len(sets)
  /\ \A i \in 1..Len(sets) :
       /\ got[i].c = sets[i].f.n
       /\ got[i].i \in 1..Len(prm)
       /\ prm[got[i].i] = Bind(sets[i].v)
ColumnsOk(sets, got) == Len(got) = Len(sets) /\ \A i \in 1..Len(sets) : got[i].c = sets[i].f.n

RefusedProperly(o) == o.berr /\ o.bq /\ o.bempty
MisGuard(x, o) == If(~o.berr, "unguarded") \cup If(o.berr /\ ~RefusedProperly(o), "refusal")

SetValuesOk(sets, got, vals) ==
  /\ Len(got) = Len(sets)
  /\ \A i \in 1..Len(sets) : /\ got[i] = <<sets[i].f.t, sets[i].f.n>>
                             /\ sets[i].v.k # "list" => vals[i] = Bind(sets[i].v)

MisWrite(x, o, opn) ==
  If(o.tn # x.t, "tname") \cup If(o.opn # opn, "op") \cup If(o.rf # x.t, "rfrom")
  \cup (IF "sets" \in DOMAIN x THEN If(~SetValuesOk(x.sets, o.sv, o.svv), "svals") ELSE {})
  \cup (IF Refused(x) THEN MisGuard(x, o)
        ELSE IF o.berr THEN {"err"}
        ELSE IF o.bad # "" THEN {"syntax"}
        ELSE MisBuilt(x, o)
             \cup If(o.s.t # x.t, "table")
             \cup (IF "w" \in DOMAIN x THEN MisWhere(x.w, o.s.w, o.prm) ELSE {})
             \cup (IF "sets" \in DOMAIN x
                   THEN If(~ColumnsOk(x.sets, o.s.sets), "cols")
                        \cup If(~SetsOk(x.sets, o.s.sets, o.prm), "pairs")
                   ELSE {})
             \cup (IF x.kd = "upd" THEN If(\E i \in 1..Len(o.s.sets) : o.s.sets[i].i > Len(o.s.sets), "after")
                   ELSE {}))

------------------------------------------------------------------------------
MisFld(x, o) ==
  If(<<o.t, o.n>> # <<x.t, x.n>>, "ref") \cup If(o.a # x.a, "alias")
  \cup If(o.spec # Field2(x), "spec")
  \cup If(o.txt # OrderText(x), "text")
  \cup If(x.t # "" /\ (o.tspec # x.t \o "." \o x.n \/ o.tfn # x.t \o "." \o x.n), "tspec")

MisTbl(x, o) ==
  If(o.n # x.n, "name") \cup If(o.a # x.a, "alias") \cup If(o.from # Table2(x), "from")

MisOrd(x, o) ==
  If(<<o.t, o.n, o.a>> # Field3(x.f), "ref") \cup If(o.d # x.d, "dir")
  \cup If(o.txt # <<OrderText(x.f), x.d>>, "text")

MisFv(x, o) ==
  If(<<o.t, o.n, o.a>> # Field3(x.f) \/ o.spec # <<ColText(<<x.f.t, x.f.n>>), "">>, "ref")
  \cup If(x.v.k # "list" /\ o.vals # <<Bind(x.v)>>, "vals")

MisFls(x, o) ==
  If(o.len # Len(x.fields), "len")
  \cup If(o.fd # [i \in 1..Len(x.fields) |-> Field3(x.fields[i])], "fdefs")
  \cup If(o.fl # Fields2(x.fields), "flist")

MisLim(x, o) ==
  IF o.bad # "" THEN {"syntax"}
  ELSE MisAlone(o)
   \cup If(Len(o.prm) # Len(PagingParams(x.off, x.lim)), "nprm")
   \cup If(~PagingOk(x.off, o.s.off, o.prm), "off")
   \cup If(~PagingOk(x.lim, o.s.lim, o.prm), "lim")

MisJc(x, o)  == If(Both(o.on) # {ColText(<<x.l.t, x.l.n>>), ColText(<<x.r.t, x.r.n>>)}, "on")
MisJnr(x, o) == IF o.bad # "" THEN {"syntax"}
                ELSE If(ObsJoin(o.j) # Join6(x.j), "join")
                     \cup If(o.jt # x.j.jt, "type")
                     \cup If(Both(o.on) # Join6(x.j).on, "cond")

MisVm(x, o) ==
  If(Len(o.m) # Len(x.m) \/ {o.m[i] : i \in 1..Len(o.m)} # {x.m[i] : i \in 1..Len(x.m)}, "entries")

(* values that must not become NULL silently may also be reported as errors *)
HasErrValue(e) == e.op \in {"leaf", "fv"} /\ e.s.v.k = "err"

Mis(e, x, o) ==
  IF Failed(x) /\ x.kd = "skip" THEN {}
  ELSE IF o.st = "skip" THEN {}
  ELSE IF x.kd = "fail" THEN IF o.st # x.how THEN {"accepted." \o e.op} ELSE If(x.how = "err" /\ ~o.own, "foreign." \o e.op)
  ELSE IF o.st # "ok" THEN {o.st \o "." \o e.op}
  ELSE CASE x.kd = "cond"  -> Tag("cond", MisCond(x, o))
         [] x.kd = "whr"   -> Tag("whr", MisWhr(x, o))
         [] x.kd = "sel"   -> Tag("sel", MisSel(x, o))
         [] x.kd = "cnt"   -> Tag("cnt", MisCnt(x, o))
         [] x.kd = "upd"   -> Tag("upd", MisWrite(x, o, "UPDATE"))
         [] x.kd = "del"   -> Tag("del", MisWrite(x, o, "DELETE"))
         [] x.kd = "ins"   -> Tag("ins", MisWrite(x, o, "INSERT"))
         [] x.kd = "fld"   -> Tag("fld", MisFld(x, o))
         [] x.kd = "tbl"   -> Tag("tbl", MisTbl(x, o))
         [] x.kd = "ord"   -> Tag("ord", MisOrd(x, o))
         [] x.kd = "fv"    -> Tag("fv", MisFv(x, o))
         [] x.kd = "fls"   -> Tag("fls", MisFls(x, o))
         [] x.kd = "lim"   -> Tag("lim", MisLim(x, o))
         [] x.kd = "jc"    -> Tag("jc", MisJc(x, o))
         [] x.kd = "jnr"   -> Tag("jnr", MisJnr(x, o))
         [] x.kd = "vm"    -> Tag("vm", MisVm(x, o))
         [] x.kd = "valid" -> If(o.ok # x.ok, IF x.ok THEN "valid.refused" ELSE "valid.accepted") \cup If(~o.ok /\ ~o.own, "foreign.valid")
         [] x.kd = "uniq"  -> If(o.l # x.l, "uniq.list")
         [] x.kd = "name"  -> If(x.n # "?" /\ o.n # x.n, "name.text")
         [] OTHER          -> {}
=============================================================================
