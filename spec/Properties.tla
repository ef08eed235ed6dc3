----------------------------- MODULE Properties -----------------------------
(* Which differences between the specification and an observed call concern  *)
(* which property of properties.jsonl.                                       *)
(*                                                                           *)
(* A difference is "<kind of object>.<aspect>" (Conform.tla),                *)
(* "<outcome>.<call>" when a call was refused or accepted against the        *)
(* specification, or one of the trace-wide ones:                             *)
(*   immutable   something obtained earlier shows something else now         *)
(*   repeat      rendering a second time shows something else                *)
(*   valuetext   SQL text changed with the values                            *)
(*   leak        a bound value stands in the SQL text                        *)
(*   twin        another spelling of the same calls shows something else     *)
(*   alone       the same calls made with nothing else running show          *)
(*               something else                                              *)
(*   race        the race detector saw a data race                           *)
(*   crash       the process died or a call never came back                  *)
EXTENDS QueryAPI

Of(kds, as) == UNION {{k \o "." \o a : a \in as} : k \in kds}
Ended(ops)  == UNION {{s \o "." \o o : s \in {"panic", "err", "ok", "accepted", "foreign"}} : o \in ops}

Panics(ops) == {"panic." \o o : o \in ops}

Selects   == {"sel", "cnt"}
Filtered  == {"sel", "cnt", "upd", "del"}
Statements == {"sel", "cnt", "upd", "del", "ins"}
CondKinds == {"cond", "whr"}
WithFilter == CondKinds \cup Filtered

Meaning   == {"mean", "lost", "leaf"}

SelAspects == {"syntax", "num", "nprm", "err", "fields", "from", "joins", "mean", "lost", "leaf", "order", "off", "lim",
               "plast", "raw", "alone", "shift", "values", "tname", "op", "fdefs", "flist", "rfrom"}
CntAspects == {"syntax", "num", "nprm", "err", "field", "from", "joins", "mean", "lost", "leaf", "order", "paging", "rfrom"}
CondAspects == {"syntax", "mean", "lost", "leaf", "num", "raw", "shift", "nprm", "join", "neg", "fname", "rjoin", "conds", "clist"}
WriteAspects == {"tname", "op", "rfrom", "svals", "unguarded", "refusal", "err", "syntax", "num", "nprm", "table", "mean",
                 "lost", "leaf", "cols", "pairs", "after"}

AllOps == CondOps \cup FieldOps \cup SelectOps \cup WriteOps \cup OtherOps
Rebinding == {"afs", "aft", "wafs", "fvafs", "fvaft", "ordafs"}
Comparing == {"leaf", "not", "neg", "where", "fv"}
Spelled == {"from", "leaf", "fld", "tbl", "tblfld", "fldof", "fldas", "fv", "ord", "join", "joinroot", "jnr", "jnrnew", "jnrfields",
            "upd", "del", "ins", "many", "single", "count", "cntroot", "cjoin", "not", "where", "order", "set", "values", "lim",
            "limoff", "limlim", "offset", "limit", "opname", "jtname"}
SelPages == {"order", "offset", "limit", "many", "single"}
Converting == {"count", "cntroot", "toupd", "todel", "toins", "many", "single"}

Always == {"crash"}

(* what concerns a property whatever the call was *)
About(p) ==
  CASE p = "C01" -> {"immutable", "repeat"}
    [] p = "C02" -> {"race", "alone", "immutable", "repeat"}
    [] p = "C03" -> Of(WithFilter \cup Statements \cup {"lim"},
                       {"num", "nprm", "leaf", "syntax", "raw", "pairs", "off", "lim", "plast", "after"})
                    \cup Panics(AllOps)      \* nothing rendered at all
    [] p = "C04" -> Of(CondKinds \cup {"sel", "lim"}, {"raw", "shift", "alone", "values", "num", "nprm", "syntax"})
                    \cup Of({"sel"}, {"rfrom", "flist"})
    [] p = "C05" -> Of(WithFilter, {"mean", "leaf", "lost", "syntax"})
                    \cup Of(CondKinds, {"join", "neg", "rjoin", "conds", "clist", "nprm"})
                    \cup Ended({"leaf", "not", "neg", "cjoin", "and", "or", "andf", "orf", "gand", "gor", "newgroup",
                                "joinmany", "brackets", "where", "whr", "wgand", "wgor"})
                    \cup Of(Filtered, {"err"})
    [] p = "C06" -> Of(CondKinds, {"leaf", "mean", "lost", "syntax", "nprm", "neg", "fname"})
                    \cup Of(Filtered, {"leaf", "mean", "lost", "syntax"})
                    \cup Ended({"leaf", "not", "neg"})
    [] p = "C07" -> Of({"upd", "del", "ins"}, WriteAspects) \cup Of({"whr"}, {"conds"})
                    \cup Ended(WriteOps \cup {"where", "toupd", "todel", "toins", "newgroup"})
    [] p = "C08" -> Of({"sel"}, SelAspects \ {"raw", "alone", "shift"})
                    \cup Ended({"from", "where", "fields", "order", "offset", "limit", "many", "single", "join", "joinroot", "on"})
    [] p = "C09" -> Of({"cnt"}, CntAspects) \cup Ended({"count", "cntroot"})
    [] p = "C10" -> Of({"ins"}, WriteAspects) \cup Of({"fv"}, {"vals", "ref"}) \cup Ended({"ins", "values", "toins", "fv"})
    [] p = "C11" -> Of({"upd", "del"}, WriteAspects) \cup Of({"fv"}, {"vals", "ref"})
                    \cup Ended({"upd", "del", "set", "where", "toupd", "todel", "fv"})
    [] p = "C12" -> Of({"upd", "del", "ins"}, WriteAspects) \cup Of({"cnt"}, CntAspects) \cup Ended(Converting)
    [] p = "C13" -> Of({"fld"}, {"ref", "alias", "spec", "text", "tspec"}) \cup Of({"tbl"}, {"name", "alias", "from"})
                    \cup Of({"fls"}, {"len", "fdefs", "flist"}) \cup Of({"jc"}, {"on"}) \cup Of({"jnr"}, {"syntax", "join", "cond"})
                    \cup Of({"ord"}, {"ref", "text"})
                    \cup Of({"sel"}, {"fields", "fdefs", "flist", "from", "rfrom", "joins", "order", "tname", "syntax", "leaf"})
                    \cup Of({"cnt"}, {"field", "from", "joins", "rfrom", "syntax", "leaf"})
                    \cup Of({"upd", "del", "ins"}, {"tname", "table", "rfrom", "cols", "svals", "syntax", "leaf"})
                    \cup Of(CondKinds, {"leaf", "fname", "syntax"}) \cup Of({"fv"}, {"ref"})
                    \cup Ended({"fldparse", "tblparse", "ordparse", "fld", "fldas", "fldof", "tbl", "tblas", "tblfld", "fls", "flsset",
                                "from", "fields", "ord", "leaf", "fv", "count", "cntroot", "upd", "del", "ins"})
    [] p = "C14" -> Ended(Rebinding)
    [] p = "C15" -> Of(WithFilter \cup {"ins"}, {"leaf", "nprm", "pairs", "num"}) \cup Of({"fv"}, {"vals"}) \cup Of({"vm"}, {"entries"})
                    \cup Of(Statements, {"err"}) \cup Ended({"leaf", "fv", "vm", "upd", "ins", "set", "values"})
    [] p = "C16" -> {"valuetext", "leak"}
    [] p = "C17" -> {"valid.refused", "valid.accepted", "uniq.list"} \cup Of({"vm"}, {"entries"}) \cup Of({"ord"}, {"dir", "ref", "text"})
                    \cup Ended({"valid", "vm", "uniq", "ordparse", "ord"})
    [] p = "C18" -> Of({"sel"}, {"joins", "rfrom", "syntax", "err"}) \cup Of({"cnt"}, {"joins", "rfrom", "syntax"})
                    \cup Of({"jc"}, {"on"}) \cup Of({"jnr"}, {"join", "type", "cond", "syntax"}) \cup {"name.text"}
                    \cup Ended({"join", "joinroot", "on", "jc", "jnr", "jnrnew", "jnrby", "jnrfields", "jtname"})
    [] p = "C19" -> {"twin"}
    [] p = "C20" -> Of({"sel", "lim"}, {"order", "off", "lim", "plast", "syntax", "nprm", "num", "raw", "shift", "alone"})
                    \cup Of({"cnt"}, {"order", "paging"}) \cup Of({"ord"}, {"dir", "text", "ref"})
                    \cup Ended({"ord", "ordparse", "order", "offset", "limit", "lim", "limoff", "limlim", "many", "single"})
    [] p = "C21" -> {}
    [] OTHER     -> {}

(* what concerns a property when it shows right at one of its calls *)
AtOps(p) ==
  CASE p = "C01" -> {}
    [] p = "C08" -> {}
    [] p = "C12" -> Converting
    [] p = "C14" -> Rebinding
    [] p = "C18" -> {"join", "joinroot", "on", "jc", "jnr", "jnrnew", "jnrby", "jnrfields"}
    [] p = "C19" -> Spelled
    [] OTHER     -> {}
Everything == Of(CondKinds, CondAspects) \cup Of({"sel"}, SelAspects) \cup Of({"cnt"}, CntAspects)
              \cup Of({"upd", "del", "ins"}, WriteAspects)
              \cup Of({"fld"}, {"ref", "alias", "spec", "text", "tspec"}) \cup Of({"tbl"}, {"name", "alias", "from"})
              \cup Of({"ord"}, {"ref", "dir", "text"}) \cup Of({"fv"}, {"ref", "vals"}) \cup Of({"fls"}, {"len", "fdefs", "flist"})
              \cup Of({"jc"}, {"on"}) \cup Of({"jnr"}, {"syntax", "join", "type", "cond"}) \cup Of({"lim"}, CondAspects \cup {"off", "lim"})
              \cup {"name.text"} \cup Ended(AllOps)

(* objects with a user-defined condition in their filter *)
CustomOps == {"between", "istrue", "geo", "cost", "exists"}
RECURSIVE HasCustom(_)
HasCustom(n) == IF n.k = "leaf" THEN n.o \in CustomOps ELSE \E i \in 1..Len(n.c) : HasCustom(n.c[i])
UsesCustom(o) ==
  CASE o.kd = "cond" -> ~o.e /\ HasCustom(o.b)
    [] o.kd \in {"whr", "sel", "cnt", "upd", "del"} -> ~o.w.e /\ HasCustom(o.w.b)
    [] OTHER -> FALSE
AboutCustom == Of(WithFilter, CondAspects \cup SelAspects \cup CntAspects \cup WriteAspects) \cup Ended(AllOps)

(* What an object was made from: every call belongs to families, and an      *)
(* object made by or from a call of a family carries its name.               *)
Families(e) == (IF e.op \in Rebinding THEN {"rebind"} ELSE {})
               \cup (IF e.op \in Converting THEN {"convert"} ELSE {})
Inherited(e, anc) ==
  Families(e) \cup (IF e.r = 0 THEN {} ELSE anc[e.r]) \cup UNION {anc[e.a[i]] : i \in 1..Len(e.a)}

AboutFamily(p) ==
  CASE p = "C12" -> <<"convert", Of(Statements, SelAspects \cup CntAspects \cup WriteAspects)>>
    [] p = "C14" -> <<"rebind", Everything>>
    [] OTHER     -> <<"none", {}>>

ConcernsStatic(p, m, op) ==
  \/ m \in Always
  \/ m \in About(p)
  \/ (op \in AtOps(p) /\ m \in Everything)

(* f: families of the object *)
Concerns(p, m, e, o, f) ==
  \/ p = "ALL"
  \/ ConcernsStatic(p, m, e.op)
  \/ (AboutFamily(p)[1] \in f /\ m \in AboutFamily(p)[2])
  \/ (p = "C21" /\ m \in AboutCustom /\ (UsesCustom(o) \/ (e.op = "leaf" /\ e.s.o \in CustomOps)))
=============================================================================
