----------------------------- MODULE Conditions -----------------------------
(* Condition objects and what combining them means.                          *)
(*                                                                           *)
(* [kd |-> "cond", e: no members at all, b: meaning without the own          *)
(*  negation flag, grp: made by grouping, neg: negation flag, join: how it   *)
(*  attaches to a previous condition, f: field name]                         *)
EXTENDS Logic

MkCond(b, e, grp, neg, join, f) ==
  [kd |-> "cond", b |-> b, e |-> e, grp |-> grp, neg |-> neg, join |-> join, f |-> f]

EmptyGroup(join) == MkCond(NoNode, TRUE, TRUE, FALSE, join, "")
LeafCond(node, f) == MkCond(node, FALSE, FALSE, FALSE, "AND", f)

Mean(c) == IF c.neg THEN NotN(c.b) ELSE c.b

Lower(j) == IF j = "OR" THEN "or" ELSE "and"

NonEmpty(cs) == SelectSeq(cs, LAMBDA c : ~c.e)
Means(cs)    == [i \in 1..Len(cs) |-> Mean(cs[i])]

(* A flat list: every element after the first attaches with its own join    *)
(* type; AND binds tighter than OR.                                         *)
FlatJoin(cs) ==
  LET step(acc, c) ==
        IF acc.cur # <<>> /\ c.join = "OR"
        THEN [done |-> Append(acc.done, Nary("and", acc.cur)), cur |-> <<Mean(c)>>]
        ELSE [acc EXCEPT !.cur = Append(@, Mean(c))]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], cs)
  IN Nary("or", Append(r.done, Nary("and", r.cur)))

(* NewGroup(join, members): all members joined by one operator.             *)
GroupOf(j, cs0) ==
  LET cs == NonEmpty(cs0)
  IN IF cs = <<>> THEN EmptyGroup("AND")
     ELSE MkCond(Nary(Lower(j), Means(cs)), FALSE, TRUE, FALSE, "AND", "")

(* group.And(cs) / group.Or(cs) / Where(cs)                                 *)
Combine(g, op, cs0) ==
  LET cs == NonEmpty(cs0)
  IN IF cs = <<>> THEN g
     ELSE IF g.e THEN [g EXCEPT !.b = FlatJoin(cs), !.e = FALSE, !.join = op]
     ELSE [g EXCEPT !.neg = FALSE,
                    !.b = Node(Lower(op), <<Mean(g), Nary("and", Means(cs))>>)]

AsGroup(c, j) == IF c.grp THEN c ELSE GroupOf(j, <<c>>)
JoinAs(c, j)  == [c EXCEPT !.join = j]

(* the And(c, ...) and Or(c, ...) functions                                 *)
AndF(c, cs) == IF cs = <<>> THEN JoinAs(c, "AND") ELSE Combine(AsGroup(c, "AND"), "AND", cs)
OrF(c, cs)  == IF cs = <<>> THEN JoinAs(c, "OR")
               ELSE JoinAs(Combine(AsGroup(c, "OR"), "OR", cs), "OR")
(* the And and Or methods                                                   *)
AndM(c, cs) == IF c.grp THEN Combine(c, "AND", cs) ELSE AndF(c, cs)
OrM(c, cs)  == IF c.grp THEN Combine(c, "OR", cs)  ELSE OrF(c, cs)

Negated(c, flag) == [c EXCEPT !.neg = flag]
=============================================================================
