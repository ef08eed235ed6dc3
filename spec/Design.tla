------------------------------- MODULE Design -------------------------------
(* How the library composes conditions: lists of members, each with its own  *)
(* join type and negation, rewritten ("unpacked", "enclosed") whenever a      *)
(* member is added, and finally written out left to right.                   *)
(*                                                                           *)
(* Condition objects of Conditions.tla say what a combination MEANS; this    *)
(* module says how a combination is KEPT and WRITTEN.  RefinesMeaning (in     *)
(* Gen.tla) checks with TLC that what is written, read back with the          *)
(* precedence of SQL, has that meaning, for every generated combination.      *)
(*                                                                           *)
(* A kept condition is [g: is a group, els: members, br: brackets wanted,    *)
(* join, neg, node: comparison of a leaf].                                   *)
EXTENDS Conditions

KLeaf(node)             == [g |-> FALSE, els |-> <<>>, br |-> FALSE, join |-> "AND", neg |-> FALSE, node |-> node]
KGroup(els, join, neg, br) == [g |-> TRUE, els |-> els, br |-> br, join |-> join, neg |-> neg, node |-> NoNode]
KEmpty                  == KGroup(<<>>, "AND", FALSE, FALSE)

KJoin(c, j)   == [c EXCEPT !.join = j]
KBr(c)        == [c EXCEPT !.br = TRUE]
KSetAll(j, cs) == [i \in 1..Len(cs) |-> KJoin(cs[i], j)]
KSkip(cs)     == SelectSeq(cs, LAMBDA c : ~(c.g /\ c.els = <<>>))

(* the join type of the first member does not count *)
HasAll(g, j) == \A i \in 2..Len(g.els) : g.els[i].join = j
HasOne(g, j) == \E i \in 2..Len(g.els) : g.els[i].join = j

KNewGroup(j, cs) == KGroup(KSetAll(j, KSkip(cs)), "AND", FALSE, FALSE)

(* adding an unnegated group as one member: unpack it or enclose it *)
KAddGroup(g, other) ==
  LET n    == Len(g.els)
      op   == other.join
      o    == IF other.els = <<>> THEN other
              ELSE [other EXCEPT !.els[1] = KJoin(@, op)]
      flat == [g EXCEPT !.els = @ \o o.els]
      keep == [g EXCEPT !.els = Append(@, KJoin(KBr(o), op))]
      keepAs == [g EXCEPT !.els = Append(@, KBr(o))]
      head == [g EXCEPT !.els = <<KBr(g)>> \o o.els]
  IN CASE n = 0                                                     -> [g EXCEPT !.els = o.els, !.join = op]
       [] n = 1 /\ op = "AND" /\ HasAll(o, "AND")                   -> flat
       [] n = 1 /\ op = "OR" /\ HasAll(o, "OR")                     -> flat
       [] n = 1 /\ ~(op = "AND" /\ HasAll(o, "AND")) /\ ~(op = "OR" /\ HasAll(o, "OR")) -> keep
       [] n > 1 -> IF HasAll(g, "OR") /\ op = "OR" /\ HasAll(o, "OR") THEN flat
              ELSE IF HasAll(g, "OR") /\ op = "OR" /\ HasOne(o, "AND") THEN keepAs
              ELSE IF HasOne(g, "OR") /\ op = "AND" /\ HasOne(o, "AND") /\ HasAll(o, "AND") THEN head
              ELSE IF HasAll(g, "AND") /\ op = "AND" /\ HasAll(o, "AND") THEN flat
              ELSE IF HasAll(g, "AND") /\ op = "AND" /\ HasOne(o, "OR") THEN keepAs
              ELSE IF HasOne(g, "AND") /\ op = "OR" /\ HasAll(o, "OR") THEN head
              ELSE [g EXCEPT !.els = <<KBr(g), KJoin(KBr(o), op)>>]

KAddOne(g, c) ==
  LET n == Len(g.els)
  IN IF c.g /\ ~c.neg THEN KAddGroup(g, c)
     ELSE IF n = 0 THEN [g EXCEPT !.els = <<c>>, !.join = c.join]
     ELSE IF n = 1 \/ HasAll(g, c.join) THEN [g EXCEPT !.els = Append(@, c)]
     ELSE [g EXCEPT !.els = <<KBr(g), c>>]

KAdd(g0, op, cs0) ==
  LET cs == KSkip(cs0)
      g  == IF g0.neg /\ g0.els # <<>> /\ cs # <<>> THEN KGroup(<<g0>>, g0.join, FALSE, FALSE) ELSE g0
  IN IF cs = <<>> THEN g0
     ELSE IF g.els = <<>> THEN [g EXCEPT !.els = cs, !.join = op]
     ELSE IF Len(cs) = 1 THEN KAddOne(g, KJoin(cs[1], op))
     ELSE IF HasOne(g, "OR") /\ op = "AND" THEN [g EXCEPT !.els = <<KBr(g)>> \o KSetAll(op, cs)]
     ELSE IF HasOne(g, "AND") /\ op = "OR" THEN [g EXCEPT !.els = Append(@, KJoin(KBr(KNewGroup("AND", cs)), op))]
     ELSE [g EXCEPT !.els = <<KBr(g), KJoin(KBr(KNewGroup("AND", cs)), op)>>]

KAsGroup(c, j) == IF c.g THEN c ELSE KNewGroup(j, <<c>>)
KAndF(c, cs) == IF cs = <<>> THEN KJoin(c, "AND") ELSE KAdd(KAsGroup(c, "AND"), "AND", cs)
KOrF(c, cs)  == IF cs = <<>> THEN KJoin(c, "OR") ELSE KJoin(KAdd(KAsGroup(c, "OR"), "OR", cs), "OR")

RECURSIVE KRebind(_, _, _, _)
KRebind(c, spec, t, n) ==      \* spec: only fields named n, otherwise all of them
  IF c.g THEN [c EXCEPT !.els = [i \in 1..Len(c.els) |-> KRebind(c.els[i], spec, t, n)]]
  ELSE [c EXCEPT !.node = IF spec THEN WithField(@, t, n) ELSE WithTable(@, t)]

------------------------------------------------------------------------------
(* writing: tokens, with numbered placeholders continuing after k parameters *)
Tk(k)     == [k |-> k, node |-> NoNode, ns |-> <<>>]

RECURSIVE KCount(_)
KCount(c) == IF c.g THEN FoldLeft(LAMBDA acc, e : acc + KCount(e), 0, c.els) ELSE Len(c.node.p)

RECURSIVE KValues(_)
KValues(c) == IF c.g THEN FoldLeft(LAMBDA acc, e : acc \o KValues(e), <<>>, c.els) ELSE c.node.p

RECURSIVE KWrite(_, _)
KWrite(c, k) ==
  IF ~c.g
  THEN (IF c.neg THEN <<Tk("NOT")>> ELSE <<>>)
       \o <<[k |-> "atom", node |-> c.node, ns |-> [i \in 1..Len(c.node.p) |-> k + i]]>>
  ELSE IF c.els = <<>> THEN <<>>
  ELSE LET enclosed(e) == IF e.g /\ (Len(c.els) > 1 \/ c.neg) THEN KBr(e) ELSE e
           step(acc, e) ==
             [n |-> acc.n + KCount(e),
              ts |-> acc.ts \o (IF acc.ts = <<>> THEN <<>> ELSE <<Tk(e.join)>>) \o KWrite(enclosed(e), acc.n)]
           body == FoldLeft(step, [n |-> k, ts |-> <<>>], c.els).ts
           br   == c.br \/ (c.neg /\ Len(c.els) > 1)
       IN (IF c.neg THEN <<Tk("NOT")>> ELSE <<>>)
          \o (IF br THEN <<Tk("(")>> \o body \o <<Tk(")")>> ELSE body)

(* reading: OR of ANDs of optionally negated, bracketed expressions *)
Kind(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "end"
Wrong == Node("wrong", <<>>)

RECURSIVE ReadOr(_, _), ReadAnd(_, _), ReadNot(_, _), MoreOr(_, _, _), MoreAnd(_, _, _)
ReadNot(ts, i) ==
  CASE Kind(ts, i) = "NOT"  -> LET r == ReadNot(ts, i + 1) IN <<NotN(r[1]), r[2]>>
    [] Kind(ts, i) = "("    -> LET r == ReadOr(ts, i + 1)
                               IN IF Kind(ts, r[2]) = ")" THEN <<r[1], r[2] + 1>> ELSE <<Wrong, Len(ts) + 2>>
    [] Kind(ts, i) = "atom" -> <<[ts[i].node EXCEPT !.p = ts[i].ns], i + 1>>
    [] OTHER                -> <<Wrong, Len(ts) + 2>>
MoreAnd(ts, i, c) == IF Kind(ts, i) = "AND" THEN LET r == ReadNot(ts, i + 1) IN MoreAnd(ts, r[2], Append(c, r[1]))
                     ELSE <<Nary("and", c), i>>
ReadAnd(ts, i) == LET r == ReadNot(ts, i) IN MoreAnd(ts, r[2], <<r[1]>>)
MoreOr(ts, i, c) == IF Kind(ts, i) = "OR" THEN LET r == ReadAnd(ts, i + 1) IN MoreOr(ts, r[2], Append(c, r[1]))
                    ELSE <<Nary("or", c), i>>
ReadOr(ts, i) == LET r == ReadAnd(ts, i) IN MoreOr(ts, r[2], <<r[1]>>)
Read(ts) == LET r == ReadOr(ts, 1) IN IF r[2] = Len(ts) + 1 THEN r[1] ELSE Wrong

Numbers(ts) == FoldLeft(LAMBDA acc, t : acc \o t.ns, <<>>, ts)

(* parameters in place of their numbers *)
RECURSIVE Fill(_, _)
Fill(y, prm) ==
  IF y.k = "leaf" THEN [y EXCEPT !.p = [i \in 1..Len(y.p) |-> prm[y.p[i]]]]
  ELSE [y EXCEPT !.c = [i \in 1..Len(y.c) |-> Fill(y.c[i], prm)]]

RECURSIVE HasWrong(_)
HasWrong(y) == y.k = "wrong" \/ \E i \in 1..Len(y.c) : HasWrong(y.c[i])

(* the kept condition, written and read back, against a meaning; shift: an   *)
(* earlier part of the statement already has that many parameters            *)
WrittenOK(c, empty, mean) ==
  LET ts  == KWrite(c, 0)
      ts7 == KWrite(c, 7)
      prm == KValues(c)
      y   == Read(ts)
  IN IF empty THEN ts = <<>> /\ prm = <<>>
     ELSE /\ ~HasWrong(y)
          /\ Numbers(ts) = [i \in 1..Len(prm) |-> i]
          /\ Numbers(ts7) = [i \in 1..Len(prm) |-> i + 7]
          /\ [i \in 1..Len(ts) |-> ts[i].k] = [i \in 1..Len(ts7) |-> ts7[i].k]
          /\ SameBag(Leaves(Fill(y, prm)), Leaves(mean))
          /\ Equiv(Fill(y, prm), mean)
=============================================================================
