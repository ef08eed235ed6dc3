------------------------------- MODULE Logic -------------------------------
(* Meaning of WHERE expressions.                                             *)
(*                                                                           *)
(* A node is a record [k, f, o, p, c]:                                       *)
(*   k  "leaf" | "not" | "and" | "or"                                        *)
(*   f  column of a leaf as <<table, name>> (<<>> otherwise); table "" when  *)
(*      not qualified                                                        *)
(*   o  comparison of a leaf ("=", "<=", "in", "like", "null", ...)          *)
(*   p  what the comparison is bound to: a sequence of <<type, value>>       *)
(*   c  children                                                             *)
(*                                                                           *)
(* SQL uses three truth values (a comparison with NULL is unknown), so the   *)
(* meaning of an expression is a Kleene function of its atomic comparisons.  *)
EXTENDS Sequences, Naturals, FiniteSets, TLC, SequencesExt

Node(k, c)     == [k |-> k, f |-> <<>>, o |-> "", p |-> <<>>, c |-> c]
Leaf(f, o, p)  == [k |-> "leaf", f |-> f, o |-> o, p |-> p, c |-> <<>>]
Nary(k, c)     == IF Len(c) = 1 THEN c[1] ELSE Node(k, c)
(* text of a column reference *)
ColText(f)     == IF f[1] = "" THEN f[2] ELSE f[1] \o "." \o f[2]
NotN(x)        == Node("not", <<x>>)
NoNode         == Node("none", <<>>)

(* ---- canonical form: negation at the atoms, nested sets of operands ---- *)
(* x > v and NOT (x <= v) are the same comparison in three-valued logic.    *)
CanonOp(o) == CASE o = ">" -> "<=" [] o = "<" -> ">=" [] o = "<>" -> "=" [] OTHER -> o
OpFlips(o) == o \in {">", "<", "<>"}

Dual(k) == IF k = "and" THEN "or" ELSE "and"

RECURSIVE NF(_, _)
NF(x, neg) ==
  CASE x.k = "leaf" ->
         [k |-> "leaf", a |-> <<ColText(x.f), CanonOp(x.o)>>, p |-> x.p,
          n |-> neg # OpFlips(x.o), s |-> {}]
    [] x.k = "not"  -> NF(x.c[1], ~neg)
    [] x.k = "none" -> [k |-> "none", a |-> <<>>, p |-> <<>>, n |-> FALSE, s |-> {}]
    [] OTHER ->
         LET kk   == IF neg THEN Dual(x.k) ELSE x.k
             kids == {NF(x.c[i], neg) : i \in 1..Len(x.c)}
             flat == UNION {IF y.k = kk THEN y.s ELSE {y} : y \in kids}
         IN IF Cardinality(flat) = 1 THEN CHOOSE y \in flat : TRUE
            ELSE [k |-> kk, a |-> <<>>, p |-> <<>>, n |-> FALSE, s |-> flat]

RECURSIVE Atoms(_)
Atoms(y) == IF y.k = "leaf" THEN {<<y.a, y.p>>} ELSE UNION {Atoms(z) : z \in y.s}

MinOf(S) == CHOOSE m \in S : \A z \in S : m <= z
MaxOf(S) == CHOOSE m \in S : \A z \in S : m >= z

(* 0 = false, 1 = unknown, 2 = true *)
RECURSIVE Eval(_, _)
Eval(y, v) ==
  CASE y.k = "leaf" -> IF y.n THEN 2 - v[<<y.a, y.p>>] ELSE v[<<y.a, y.p>>]
    [] y.k = "and"  -> MinOf({Eval(z, v) : z \in y.s})
    [] y.k = "or"   -> MaxOf({Eval(z, v) : z \in y.s})
    [] OTHER        -> 2

MaxTableAtoms == 7

Equiv(x, y) ==
  LET nx == NF(x, FALSE)
      ny == NF(y, FALSE)
  IN \/ nx = ny
     \/ /\ nx.k # "none" /\ ny.k # "none"
        /\ Atoms(nx) = Atoms(ny)
        /\ Cardinality(Atoms(nx)) <= MaxTableAtoms
        /\ \A v \in [Atoms(nx) -> 0..2] : Eval(nx, v) = Eval(ny, v)

(* every leaf, left to right *)
RECURSIVE Leaves(_)
Leaves(x) ==
  IF x.k = "leaf" THEN <<[f |-> ColText(x.f), o |-> CanonOp(x.o), p |-> x.p]>>
  ELSE IF x.k = "none" THEN <<>>
  ELSE FoldLeft(LAMBDA acc, y : acc \o Leaves(y), <<>>, x.c)

Count(s, e)  == Cardinality({i \in 1..Len(s) : s[i] = e})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])



(* the same expression with every column re-qualified / redefined *)
RECURSIVE WithTable(_, _)
WithTable(x, t) ==
  IF x.k = "leaf" THEN [x EXCEPT !.f = <<t, @[2]>>]
  ELSE [x EXCEPT !.c = [i \in 1..Len(x.c) |-> WithTable(x.c[i], t)]]

RECURSIVE WithField(_, _, _)
WithField(x, t, n) ==
  IF x.k = "leaf" THEN (IF x.f[2] = n THEN [x EXCEPT !.f = <<t, n>>] ELSE x)
  ELSE [x EXCEPT !.c = [i \in 1..Len(x.c) |-> WithField(x.c[i], t, n)]]
=============================================================================
