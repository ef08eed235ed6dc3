------------------------------- MODULE Idents -------------------------------
(* Names and references as they are written.  A text is a sequence of        *)
(* pieces [c, x]: class and the characters themselves.  Classes:             *)
(*   "id" ordinary characters   "dot" a dot     "sp" one white space         *)
(*   "q"  ' or "                "as"  the word AS in any letter case         *)
EXTENDS Sequences, Naturals, FiniteSets, TLC, SequencesExt

Texts(ps) == FoldLeft(LAMBDA acc, p : acc \o p.x, "", ps)
Has(ps, cls) == \E i \in 1..Len(ps) : ps[i].c = cls
Dots(ps) == Cardinality({i \in 1..Len(ps) : ps[i].c = "dot"})

(* white space separated words *)
Words(ps) ==
  LET step(acc, p) == IF p.c = "sp" THEN [done |-> IF acc.cur = <<>> THEN acc.done
                                                   ELSE Append(acc.done, acc.cur), cur |-> <<>>]
                      ELSE [acc EXCEPT !.cur = Append(@, p)]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], ps)
  IN IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)

IsAs(w) == Len(w) = 1 /\ w[1].c = "as"

(* parts of a dotted word *)
BeforeDot(w) == LET i == CHOOSE i \in 1..Len(w) : w[i].c = "dot" IN SubSeq(w, 1, i - 1)
AfterDot(w)  == LET i == CHOOSE i \in 1..Len(w) : w[i].c = "dot" IN SubSeq(w, i + 1, Len(w))

Bad == [ok |-> FALSE, t |-> "", n |-> "", a |-> ""]

(* <name> | <table>.<name>, each optionally followed by AS <alias>           *)
ParseField(ps) ==
  LET ws == Words(ps)
      n  == Len(ws)
      colOk == n >= 1 /\ (Dots(ws[1]) = 0
                          \/ (Dots(ws[1]) = 1 /\ BeforeDot(ws[1]) # <<>> /\ AfterDot(ws[1]) # <<>>))
      tt == IF Dots(ws[1]) = 0 THEN "" ELSE Texts(BeforeDot(ws[1]))
      nn == IF Dots(ws[1]) = 0 THEN Texts(ws[1]) ELSE Texts(AfterDot(ws[1]))
  IN CASE n = 1 /\ colOk               -> [ok |-> TRUE, t |-> tt, n |-> nn, a |-> ""]
       [] n = 3 /\ colOk /\ IsAs(ws[2]) -> [ok |-> TRUE, t |-> tt, n |-> nn, a |-> Texts(ws[3])]
       [] OTHER                        -> Bad

(* <name> | <name> <alias> | <name> AS <alias>                               *)
ParseTable(ps) ==
  LET ws == Words(ps)
      n  == Len(ws)
      mk(w, a) == [ok |-> TRUE, t |-> "", n |-> Texts(w), a |-> IF Texts(a) = Texts(w) THEN "" ELSE Texts(a)]
  IN CASE n = 1                -> mk(ws[1], <<>>)
       [] n = 2                -> mk(ws[1], ws[2])
       [] n = 3 /\ IsAs(ws[2]) -> mk(ws[1], ws[3])
       [] OTHER                -> Bad

(* names that may come from outside *)
ValidName(ps) ==
  /\ Texts(ps) # ""
  /\ ~Has(ps, "q") /\ ~Has(ps, "sp")
  /\ Dots(ps) <= 1
  /\ ps[1].c # "dot" /\ ps[Len(ps)].c # "dot"

Uniq(l) == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x),
                    <<>>, l)
=============================================================================
