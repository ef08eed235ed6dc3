----------------------------- MODULE Statements -----------------------------
(* How whole statements are written: clause after clause, every clause        *)
(* continuing the numbering of the placeholders before it, and what a reader  *)
(* of the text gets back.  Design.tla does the same for one condition.        *)
(*                                                                            *)
(* A statement is written from the object x of QueryAPI and from the filter   *)
(* c as Design keeps it.  Tokens are those of Design; a token of kind         *)
(* "clause" begins a clause and names it.                                     *)
EXTENDS Design

Cl(name)      == [k |-> "clause", node |-> Node(name, <<>>), ns |-> <<>>]
Item(node, ns) == [k |-> "item", node |-> node, ns |-> ns]
Bare(node)    == Item(node, <<>>)
Text(w)       == Node(w, <<>>)

(* a writer: text so far and parameters so far *)
W0            == [ts |-> <<>>, prm |-> <<>>]
Put(w, ts)    == [w EXCEPT !.ts = @ \o ts]
PutFilter(w, c) ==
  IF c.els = <<>> THEN w
  ELSE [ts |-> w.ts \o <<Cl("WHERE")>> \o KWrite(c, Len(w.prm)), prm |-> w.prm \o KValues(c)]
PutAmount(w, name, n) ==
  IF ~n.p THEN w
  ELSE [ts |-> w.ts \o <<Cl(name), Item(Text("amount"), <<Len(w.prm) + 1>>)>>, prm |-> Append(w.prm, <<"uint", n.x>>)]
(* columns given values: SET, or the two lists of INSERT *)
Assigned(w, sets, v(_)) ==
  FoldLeft(LAMBDA acc, s : [ts  |-> Append(acc.ts, Item(Text(s.f.n), <<Len(acc.prm) + 1>>)),
                            prm |-> Append(acc.prm, v(s.v))], w, sets)
Listed(items, f(_)) == [i \in 1..Len(items) |-> Bare(f(items[i]))]

PutJoins(w, joins) ==
  FoldLeft(LAMBDA acc, j : Put(acc, <<Cl(j.jt), Bare(<<j.t.n, j.t.a>>), Bare(<<j.l.t, j.l.n>>), Bare(<<j.r.t, j.r.n>>)>>), w, joins)

WriteSelect(x, c) ==
  LET w1 == PutFilter(PutJoins(Put(W0, <<Cl("SELECT")>> \o Listed(x.fields, LAMBDA f : <<f.t, f.n, f.a>>)
                                       \o <<Cl("FROM"), Bare(<<x.t.n, x.t.a>>)>>), x.joins), c)
      w2 == IF x.mode = "many" /\ x.order # <<>> THEN Put(w1, <<Cl("ORDER BY")>> \o Listed(x.order, LAMBDA o : o)) ELSE w1
  IN CASE x.mode = "many"   -> PutAmount(PutAmount(w2, "OFFSET", x.off), "LIMIT", x.lim)
       [] x.mode = "single" -> Put(w2, <<Cl("LIMIT"), Bare(Text("1"))>>)
       [] OTHER             -> w2

WriteStatement(x, c, v(_)) ==
  CASE x.kd = "sel" -> WriteSelect(x, c)
    [] x.kd = "cnt" -> PutFilter(PutJoins(Put(W0, <<Cl("COUNT"), Bare(<<x.f.t, x.f.n>>), Cl("FROM"), Bare(<<x.t.n, x.t.a>>)>>), x.joins), c)
    [] x.kd = "upd" -> PutFilter(Assigned(Put(W0, <<Cl("UPDATE"), Bare(<<x.t, "">>), Cl("SET")>>), x.sets, v), c)
    [] x.kd = "del" -> PutFilter(Put(W0, <<Cl("DELETE"), Cl("FROM"), Bare(<<x.t, "">>)>>), c)
    [] x.kd = "ins" ->
         LET w == Assigned([ts |-> <<>>, prm |-> <<>>], x.sets, v)
         IN [ts  |-> <<Cl("INSERT"), Bare(<<x.t, "">>), Cl("COLUMNS")>>
                     \o [i \in 1..Len(w.ts) |-> [w.ts[i] EXCEPT !.ns = <<>>]]
                     \o <<Cl("VALUES")>> \o [i \in 1..Len(w.ts) |-> [w.ts[i] EXCEPT !.node = Text("value")]],
             prm |-> w.prm]

------------------------------------------------------------------------------
(* what a reader sees: the clauses in their order, and what is in each        *)
Begins(ts)   == SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i : ts[i].k = "clause")
Clauses(ts)  == LET b == Begins(ts)
                IN [i \in 1..Len(b) |-> [name |-> ts[b[i]].node.k,
                                         ts   |-> SubSeq(ts, b[i] + 1, IF i < Len(b) THEN b[i + 1] - 1 ELSE Len(ts))]]
Named(cls, name) == SelectSeq(cls, LAMBDA c : c.name = name)
Names(cls)   == [i \in 1..Len(cls) |-> cls[i].name]
TheOne(cls, name) == IF Len(Named(cls, name)) = 1 THEN Named(cls, name)[1].ts ELSE <<>>
At(prm, t)   == IF Len(t.ns) = 1 /\ t.ns[1] \in 1..Len(prm) THEN prm[t.ns[1]] ELSE <<"none", "">>

OrderOfClauses == <<"SELECT", "COUNT", "UPDATE", "DELETE", "INSERT", "FROM", "COLUMNS", "VALUES", "SET", "join", "WHERE", "ORDER BY", "OFFSET", "LIMIT">>
Rank(name) == LET r == {i \in 1..Len(OrderOfClauses) : OrderOfClauses[i] = name}
              IN IF r = {} THEN 10 ELSE CHOOSE i \in r : TRUE
InOrder(cls) == \A i \in 1..(Len(cls) - 1) :
                  Rank(cls[i].name) < Rank(cls[i + 1].name) \/ (Rank(cls[i].name) = 10 /\ Rank(cls[i + 1].name) = 10)

(* the filter read back, parameters in place of their numbers *)
FilterRead(cls, prm) ==
  LET ts == TheOne(cls, "WHERE")
  IN IF Named(cls, "WHERE") = <<>> THEN [none |-> TRUE, y |-> Wrong]
     ELSE LET y == Read(ts) IN [none |-> FALSE, y |-> IF HasWrong(y) THEN Wrong ELSE Fill(y, prm)]
(* the filter is the one written alone (whose meaning Design checks), however *)
(* many parameters come before it                                             *)
FilterAs(cls, prm, c, empty) ==
  LET r == FilterRead(cls, prm)
  IN IF empty THEN r.none ELSE ~r.none /\ ~HasWrong(r.y) /\ r.y = Fill(Read(KWrite(c, 0)), KValues(c))

AssignedRead(cols, vals, prm) ==
  IF Len(cols) # Len(vals) THEN <<>> ELSE [i \in 1..Len(cols) |-> <<cols[i].node.k, At(prm, vals[i])>>]
AmountRead(cls, name, prm) ==
  LET ts == TheOne(cls, name)
  IN IF Named(cls, name) = <<>> THEN <<"none", "">> ELSE IF Len(ts) # 1 THEN <<"wrong", "">> ELSE At(prm, ts[1])

Contents(ts) == [i \in 1..Len(ts) |-> ts[i].node]

(* the statement written from x and c, read back, asks for x *)
StatementOK(x, c, v(_), want) ==
  LET w    == WriteStatement(x, c, v)
      cls  == Clauses(w.ts)
      ns   == Numbers(w.ts)
      sets == [i \in 1..Len(x.sets) |-> <<x.sets[i].f.n, v(x.sets[i].v)>>]
  IN /\ ns = [i \in 1..Len(w.prm) |-> i]                       \* $1..$n, in the order of the text
     /\ w.prm = want                                            \* one parameter for each, in that order
     /\ InOrder(cls)                                            \* clauses once and in the order of SQL
     /\ x.kd \in {"sel", "cnt", "upd", "del"} => FilterAs(cls, w.prm, c, x.w.e)
     /\ x.kd \in {"sel", "cnt"} =>
          /\ Contents(TheOne(cls, "FROM")) = <<<<x.t.n, x.t.a>>>>
          /\ LET js == SelectSeq(cls, LAMBDA q : Rank(q.name) = 10)
             IN [i \in 1..Len(js) |-> <<js[i].name, Contents(js[i].ts)>>]
                = [i \in 1..Len(x.joins) |-> <<x.joins[i].jt, <<<<x.joins[i].t.n, x.joins[i].t.a>>,
                                              <<x.joins[i].l.t, x.joins[i].l.n>>, <<x.joins[i].r.t, x.joins[i].r.n>>>>>>]
     /\ x.kd = "sel" =>
          /\ x.mode = "many" =>
               /\ AmountRead(cls, "OFFSET", w.prm) = (IF x.off.p THEN <<"uint", x.off.x>> ELSE <<"none", "">>)
               /\ AmountRead(cls, "LIMIT", w.prm) = (IF x.lim.p THEN <<"uint", x.lim.x>> ELSE <<"none", "">>)
               /\ Contents(TheOne(cls, "ORDER BY")) = x.order
          /\ x.mode = "single" => Contents(TheOne(cls, "LIMIT")) = <<Text("1")>> /\ Named(cls, "OFFSET") = <<>>
          /\ x.mode = "base" => Named(cls, "LIMIT") \o Named(cls, "OFFSET") \o Named(cls, "ORDER BY") = <<>>
     /\ x.kd = "upd" => LET s == TheOne(cls, "SET") IN AssignedRead(s, s, w.prm) = sets
     /\ x.kd = "ins" => AssignedRead(TheOne(cls, "COLUMNS"), TheOne(cls, "VALUES"), w.prm) = sets
=============================================================================
