-------------------------------- MODULE Gen --------------------------------
(* Exhaustive generation of call histories from the specification.           *)
(*                                                                           *)
(* A fixed prelude builds operands of every shape; from there each profile   *)
(* explores all call sequences over its candidates up to a depth.  Every     *)
(* complete history is printed as JSON and replayed into the library by the  *)
(* harness.  A call has to use what the previous call made (connected        *)
(* histories), so breadth is not wasted on unrelated calls.                  *)
(*                                                                           *)
(* Left open for the harness: comparison kind "?" ("c": a condition type     *)
(* written by a user), values (tok), and which of the equivalent spellings   *)
(* of a call is used.                                                        *)
EXTENDS QueryAPI, Statements, Json, IOUtils

Profile == IOEnv.PROFILE
Depth   == atoi(IOEnv.DEPTH)

VARIABLES hist, x,       \* calls after the prelude; index of the object worked on
          kept           \* how every condition and filter is kept (Design.tla)
gvars == <<objs, hist, x, kept>>

------------------------------------------------------------------------------
Z == [z |-> 0]
Ev(op, r, a, s) == [op |-> op, r |-> r, a |-> a, s |-> s]
Tok(t) == [k |-> "raw", t |-> "tok", v |-> t, l |-> <<>>, tok |-> t]
LeafE(o, f, t) == Ev("leaf", 0, <<>>, [o |-> o, f |-> f, v |-> Tok(t)])
L(f)           == LeafE("?", f, "tok")
SelE(mode, t)  == Ev("from", 0, <<>>, [mode |-> mode, t |-> t])
FldE(f)        == Ev("fld", 0, <<>>, [f |-> f])
FvE(f, t)      == Ev("fv", 0, <<>>, [f |-> IF Len(f) = 2 THEN <<f[1], f[2], "">> ELSE f, v |-> Tok(t)])
OrdE(f, d)     == Ev("ord", 0, <<>>, [f |-> f, d |-> d])

(* the shared operands *)
Prelude == <<
  (*  1 *) L(<<"", "a", "">>),
  (*  2 *) L(<<"t", "b", "">>),
  (*  3 *) L(<<"", "c", "al">>),
  (*  4 *) L(<<"u", "d", "al2">>),
  (*  5 *) L(<<"", "e", "">>),
  (*  6 *) L(<<"", "g", "">>),
  (*  7 *) L(<<"", "h", "">>),
  (*  8 *) L(<<"t", "i", "">>),
  (*  9 *) Ev("not", 5, <<>>, Z),
  (* 10 *) Ev("cjoin", 6, <<>>, [j |-> "OR"]),
  (* 11 *) Ev("newgroup", 0, <<7, 8>>, [j |-> "AND"]),
  (* 12 *) L(<<"", "j", "">>),
  (* 13 *) L(<<"v", "k", "">>),
  (* 14 *) Ev("newgroup", 0, <<12, 13>>, [j |-> "OR"]),
  (* 15 *) Ev("not", 14, <<>>, Z),
  (* 16 *) Ev("newgroup", 0, <<>>, [j |-> "AND"]),
  (* 17 *) L(<<"", "m", "">>),
  (* 18 *) L(<<"", "n", "">>),
  (* 19 *) Ev("orf", 17, <<18>>, Z),
  (* 20 *) LeafE("c", <<"", "p", "">>, "tok"),
  (* 21 *) Ev("not", 20, <<>>, Z),
  (* 22 *) FldE(<<"", "a", "">>),
  (* 23 *) FldE(<<"t", "b", "">>),
  (* 24 *) FldE(<<"u", "d", "al">>),
  (* 25 *) FldE(<<"v", "k", "k">>),
  (* 26 *) OrdE(<<"", "a", "">>, "ASC"),
  (* 27 *) OrdE(<<"t", "b", "">>, "DESC"),
  (* 28 *) OrdE(<<"", "k", "">>, "ASC"),
  (* 29 *) FvE(<<"", "a">>, "tok"),
  (* 30 *) FvE(<<"t", "b">>, "tok"),
  (* 31 *) FvE(<<"", "c">>, "list"),
  (* 32 *) FvE(<<"", "k">>, "tok"),
  (* 33 *) SelE("base", <<"t", "">>),
  (* 34 *) SelE("many", <<"orders", "o2">>),
  (* 35 *) SelE("single", <<"u", "">>),
  (* 36 *) Ev("where", 33, <<1, 10>>, Z),
  (* 37 *) Ev("upd", 0, <<>>, [t |-> <<"t", "">>]),
  (* 38 *) Ev("ins", 0, <<>>, [t |-> <<"orders", "o2">>]),
  (* 39 *) Ev("del", 0, <<>>, [t |-> <<"u", "">>]),
  (* 40 *) Ev("whr", 0, <<>>, Z),
  (* 41 *) Ev("lim", 0, <<>>, Z),
  (* 42 *) Ev("jc", 0, <<23, 24>>, Z),
  (* 43 *) Ev("jnrfields", 0, <<23, 24>>, [jt |-> "LEFT JOIN"]),
  (* 44 *) Ev("fls", 0, <<22, 24>>, Z),
  (* 45 *) Ev("tbl", 0, <<>>, [t |-> <<"orders", "o2">>]),
  (* 46 *) Ev("join", 34, <<>>, [jt |-> "INNER JOIN", t |-> <<"v", "">>]),
  (* 47 *) LeafE("c", <<"t", "q", "">>, "tok"),
  (* 48 *) Ev("cjoin", 47, <<>>, [j |-> "OR"]),
  (* 49 *) Ev("newgroup", 0, <<20, 10>>, [j |-> "OR"]),
  (* 50 *) Ev("upd", 0, <<29>>, [t |-> <<"", "">>]),
  (* 51 *) Ev("ins", 0, <<29>>, [t |-> <<"", "">>]),
  (* 52 *) Ev("del", 0, <<1>>, [t |-> <<"", "">>]),
  (* 53 *) Ev("newgroup", 0, <<16, 16>>, [j |-> "OR"]),
  (* 54 *) Ev("many", 33, <<>>, Z),
  (* 55 *) Ev("and", 14, <<11>>, Z),
  (* 56 *) L(<<"", "A", "">>),
  (* 57 *) Ev("newgroup", 0, <<56, 1>>, [j |-> "OR"]),
  (* 58 *) FldE(<<"w", "A", "">>),
  (* 59 *) OrdE(<<"", "K", "">>, "DESC"),
  (* 60 *) FvE(<<"", "A">>, "tok"),
  (* 61 *) Ev("not", 16, <<>>, Z),
  (* 62 *) Ev("newgroup", 0, <<61, 16>>, [j |-> "OR"]),
  (* 63 *) Ev("cjoin", 1, <<>>, [j |-> "OR"]),
  (* 64 *) Ev("cjoin", 2, <<>>, [j |-> "OR"]),
  (* 65 *) Ev("cjoin", 3, <<>>, [j |-> "OR"]),
  (* 66 *) Ev("cjoin", 4, <<>>, [j |-> "OR"]),
  (* 67 *) Ev("cjoin", 5, <<>>, [j |-> "OR"]),
  (* 68 *) Ev("cjoin", 7, <<>>, [j |-> "OR"]),
  (* 69 *) Ev("cjoin", 8, <<>>, [j |-> "OR"]),
  (* 70 *) Ev("where", 37, <<1>>, Z),
  (* 71 *) FvE(<<"t", "a", "a">>, "tok"),
  (* 72 *) FvE(<<"", "b", "al">>, "tok"),
  (* 73 *) Ev("newgroup", 0, <<9>>, [j |-> "OR"]),
  (* 74 *) Ev("not", 73, <<>>, Z),
  (* 75 *) Ev("newgroup", 0, <<74, 14>>, [j |-> "AND"]),
  (* 76 *) Ev("upd", 0, <<30>>, [t |-> <<"t", "">>]),
  (* 77 *) Ev("newgroup", 0, <<15, 3>>, [j |-> "OR"]),
  (* 78 *) Ev("not", 77, <<>>, Z),
  (* 79 *) Ev("newgroup", 0, <<78, 10>>, [j |-> "AND"]),
  (* 80 *) Ev("not", 79, <<>>, Z),
  (* 81 *) FvE(<<"", "a">>, "k3"),      \* nil
  (* 82 *) Ev("upd", 0, <<81, 30>>, [t |-> <<"t", "">>]),
  (* 83 *) Ev("upd", 0, <<29, 32>>, [t |-> <<"t", "">>])
>>
Pre == Len(Prelude)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Over(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Range1(n) == [i \in 1..n |-> i]
Join2(s, t, F(_, _)) == Flat([i \in 1..Len(s) |-> [j \in 1..Len(t) |-> F(s[i], t[j])]])
When(b, s) == IF b THEN s ELSE <<>>

Step == Len(hist) + 1
X == objs[x]
New == Len(objs)

------------------------------------------------------------------------------
(* combining conditions: x with an operand of any shape, on either side      *)
FreshLeaf == IF Step = 1 THEN 2 ELSE IF Step = 2 THEN 3 ELSE 4

CondUnary ==
  When(~X.e /\ ~X.neg, <<Ev("not", x, <<>>, Z)>>)
  \o When(~X.e /\ X.neg, <<Ev("neg", x, <<>>, [b |-> FALSE])>>)
  \o <<Ev("cjoin", x, <<>>, [j |-> IF X.join = "OR" THEN "AND" ELSE "OR"])>>
  \o <<Ev("newgroup", 0, <<x>>, [j |-> "OR"])>>
  \o When(X.grp, <<Ev("brackets", x, <<>>, Z)>>)

CondBinary(y) ==
  << Ev("and", x, <<y>>, Z), Ev("or", x, <<y>>, Z), Ev("andf", x, <<y>>, Z), Ev("orf", x, <<y>>, Z),
     Ev("and", y, <<x>>, Z), Ev("or", y, <<x>>, Z), Ev("orf", y, <<x>>, Z),
     Ev("newgroup", 0, <<x, y>>, [j |-> "AND"]), Ev("newgroup", 0, <<y, x>>, [j |-> "OR"]),
     Ev("joinmany", 0, <<x, y>>, [j |-> "OR"]) >>
  \o When(X.grp, <<Ev("gand", x, <<y>>, Z), Ev("gor", x, <<y>>, Z)>>)
CondTernary(y, z) ==
  << Ev("and", x, <<y, z>>, Z), Ev("or", x, <<y, z>>, Z), Ev("orf", y, <<x, z>>, Z),
     Ev("newgroup", 0, <<y, x, z>>, [j |-> "OR"]) >>
  \o When(X.grp, <<Ev("gor", x, <<y, z>>, Z)>>)

CondOps1(shapes) ==
  CondUnary \o Flat(Over(<<FreshLeaf>> \o shapes, CondBinary))
  \o Flat(Over(shapes, LAMBDA z : CondTernary(FreshLeaf, z)))

(* what becomes of the final condition in statements *)
CondClose ==
  LET k == New
  IN << Ev("where", 36, <<k>>, Z), Ev("where", 33, <<5, k, 10>>, Z), Ev("del", 0, <<k>>, [t |-> <<"t", "">>]),
        Ev("wgor", 40, <<k, 18>>, Z) >>

------------------------------------------------------------------------------
(* clauses of a select, in every order                                       *)
SelClauses ==
  << Ev("where", x, <<2>>, Z), Ev("where", x, <<10, 14>>, Z),
     Ev("fields", x, <<22, 24>>, Z), Ev("fields", x, <<25>>, Z),
     Ev("order", x, <<26>>, Z), Ev("order", x, <<27, 28>>, Z),
     Ev("offset", x, <<>>, [n |-> 10]), Ev("limit", x, <<>>, [n |-> 25]),
     Ev("many", x, <<>>, Z), Ev("single", x, <<>>, Z),
     Ev("join", x, <<>>, [jt |-> "LEFT JOIN", t |-> <<"v", "jv">>]) >>
SelMore ==
  SelClauses \o
  << Ev("where", x, <<>>, Z), Ev("where", x, <<61>>, Z), Ev("where", x, <<15>>, Z), Ev("fields", x, <<>>, Z), Ev("order", x, <<>>, Z),
     Ev("offset", x, <<>>, [n |-> 0]), Ev("limit", x, <<>>, [n |-> 0]), Ev("limit", x, <<>>, [n |-> 0 - 5]),
     Ev("join", x, <<>>, [jt |-> "INNER JOIN", t |-> <<"w2", "">>]) >>
OnE == Ev("on", x, <<23, 24>>, Z)
SelOps == IF X.kd = "inc" THEN <<OnE>> ELSE SelClauses
SelOpsMore == IF X.kd = "inc" THEN <<OnE>> ELSE SelMore
CountClose(k) == IF objs[k].kd = "sel" THEN <<Ev("count", k, <<>>, [f |-> <<>>])>> ELSE <<>>

------------------------------------------------------------------------------
(* writing statements *)
UpdOps == << Ev("where", x, <<2>>, Z), Ev("where", x, <<16>>, Z), Ev("where", x, <<>>, Z), Ev("where", x, <<15, 10, 8>>, Z),
             Ev("set", x, <<29>>, Z), Ev("set", x, <<71, 31>>, Z), Ev("set", x, <<>>, Z), Ev("where", x, <<53>>, Z),
             Ev("where", x, <<61>>, Z), Ev("where", x, <<61, 16, 53, 62>>, Z) >>
DelOps == << Ev("where", x, <<2>>, Z), Ev("where", x, <<16>>, Z), Ev("where", x, <<>>, Z), Ev("where", x, <<15, 10, 8>>, Z),
             Ev("where", x, <<53, 16>>, Z), Ev("where", x, <<16, 48>>, Z), Ev("where", x, <<14>>, Z),
             Ev("where", x, <<61>>, Z), Ev("where", x, <<62, 61>>, Z), Ev("where", x, <<16, 61, 16, 53, 16>>, Z) >>
InsOps == << Ev("values", x, <<29>>, Z), Ev("values", x, <<30, 31>>, Z), Ev("values", x, <<>>, Z),
             Ev("values", x, <<72, 30, 71>>, Z), Ev("values", x, <<31, 31>>, Z) >>
WriteStart == << 37, 38, 39, 50, 51, 52 >>
WriteStep == CASE X.kd = "upd" -> UpdOps [] X.kd = "del" -> DelOps [] X.kd = "ins" -> InsOps [] OTHER -> <<>>

------------------------------------------------------------------------------
(* conversions at every point of a chain *)
ConvOps ==
  IF X.kd = "inc" THEN <<OnE>>
  ELSE IF X.kd = "sel" THEN
    << Ev("toupd", x, <<29, 30>>, Z), Ev("toupd", x, <<>>, Z), Ev("todel", x, <<>>, Z), Ev("toins", x, <<30, 29>>, Z),
       Ev("count", x, <<>>, [f |-> <<>>]), Ev("count", x, <<>>, [f |-> <<"t", "b", "al">>]),
       Ev("many", x, <<>>, Z), Ev("single", x, <<>>, Z) >>
    \o << Ev("where", x, <<2>>, Z), Ev("where", x, <<1, 2, 10>>, Z), Ev("where", x, <<15, 19, 8>>, Z), Ev("where", x, <<16>>, Z), Ev("where", x, <<9>>, Z), Ev("where", x, <<74>>, Z),
          Ev("fields", x, <<25>>, Z), Ev("order", x, <<27>>, Z), Ev("offset", x, <<>>, [n |-> 10]), Ev("limit", x, <<>>, [n |-> 3]),
          Ev("join", x, <<>>, [jt |-> "RIGHT JOIN", t |-> <<"v", "">>]) >>
  ELSE WriteStep

------------------------------------------------------------------------------
(* deriving several objects from one: a chain, then two branches at its end  *)
Branch == Depth \div 2         \* steps of the common chain
ImmutOps(k) ==
  LET o == objs[k] IN
  CASE o.kd = "sel" ->
         << Ev("where", k, <<2>>, Z), Ev("where", k, <<10>>, Z), Ev("fields", k, <<22>>, Z), Ev("fields", k, <<25, 24>>, Z),
            Ev("order", k, <<26>>, Z), Ev("order", k, <<27>>, Z), Ev("offset", k, <<>>, [n |-> 3]), Ev("limit", k, <<>>, [n |-> 4]),
            Ev("join", k, <<>>, [jt |-> "LEFT JOIN", t |-> <<"v", "">>]), Ev("todel", k, <<>>, Z), Ev("toupd", k, <<29>>, Z),
            Ev("count", k, <<>>, [f |-> <<>>]) >>
    [] o.kd = "inc" -> << Ev("on", k, <<23, 24>>, Z), Ev("on", k, <<24, 25>>, Z) >>
    [] o.kd = "upd" -> << Ev("set", k, <<29>>, Z), Ev("set", k, <<30>>, Z), Ev("where", k, <<2>>, Z), Ev("where", k, <<10>>, Z) >>
    [] o.kd = "ins" -> << Ev("values", k, <<29>>, Z), Ev("values", k, <<30>>, Z), Ev("values", k, <<31, 32>>, Z) >>
    [] o.kd = "del" -> << Ev("where", k, <<2>>, Z), Ev("where", k, <<10>>, Z), Ev("where", k, <<3, 14>>, Z) >>
    [] o.kd = "whr" -> << Ev("wgand", k, <<2>>, Z), Ev("wgor", k, <<3>>, Z), Ev("wgand", k, <<10>>, Z), Ev("wafs", k, <<23>>, Z) >>
    [] o.kd = "cond" -> << Ev("and", k, <<2>>, Z), Ev("or", k, <<3>>, Z), Ev("orf", k, <<4>>, Z), Ev("cjoin", k, <<>>, [j |-> "OR"]),
                           Ev("afs", k, <<25>>, Z), Ev("aft", k, <<>>, [t |-> "zz"]) >>
                        \o When(o.grp, <<Ev("gand", k, <<2>>, Z), Ev("gor", k, <<3>>, Z)>>)
                        \o When(~o.e /\ ~o.neg, <<Ev("not", k, <<>>, Z)>>)
    [] o.kd = "lim" -> << Ev("limoff", k, <<>>, [n |-> 3]), Ev("limlim", k, <<>>, [n |-> 5]) >>
    [] o.kd = "fld" -> << Ev("fldas", k, <<>>, [n |-> "n1"]), Ev("fldof", k, <<>>, [n |-> "t9"]) >>
    [] o.kd = "tbl" -> << Ev("tblas", k, <<>>, [n |-> "n1"]), Ev("tblfld", k, <<>>, [n |-> "f1"]) >>
    [] o.kd = "fls" -> << Ev("flsset", k, <<22>>, Z), Ev("flsset", k, <<24, 25>>, Z) >>
    [] o.kd = "fv"  -> << Ev("fvafs", k, <<25>>, Z), Ev("fvaft", k, <<>>, [t |-> "zz"]) >>
    [] o.kd = "ord" -> << Ev("ordafs", k, <<22>>, Z), Ev("ordafs", k, <<25>>, Z) >>
    [] o.kd = "jnr" -> << Ev("jnrby", k, <<24, 23>>, Z), Ev("jnrby", k, <<23, 25>>, Z) >>
    [] OTHER -> <<>>
(* growing: for every call that adds, two that add one thing each *)
GrowOps(k) ==
  LET o == objs[k] IN
  ImmutOps(k) \o
  CASE o.kd = "sel"  -> << Ev("where", k, <<3>>, Z), Ev("join", k, <<>>, [jt |-> "INNER JOIN", t |-> <<"w2", "jw">>]) >>
    [] o.kd = "upd"  -> << Ev("where", k, <<3>>, Z) >>
    [] o.kd = "del"  -> << Ev("where", k, <<4>>, Z) >>
    [] o.kd = "whr"  -> << Ev("wgand", k, <<4>>, Z), Ev("wgor", k, <<5>>, Z) >>
    [] o.kd = "cond" -> << Ev("and", k, <<5>>, Z), Ev("or", k, <<6>>, Z) >>
                        \o When(o.grp, <<Ev("gand", k, <<4>>, Z), Ev("gor", k, <<5>>, Z)>>)
    [] OTHER         -> <<>>
ImmutStart == <<1, 9, 11, 14, 15, 16, 19, 20, 22, 24, 26, 29, 33, 34, 35, 37, 76, 38, 39, 40, 41, 43, 44, 45, 46>>
(* x follows the chain and then stays at its end *)

------------------------------------------------------------------------------
(* every comparison on every form of field with every kind of value, then    *)
(* negated or rebound, then used                                             *)
Ops == <<"=", ">", ">=", "<", "<=", "in", "like", "ilike", "null", "between", "istrue", "geo", "cost", "exists">>
FieldForms == << <<"", "a", "">>, <<"t", "a", "">>, <<"", "a", "al">>, <<"t", "a", "al">>, <<"t", "a", "a">> >>
ScalarToks == [i \in 1..28 |-> "k" \o ToString(i - 1)]
EdgeToks == [i \in 1..65 |-> "e" \o ToString(i - 1)]     \* values at the edge of their type
TextToks == [i \in 1..28 |-> "t" \o ToString(i - 1)]     \* unusual texts
ListToks == Flat([i \in 1..27 |-> [j \in 1..4 |-> "l" \o ToString(i - 1) \o "x" \o ToString(IF j = 4 THEN 11 ELSE j)]])
LeafStarts ==
  Join2(Ops, FieldForms, LAMBDA o, f : LeafE(o, f, "tok"))
  \o Flat(Over(<<"=", "<=", "in">>, LAMBDA o : Over(ScalarToks, LAMBDA t : LeafE(o, <<"t", "a", "">>, t))))
  \o Flat(Over(<<"=", ">">>, LAMBDA o : Over(EdgeToks, LAMBDA t : LeafE(o, <<"", "a", "">>, t))))
  \o Flat(Over(<<"like", "ilike">>, LAMBDA o : Over(TextToks, LAMBDA t : LeafE(o, <<"", "a", "">>, t))))
  \o Over(ListToks, LAMBDA t : LeafE("in", <<"", "a", "">>, t))
  \o Over(<<"list", "list", "list">>, LAMBDA t : LeafE("=", <<"", "a", "">>, t))
LeafStep ==
  When(~X.neg, <<Ev("not", x, <<>>, Z)>>)
  \o << Ev("afs", x, <<22>>, Z), Ev("afs", x, <<24>>, Z), Ev("aft", x, <<>>, [t |-> "zz"]), Ev("cjoin", x, <<>>, [j |-> "OR"]),
        Ev("or", x, <<3>>, Z), Ev("and", 14, <<x>>, Z) >>
LeafClose == << Ev("where", 36, <<New>>, Z), Ev("del", 0, <<New>>, [t |-> <<"t", "">>]) >>

(* long lists and calls with many arguments *)
LongToks == [i \in 1..70 |-> "l" \o ToString(i % 27) \o "x" \o ToString(i)] \o
            <<"l0x64", "l1x100", "l0x129", "l9x257", "l2x300", "l0x1001", "l1x1025", "l0x2049">>
LongOf(s, n) == [i \in 1..n |-> s[((i - 1) % Len(s)) + 1]]
LongCalls(n) ==
  << Ev("where", 36, LongOf(<<2, 10, 3>>, n), Z), Ev("newgroup", 0, LongOf(<<1, 2, 8>>, n), [j |-> "OR"]), Ev("or", 11, LongOf(<<1, 2, 14>>, n), Z),
     Ev("set", 37, LongOf(<<29, 30, 32>>, n), Z), Ev("values", 38, LongOf(<<29, 30, 32>>, n), Z), Ev("where", 39, LongOf(<<20, 2>>, n), Z),
     Ev("fields", 34, LongOf(<<22, 24, 25>>, n), Z), Ev("order", 34, LongOf(<<26, 27>>, n), Z), Ev("joinmany", 0, LongOf(<<5, 6>>, n), [j |-> "AND"]),
     Ev("toins", 36, LongOf(<<30, 29>>, n), Z), Ev("fls", 0, LongOf(<<22, 25, 24>>, n), Z), Ev("flsset", 44, LongOf(<<25, 23>>, n), Z), Ev("wgor", 40, LongOf(<<7, 8>>, n), Z),
     Ev("where", 39, LongOf(<<61, 16, 53>>, n), Z), Ev("where", 76, LongOf(<<16>>, n), Z), Ev("where", 76, LongOf(<<61>>, n) \o <<2>>, Z), Ev("del", 0, LongOf(<<61>>, n), [t |-> <<"t", "">>]),
     Ev("where", 39, <<2>> \o LongOf(<<16, 62>>, n), Z), Ev("where", 33, LongOf(<<16>>, n), Z), Ev("newgroup", 0, LongOf(<<53, 61>>, n), [j |-> "OR"]) >>
LongStarts == Over(LongToks, LAMBDA t : LeafE("in", <<"", "a", "">>, t)) \o Flat(Over([i \in 1..20 |-> i] \o <<31, 32, 33, 64, 65, 101, 129, 257>>, LongCalls))
LongStep == CASE X.kd = "cond" -> << Ev("and", 14, <<x>>, Z), Ev("or", x, <<3>>, Z) >> \o When(~X.neg, <<Ev("not", x, <<>>, Z)>>)
                                  \o << Ev("where", 36, <<x>>, Z), Ev("del", 0, <<x, 2>>, [t |-> <<"t", "">>]) >>
              [] X.kd = "sel"  -> << Ev("where", x, <<2>>, Z), Ev("limit", x, <<>>, [n |-> 25]), Ev("count", x, <<>>, [f |-> <<>>]), Ev("todel", x, <<>>, Z) >>
              [] X.kd = "upd"  -> << Ev("where", x, <<2, 10>>, Z) >>
              [] X.kd = "ins"  -> << Ev("values", x, <<31>>, Z) >>
              [] X.kd = "del"  -> << Ev("where", x, <<4>>, Z) >>
              [] X.kd = "whr"  -> << Ev("wgand", x, <<2>>, Z) >>
              [] OTHER         -> <<>>

------------------------------------------------------------------------------
(* first filters of several conditions, each attached by AND or by OR, and
   what is added to them                                                     *)
ByAnd == <<1, 2, 3, 4, 5, 6, 7>>
ByOr  == <<63, 64, 65, 66, 67, 10, 68>>
RECURSIVE Power2(_)
Power2(n) == IF n = 0 THEN 1 ELSE 2 * Power2(n - 1)
Flats(n) == [i \in 1..Power2(n) |-> [j \in 1..n |-> IF ((i - 1) \div Power2(j - 1)) % 2 = 1 THEN ByOr[j] ELSE ByAnd[j]]]
FlatLists(most) == Flat(Over([i \in 1..(most - 1) |-> i + 1], Flats))
FlatFirst == Over(FlatLists(6), LAMBDA l : Ev("where", 33, l, Z)) \o Over(FlatLists(5), LAMBDA l : Ev("wgor", 40, l, Z))
             \o Over(FlatLists(4), LAMBDA l : Ev("del", 0, l, [t |-> <<"t", "">>])) \o Over(Flats(4), LAMBDA l : Ev("where", 37, l, Z))
FlatMore == << <<8>>, <<69>>, <<8, 17>>, <<17, 69>>, <<14>>, <<11>>, <<15>>, <<19>> >>
FlatStep ==
  CASE X.kd = "whr" -> Over(FlatMore, LAMBDA l : Ev("wgand", x, l, Z)) \o Over(FlatMore, LAMBDA l : Ev("wgor", x, l, Z))
    [] X.kd = "sel" -> Over(FlatMore, LAMBDA l : Ev("where", x, l, Z)) \o << Ev("todel", x, <<>>, Z) >>
    [] X.kd = "upd" -> Over(FlatMore, LAMBDA l : Ev("where", x, l, Z)) \o << Ev("set", x, <<29>>, Z) >>
    [] X.kd = "del" -> Over(FlatMore, LAMBDA l : Ev("where", x, l, Z))
    [] OTHER        -> <<>>

------------------------------------------------------------------------------
(* rebinding: small trees, then definitions that match or do not             *)
RebindStart == <<1, 2, 3, 4, 9, 10, 11, 14, 15, 16, 19, 20, 21, 55, 49, 57, 74, 75, 78, 80>>
RebindOps ==
  << Ev("afs", x, <<22>>, Z), Ev("afs", x, <<23>>, Z), Ev("afs", x, <<24>>, Z), Ev("afs", x, <<25>>, Z), Ev("afs", x, <<58>>, Z),
     Ev("aft", x, <<>>, [t |-> "zz"]) >>
RebindMix ==
  CondUnary \o Flat(Over(<<1, 10, 14, 15, 74>>, LAMBDA y :
     <<Ev("and", x, <<y>>, Z), Ev("or", y, <<x>>, Z), Ev("newgroup", 0, <<x, y>>, [j |-> "OR"])>>)) \o RebindOps
RebindClose == << Ev("where", 36, <<New>>, Z), Ev("or", New, <<1>>, Z) >>

------------------------------------------------------------------------------
(* paging and ordering *)
PageOps ==
  IF X.kd = "lim"
  THEN Over(<<0, 1, 7, 100000>>, LAMBDA n : Ev("limoff", x, <<>>, [n |-> n])) \o Over(<<0, 1, 9, 2000000>>, LAMBDA n : Ev("limlim", x, <<>>, [n |-> n]))
  ELSE Over(<<0, 1, 13, 100000>>, LAMBDA n : Ev("offset", x, <<>>, [n |-> n]))
       \o Over(<<0, 1, 17, 0 - 1, 2000000>>, LAMBDA n : Ev("limit", x, <<>>, [n |-> n]))
       \o << Ev("order", x, <<26>>, Z), Ev("order", x, <<27, 28>>, Z), Ev("order", x, <<28, 26, 27>>, Z), Ev("order", x, <<>>, Z),
             Ev("where", x, <<2>>, Z), Ev("where", x, <<20, 10>>, Z), Ev("many", x, <<>>, Z), Ev("single", x, <<>>, Z) >>

------------------------------------------------------------------------------
(* joins: types, right tables, fields, finishing twice                       *)
JTypes == <<"INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN">>
JTables == << <<"v", "">>, <<"orders", "oo">>, <<"t", "t2">> >>
JPairs == << <<23, 24>>, <<24, 25>>, <<25, 23>> >>
JoinStart == <<33, 34, 35, 36>>
JoinOps ==
  IF X.kd = "inc" THEN Over(JPairs, LAMBDA p : Ev("on", x, p, Z))
  ELSE IF X.kd = "jc" THEN Over(JTypes, LAMBDA jt : Ev("jnr", x, <<>>, [jt |-> jt]))
  ELSE IF X.kd = "jnr" THEN Over(JPairs, LAMBDA p : Ev("jnrby", x, p, Z))
  ELSE IF X.kd # "sel" THEN <<>>
  ELSE Join2(JTypes, JTables, LAMBDA jt, t : Ev("join", x, <<>>, [jt |-> jt, t |-> t]))
       \o << Ev("where", x, <<2>>, Z), Ev("many", x, <<>>, Z), Ev("single", x, <<>>, Z) >>
JoinFirst ==
  Join2(JTypes, JTables, LAMBDA jt, t : Ev("joinroot", 0, <<>>, [l |-> <<"u", "lu">>, jt |-> jt, t |-> t]))
  \o Over(JPairs, LAMBDA p : Ev("jc", 0, p, Z))
  \o Join2(JTypes, JPairs, LAMBDA jt, p : Ev("jnrfields", 0, p, [jt |-> jt]))
  \o Over(JTypes, LAMBDA jt : Ev("jnrnew", 0, <<45, 42>>, [jt |-> jt]))
  \o Over(JTypes, LAMBDA jt : Ev("jtname", 0, <<>>, [jt |-> jt]))
(* finish the previous incomplete join once more, and look at it afterwards  *)
JoinClose ==
  LET incs == SelectSeq([i \in 1..Len(hist) |-> Pre + i], LAMBDA k : objs[k].kd = "inc")
  IN IF incs = <<>> THEN CountClose(New)
     ELSE <<Ev("on", incs[Len(incs)], <<25, 24>>, Z), Ev("on", incs[1], <<23, 25>>, Z)>> \o CountClose(New)

------------------------------------------------------------------------------
(* texts of names and references: every sequence of piece classes            *)
Classes == <<"id", "dot", "sp", "as", "q">>
Piece(c, i) == [c |-> c, x |-> CASE c = "id" -> (IF i % 3 = 0 THEN "f" ELSE IF i % 3 = 1 THEN "Ab_9" ELSE "ü")
                                 [] c = "dot" -> "." [] c = "sp" -> " " [] c = "q" -> "'" [] OTHER -> "as"]
Word(c) == c \in {"id", "as"}
RECURSIVE Seqs(_)
Seqs(n) ==    \* no two word pieces side by side
  IF n = 0 THEN << <<>> >>
  ELSE LET s == Seqs(n - 1)
           longest == SelectSeq(s, LAMBDA y : Len(y) = n - 1)
       IN s \o Flat(Over(longest, LAMBDA y :
            Over(SelectSeq(Classes, LAMBDA c : y = <<>> \/ ~(Word(c) /\ Word(y[Len(y)]))), LAMBDA c : Append(y, c))))
Pieces(y) == [i \in 1..Len(y) |-> Piece(y[i], i)]
NoQuote(y) == \A i \in 1..Len(y) : y[i] # "q"
AllTexts == Over(Seqs(IF Depth > 6 THEN 6 ELSE Depth), Pieces)
Quoteless(ps) == ~Has(ps, "q")
OddTexts ==    \* characters a name may not have unquoted, but which are not looked at
  LET id(t) == [c |-> "id", x |-> t]
      Of3(t) == << <<id(t)>>, <<id("f"), Piece("dot", 1), id(t)>>, <<id(t), Piece("dot", 1), id("f")>>,
                   <<id("f"), Piece("sp", 1), Piece("as", 1), Piece("sp", 1), id(t)>>,
                   <<id(t), Piece("sp", 1), Piece("as", 1), Piece("sp", 1), id("f")>>,
                   <<id("f"), Piece("sp", 1), id(t), Piece("sp", 1), id("f")>> >>
  IN Flat(Over(<<"a--b", "--", "-", "c*", "*", "/*d*/", "#x", "e\\g", "-1", "0", "_", "a,b", "n;", "(x)", "[x]", "`x`", "@v", "a=b", "::int", "$1", "?", "%s", "é́", "名前", "a/b", "NULL", "DISTINCT", "asc", "alias">>, Of3))
IdentEvents ==
  Flat(Over(SelectSeq(AllTexts, Quoteless) \o OddTexts, LAMBDA p :
     << Ev("fldparse", 0, <<>>, [p |-> p, how |-> "err"]), Ev("fldparse", 0, <<>>, [p |-> p, how |-> "panic"]),
        Ev("tblparse", 0, <<>>, [p |-> p, how |-> "err"]), Ev("tblparse", 0, <<>>, [p |-> p, how |-> "panic"]) >>))
VmE(p) == [p |-> p, v |-> Tok("tok")]
NameEvents ==
  Flat(Over(AllTexts \o OddTexts, LAMBDA p :
     << Ev("valid", 0, <<>>, [p |-> p]), Ev("ordparse", 0, <<>>, [p |-> p, d |-> ""]),
        Ev("ordparse", 0, <<>>, [p |-> p, d |-> "ASC"]), Ev("ordparse", 0, <<>>, [p |-> p, d |-> "DESC"]),
        Ev("ordparse", 0, <<>>, [p |-> p, d |-> "ASC; DROP"]), Ev("vm", 0, <<>>, [m |-> <<VmE(p)>>]),
        Ev("vm", 0, <<>>, [m |-> <<VmE(<<[c |-> "id", x |-> "good"]>>), VmE(p)>>]) >>))
DirEvents == Over(<<"asc", "desc", "ASC2", "ASCENDING", "Asc", " ASC", "DESC ", "ASC,", "x", "NULLS FIRST", "ASC NULLS", "0", "'", "DESC;">>,
                  LAMBDA d : Ev("ordparse", 0, <<>>, [p |-> <<[c |-> "id", x |-> "f"]>>, d |-> d]))
             \o Flat(Over(<<"asc", "x", "DESC ">>, LAMBDA d : Over(<<"ASC", "DESC", "", "y">>,
                  LAMBDA d2 : Ev("ordparse", 0, <<>>, [p |-> <<[c |-> "id", x |-> "f"]>>, d |-> d, d2 |-> d2]))))
UniqEvents == Flat([n \in 1..4 |-> Over(SetToSeq([1..n -> {"f", "g", "F"}]), LAMBDA l : Ev("uniq", 0, <<>>, [l |-> l]))])

(* what fields and tables look like where they are used *)
UseStart == Join2(<<"", "t", "o">>, <<"", "al", "f">>, LAMBDA t, a : FldE(<<t, "f", a>>))
            \o Over(<< <<"t", "">>, <<"t", "al">>, <<"t", "t">>, <<"orders", "o">> >>, LAMBDA t : Ev("tbl", 0, <<>>, [t |-> t]))
UseOps == IF X.kd = "fld"
          THEN << Ev("fldas", x, <<>>, [n |-> "zz"]), Ev("fldas", x, <<>>, [n |-> ""]), Ev("fldas", x, <<>>, [n |-> "f"]),
                  Ev("fldof", x, <<>>, [n |-> "orders"]), Ev("fldof", x, <<>>, [n |-> ""]), Ev("fls", 0, <<x, 22>>, Z),
                  Ev("fields", 33, <<22, x>>, Z), Ev("fields", 34, <<x>>, Z), Ev("afs", 14, <<x>>, Z), Ev("ordafs", 26, <<x>>, Z),
                  Ev("fvafs", 29, <<x>>, Z) >>
                \o When(X.t # "", <<Ev("jc", 0, <<x, 24>>, Z), Ev("on", 46, <<x, 24>>, Z), Ev("jnrfields", 0, <<23, x>>, [jt |-> "FULL JOIN"])>>)
          ELSE IF X.kd = "tbl"
          THEN << Ev("tblas", x, <<>>, [n |-> "zz"]), Ev("tblas", x, <<>>, [n |-> ""]), Ev("tblas", x, <<>>, [n |-> X.n]),
                  Ev("tblfld", x, <<>>, [n |-> "f"]), Ev("tblfld", x, <<>>, [n |-> "f", q |-> "t"]), Ev("tblfld", x, <<>>, [n |-> "f", q |-> "orders"]),
                  Ev("tblfld", x, <<>>, [n |-> "f", q |-> "al"]), Ev("tblfld", x, <<>>, [n |-> "f", q |-> "zz"]), Ev("jnrnew", 0, <<x, 42>>, [jt |-> "LEFT JOIN"]) >>
          ELSE <<>>
RefEvents ==    \* references in every statement that takes a text
  Flat(Join2(<<"", "t">>, <<"", "al", "f">>, LAMBDA t, a :
     << OrdE(<<t, "f", "">>, "ASC"), OrdE(<<t, "f", "">>, "DESC"), Ev("count", 33, <<>>, [f |-> <<t, "f", a>>]),
        L(<<t, "f", a>>), Ev("count", 34, <<>>, [f |-> <<t, "f", a>>]) >>))
  \o Flat(Join2(<<"t", "orders">>, <<"", "al">>, LAMBDA t, a :
     << Ev("from", 0, <<1>>, [mode |-> "base", t |-> <<t, a>>]), Ev("from", 0, <<1>>, [mode |-> "many", t |-> <<t, a>>]),
        Ev("from", 0, <<1>>, [mode |-> "single", t |-> <<t, a>>]), Ev("cntroot", 0, <<1>>, [t |-> <<t, a>>]),
        Ev("upd", 0, <<29>>, [t |-> <<t, a>>]), Ev("del", 0, <<1>>, [t |-> <<t, a>>]), Ev("ins", 0, <<29>>, [t |-> <<t, a>>]) >>))

(* values in every place that takes one *)
ValueStart ==
  Over(EdgeToks, LAMBDA t : FvE(<<"", "a">>, t)) \o
  Flat(Over(ScalarToks \o <<"list", "list">>, LAMBDA t : << FvE(<<"", "a">>, t), FvE(<<"t", "b">>, t) >>))
ValueOps == IF X.kd = "fv"
            THEN << Ev("upd", 0, <<32, x>>, [t |-> <<"t", "">>]), Ev("ins", 0, <<x, 30>>, [t |-> <<"t", "">>]), Ev("set", 37, <<x>>, Z),
                    Ev("values", 38, <<32, x, 31>>, Z), Ev("toupd", 36, <<x, x>>, Z), Ev("toins", 36, <<x>>, Z),
                    Ev("fvafs", x, <<22>>, Z), Ev("fvaft", x, <<>>, [t |-> "zz"]) >>
            ELSE WriteStep

(* the same field and the same value, nil too, in several clauses            *)
PairFirst == Join2(<<"=", "<=", "in", "like", "null">>, << <<"", "a", "">>, <<"t", "b", "">>, <<"", "k", "k">> >>, LAMBDA o, f : LeafE(o, f, "tok"))
             \o Join2(<<"=", ">", "in">>, << <<"", "a", "">>, <<"t", "b", "">> >>, LAMBDA o, f : LeafE(o, f, "k3"))
PairStep ==
  CASE X.kd = "cond" ->
         Flat(Over(<<37, 76, 82, 83, 39, 36, 33, 34>>, LAMBDA u :
           << Ev("where", u, <<x>>, Z), Ev("where", u, <<x, 10>>, Z), Ev("where", u, <<14, x>>, Z), Ev("where", u, <<x, x>>, Z) >>))
         \o When(~X.neg, <<Ev("not", x, <<>>, Z)>>)
    [] X.kd = "upd" -> << Ev("set", x, <<29>>, Z), Ev("set", x, <<81>>, Z), Ev("set", x, <<30, 32>>, Z), Ev("where", x, <<1>>, Z) >>
    [] X.kd = "del" -> << Ev("where", x, <<1>>, Z), Ev("where", x, <<2, 14>>, Z) >>
    [] X.kd = "sel" -> << Ev("toupd", x, <<81, 30>>, Z), Ev("toupd", x, <<29>>, Z), Ev("todel", x, <<>>, Z), Ev("order", x, <<26, 27>>, Z), Ev("fields", x, <<22, 23, 25>>, Z),
                          Ev("count", x, <<>>, [f |-> <<"", "a", "">>]), Ev("toins", x, <<81, 29>>, Z) >>
    [] OTHER        -> <<>>

------------------------------------------------------------------------------
(* long chains: two calls in turn, until the history is Depth calls long     *)
ChainCalls ==
  CASE X.kd = "cond" ->
         << Ev("and", x, <<2>>, Z), Ev("or", x, <<3>>, Z), Ev("and", x, <<14>>, Z), Ev("or", 55, <<x>>, Z),
            Ev("newgroup", 0, <<x, 5>>, [j |-> "AND"]), Ev("newgroup", 0, <<10, x>>, [j |-> "OR"]),
            IF X.e THEN Ev("cjoin", x, <<>>, [j |-> "AND"]) ELSE IF X.neg THEN Ev("neg", x, <<>>, [b |-> FALSE]) ELSE Ev("not", x, <<>>, Z),
            Ev("cjoin", x, <<>>, [j |-> IF X.join = "OR" THEN "AND" ELSE "OR"]), Ev("newgroup", 0, <<x>>, [j |-> "OR"]), Ev("and", 16, <<x>>, Z),
            Ev("aft", x, <<>>, [t |-> "zz"]), Ev("or", 21, <<x, 9>>, Z) >>
    [] X.kd = "sel" ->
         << Ev("where", x, <<2>>, Z), Ev("where", x, <<10>>, Z), Ev("where", x, <<14, 9>>, Z), Ev("fields", x, <<25, 22>>, Z), Ev("order", x, <<26>>, Z),
            Ev("order", x, <<27, 28>>, Z), Ev("offset", x, <<>>, [n |-> 10]), Ev("limit", x, <<>>, [n |-> 25]), Ev("single", x, <<>>, Z),
            Ev("join", x, <<>>, [jt |-> "LEFT JOIN", t |-> <<"v", "jv">>]), Ev("join", x, <<>>, [jt |-> "INNER JOIN", t |-> <<"w2", "">>]) >>
    [] X.kd = "inc" -> << OnE >>
    [] X.kd = "whr" -> << Ev("wgand", x, <<2>>, Z), Ev("wgor", x, <<3>>, Z), Ev("wgand", x, <<14>>, Z), Ev("wgor", x, <<10, 1>>, Z), Ev("wafs", x, <<23>>, Z) >>
    [] X.kd = "upd" -> << Ev("where", x, <<2>>, Z), Ev("where", x, <<10, 14>>, Z), Ev("set", x, <<29>>, Z), Ev("set", x, <<71, 31>>, Z), Ev("where", x, <<>>, Z) >>
    [] X.kd = "ins" -> << Ev("values", x, <<29>>, Z), Ev("values", x, <<30, 31>>, Z), Ev("values", x, <<>>, Z) >>
    [] X.kd = "del" -> << Ev("where", x, <<2>>, Z), Ev("where", x, <<10>>, Z), Ev("where", x, <<9, 14>>, Z), Ev("where", x, <<16>>, Z) >>
    [] X.kd = "lim" -> << Ev("limoff", x, <<>>, [n |-> 7]), Ev("limlim", x, <<>>, [n |-> 9]) >>
    [] OTHER        -> <<>>
Numbered(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.s = @ @@ ("c" :> i)]]
Turns == SelectSeq(hist, LAMBDA e : e.op # "on")
ChainStep == LET s == Numbered(ChainCalls)
                 n == Len(Turns)
             IN IF X.kd = "inc" \/ n < 2 \/ s = <<>> THEN s ELSE <<s[Turns[n - 1].s.c]>>

------------------------------------------------------------------------------
Shapes == <<9, 10, 11, 14, 15, 16, 19, 74>>

Starts ==      \* objects a history may begin with; 0: none
  CASE Profile = "cond"    -> <<1, 9, 10, 11, 14, 15, 16, 19, 74>>
    [] Profile = "cond3"   -> <<1, 14, 10>>
    [] Profile = "custom"  -> <<20, 21, 47, 48, 49>>
    [] Profile \in {"sel", "selmore"} -> <<33, 34, 35>>
    [] Profile = "convert" -> <<33, 34, 35>>
    [] Profile = "write"   -> WriteStart
    [] Profile \in {"immut", "grow"} -> ImmutStart
    [] Profile = "rebind"  -> RebindStart
    [] Profile = "rebindx" -> <<26, 27, 28, 29, 30, 32, 71, 72, 40, 59, 60>>
    [] Profile = "paging"  -> <<33, 34, 35, 41, 36>>
    [] Profile = "joins"   -> JoinStart \o <<0>>
    [] Profile = "chain"   -> <<1, 14, 20, 33, 36, 35, 37, 38, 39, 40, 41>>
    [] OTHER               -> <<0>>

First == \* calls a history may begin with when there is no start object
  CASE Profile = "leaf"   -> LeafStarts
    [] Profile = "long"   -> LongStarts
    [] Profile = "flat"   -> FlatFirst
    [] Profile = "joins"  -> JoinFirst
    [] Profile = "idents" -> IdentEvents
    [] Profile = "names"  -> NameEvents \o DirEvents \o UniqEvents \o Over(<<0, 1, 2, 3>>, LAMBDA n : Ev("opname", 0, <<>>, [n |-> n]))
    [] Profile = "use"    -> UseStart \o RefEvents
    [] Profile = "values" -> ValueStart
    [] Profile = "pair"   -> PairFirst
    [] OTHER              -> <<>>

Candidates ==
  IF x = 0 THEN First
  ELSE CASE Profile = "cond"    -> CondOps1(Shapes)
         [] Profile = "cond3"   -> CondOps1(<<10, 14>>)
         [] Profile = "custom"  -> CondOps1(<<10, 14, 48, 21>>)
         [] Profile = "sel"     -> SelOps
         [] Profile = "selmore" -> SelOpsMore
         [] Profile = "convert" -> ConvOps
         [] Profile = "write"   -> WriteStep
         [] Profile = "immut"   -> ImmutOps(x)
         [] Profile = "grow"    -> GrowOps(x)
         [] Profile = "leaf"    -> LeafStep
         [] Profile = "long"    -> LongStep
         [] Profile = "flat"    -> FlatStep
         [] Profile = "rebind"  -> RebindMix
         [] Profile = "rebindx" ->
              CASE X.kd = "ord" -> Over(<<22, 23, 24, 25, 58>>, LAMBDA d : Ev("ordafs", x, <<d>>, Z)) \o
                                   <<Ev("order", 33, <<x, 27>>, Z), Ev("order", 34, <<28, x>>, Z)>>
                [] X.kd = "fv"  -> Over(<<22, 23, 24, 25, 58>>, LAMBDA d : Ev("fvafs", x, <<d>>, Z)) \o
                                   <<Ev("fvaft", x, <<>>, [t |-> "zz"]), Ev("set", 70, <<31, x>>, Z), Ev("values", 38, <<x, 31>>, Z)>>
                [] X.kd = "whr" -> Over(<<22, 23, 25, 58>>, LAMBDA d : Ev("wafs", x, <<d>>, Z)) \o
                                   <<Ev("wgand", x, <<57, 10>>, Z), Ev("wgor", x, <<14>>, Z), Ev("wgand", x, <<15, 2>>, Z), Ev("wgor", x, <<20, 55>>, Z)>>
                [] OTHER        -> <<>>
         [] Profile = "paging"  -> PageOps
         [] Profile = "chain"   -> ChainStep
         [] Profile = "joins"   -> JoinOps
         [] Profile = "use"     -> UseOps
         [] Profile = "values"  -> ValueOps
         [] Profile = "pair"    -> PairStep
         [] OTHER               -> <<>>

CloseRefs == IF x = 0 \/ hist = <<>> THEN <<>> ELSE
  CASE Profile \in {"cond", "cond3", "custom"} -> CondClose
    [] Profile \in {"sel", "selmore"}          -> CountClose(New)
    [] Profile = "leaf"                        -> LeafClose
    [] Profile = "rebind"                      -> RebindClose
    [] Profile = "joins"                       -> JoinClose
    [] Profile = "paging"                      -> CountClose(New)
    [] OTHER                                   -> <<>>

------------------------------------------------------------------------------
(* how the result of a call is kept *)
K0 == KEmpty
KeptRes(e, O, K) ==
  LET o == O[Len(O)]
      R == IF e.r = 0 THEN K0 ELSE K[e.r]
      A == [i \in 1..Len(e.a) |-> K[e.a[i]]]
      D == O[e.a[1]]
  IN IF o.kd \in {"fail", "skip"} THEN K0
     ELSE CASE e.op = "leaf"     -> KLeaf(o.b)
            [] e.op = "not"      -> [R EXCEPT !.neg = TRUE]
            [] e.op = "neg"      -> [R EXCEPT !.neg = e.s.b]
            [] e.op = "cjoin"    -> KJoin(R, e.s.j)
            [] e.op = "and"      -> IF R.g THEN KAdd(R, "AND", A) ELSE KAndF(R, A)
            [] e.op = "or"       -> IF R.g THEN KAdd(R, "OR", A) ELSE KOrF(R, A)
            [] e.op = "andf"     -> KAndF(R, A)
            [] e.op = "orf"      -> KOrF(R, A)
            [] e.op = "gand"     -> KAdd(R, "AND", A)
            [] e.op = "gor"      -> KAdd(R, "OR", A)
            [] e.op = "newgroup" -> KNewGroup(e.s.j, A)
            [] e.op = "joinmany" -> IF Len(A) = 1 THEN KJoin(A[1], e.s.j) ELSE KNewGroup(e.s.j, A)
            [] e.op = "brackets" -> KBr(R)
            [] e.op \in {"afs", "wafs"} -> KRebind(R, TRUE, D.t, D.n)
            [] e.op = "aft"      -> KRebind(R, FALSE, e.s.t, "")
            [] e.op \in {"from", "del", "cntroot"} -> KAdd(K0, "AND", A)
            [] e.op \in {"where", "wgand"} -> KAdd(R, "AND", A)
            [] e.op = "wgor"     -> KAdd(R, "OR", A)
            [] e.op \in {"fields", "order", "offset", "limit", "many", "single", "join", "on", "count",
                         "toupd", "todel", "set"} -> R
            [] OTHER             -> K0

Both0 == FoldLeft(LAMBDA B, e : LET O == Append(B.o, Res(e, B.o)) IN [o |-> O, k |-> Append(B.k, KeptRes(e, O, B.k))],
                  [o |-> <<>>, k |-> <<>>], Prelude)

GenInit == /\ objs = Both0.o
           /\ kept = Both0.k
           /\ hist = <<>>
           /\ x \in {Starts[i] : i \in 1..Len(Starts)}

(* in branching histories x is the end of the common chain *)
Branches == IF x <= Pre THEN Len(hist) ELSE Len(objs) - x
Group1(op) == IF op \in {"join", "on"} THEN "join" ELSE op
SameOp(e) == IF hist = <<>> THEN TRUE ELSE Group1(e.op) = Group1(hist[1].op)
OnChain(e) == IF hist = <<>> THEN TRUE
              ELSE /\ SameOp(e)
                   /\ e.op = hist[1].op => e.a = hist[1].a
                   /\ e.op = "on" /\ hist[1].op # "on" => e.a = <<23, 24>>
StayChoices == CASE Profile = "immut" -> {Len(hist) >= Branch}
                 [] Profile = "grow"  -> IF hist = <<>> \/ x = New
                                         THEN {TRUE} \cup (IF Len(hist) < Depth THEN {FALSE} ELSE {})
                                         ELSE {TRUE}
                 [] OTHER             -> {FALSE}
Done == IF Profile = "grow" THEN x # New /\ hist # <<>> /\ Branches = 2 ELSE Len(hist) = Depth
Fits(e, stay) == Profile = "grow" => (IF stay THEN SameOp(e) ELSE OnChain(e))

(* one more call *)
GenNext ==
  /\ ~Done
  /\ \E i \in 1..Len(Candidates), stay \in StayChoices :
       LET e == Candidates[i]
       IN /\ Fits(e, stay) = TRUE
          /\ Do(e)
          /\ kept' = Append(kept, KeptRes(e, objs', kept))
          /\ hist' = Append(hist, e)
          /\ x' = IF stay THEN x ELSE Len(objs) + 1

GenSpec == GenInit /\ [][GenNext]_gvars

(* a history is complete when nothing more can be called *)
Complete == Done \/ Candidates = <<>>
Emit == (Complete /\ hist # <<>>) => PrintT(ToJson([ev |-> hist \o CloseRefs]))
ASSUME PrintT(ToJson([pre |-> Prelude]))

------------------------------------------------------------------------------
(* Properties of the design, checked in every generated state *)

(* obtaining something new changes nothing that exists *)
Immutable == [][SubSeq(objs', 1, Len(objs)) = objs]_gvars

(* the filter of the new object, as kept and written, means what the calls   *)
(* said; its placeholders are 1..n (or continue after others) in the order   *)
(* of its parameters; nothing is written exactly when there is no condition  *)
NewObject == hist # <<>> /\ objs[New].kd \in {"cond", "sel", "whr", "upd", "del", "cnt"}
RefinesMeaning ==
  NewObject => LET o == objs[New]
                   c == IF o.kd = "cond" THEN o ELSE o.w
               IN /\ WrittenOK(kept[New], c.e, IF c.e THEN NoNode ELSE Mean(c))
                  /\ kept[New].g = c.grp
                  /\ (o.kd = "cond" => kept[New].join = o.join)
                  /\ Len(KValues(kept[New])) = Len(FilterParams(c))

(* a write statement is refused exactly when no real condition was supplied  *)
GuardExact ==
  NewObject /\ objs[New].kd \in {"upd", "del"} =>
     (kept[New].els = <<>>) = objs[New].w.e

(* the statement of the new object, as written clause by clause, asks for     *)
(* what the object is: placeholders $1..$n in the order of the text, each    *)
(* bound to the parameter of its place, clauses in the order of SQL          *)
StatementRead ==
  (hist # <<>> /\ objs[New].kd \in StmtKinds) =>
     LET o == objs[New] IN StatementOK(o, kept[New], Bind, Params(o))

(* conversions keep the table and the meaning of the filter                  *)
ConversionKeeps ==
  (hist # <<>> /\ hist[Len(hist)].op \in {"toupd", "todel", "count", "many", "single", "fields", "order", "offset", "limit"}) =>
     LET o == objs[New]
         r == objs[hist[Len(hist)].r]
     IN /\ o.w = r.w /\ kept[New] = kept[hist[Len(hist)].r]
        /\ (IF o.kd \in {"upd", "del"} THEN o.t = r.t.n ELSE o.t = r.t)

(* paging is a matter of many-row queries; single-row queries always end at  *)
(* one row; a chain never loses what it was asked for                        *)
ClausesKept ==
  (hist # <<>> /\ objs[New].kd = "sel" /\ hist[Len(hist)].op \in {"where", "fields", "order", "offset", "limit"}) =>
     LET o == objs[New]
         r == objs[hist[Len(hist)].r]
         op == hist[Len(hist)].op
     IN /\ op # "fields" => o.fields = r.fields
        /\ op # "where"  => o.w = r.w
        /\ (op # "order" /\ r.mode = o.mode)  => o.order = r.order
        /\ (op # "offset" /\ r.mode = o.mode) => o.off = r.off
        /\ (op # "limit" /\ r.mode = o.mode)  => o.lim = r.lim
        /\ o.joins = r.joins /\ o.t = r.t
        /\ op \in {"order", "offset", "limit"} => o.mode = "many"
=============================================================================
