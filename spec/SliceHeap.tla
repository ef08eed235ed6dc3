------------------------------ MODULE SliceHeap ------------------------------
(* How lists inside builders, conditions and definitions are kept in memory. *)
(*                                                                           *)
(* Every object of the library holds lists (members of a group, joins,       *)
(* orderings, values, fields) as Go slices: an array somewhere on the heap   *)
(* plus a length.  Deriving a new object appends to a copy of the slice      *)
(* header, which writes into the shared array when there is room.  This      *)
(* module says under which discipline that can never be seen from outside,   *)
(* whatever goroutines derive at the same time and whatever a caller does    *)
(* with lists he passed in or got back:                                      *)
(*   Clip     append never uses spare room (slices.Clip before append)       *)
(*   CopyIn   lists passed in are copied                                     *)
(*   CopyOut  lists handed out are copied                                    *)
(* With all three Unchanged and NoRace hold in every interleaving; TLC finds *)
(* a violation as soon as any of them is given up.  That the library follows *)
(* the discipline is decided on the real code by replaying histories         *)
(* (profiles immut, grow and random; goroutines under the race detector).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Procs, MaxObjs, MaxArrays, MaxLen, Clip, CopyIn, CopyOut

VARIABLES heap,   \* arrays: sequences of cells
          objs,   \* objects: [a: array, n: length]
          want,   \* what every object showed when it was obtained
          lists,  \* slices in the hands of callers
          pend    \* per goroutine: an append under way
vars == <<heap, objs, want, lists, pend>>

None == [k |-> "none", o |-> 0, a |-> 0, n |-> 0, fresh |-> FALSE, v |-> ""]
Content(s) == SubSeq(heap[s.a], 1, s.n)
Cap(s)     == Len(heap[s.a])
Grown(c, v) == c \o <<v>> \o [i \in 1..Len(c) |-> "-"]     \* append doubles the room

Init == /\ heap = << <<"c">> >>
        /\ objs = <<[a |-> 1, n |-> 1]>>
        /\ want = << <<"c">> >>
        /\ lists = <<>>
        /\ pend = [p \in Procs |-> None]

Room == Len(objs) + Cardinality({p \in Procs : pend[p].k # "none"}) < MaxObjs /\ Len(heap) < MaxArrays

(* a goroutine starts deriving: it has read the header of object o *)
Begin(p, o) ==
  /\ pend[p].k = "none" /\ Room /\ objs[o].n < MaxLen
  /\ LET s == objs[o]
         inplace == ~Clip /\ s.n < Cap(s)
     IN pend' = [pend EXCEPT ![p] = [k |-> "append", o |-> o, a |-> s.a, n |-> s.n + 1,
                                     fresh |-> ~inplace, v |-> p]]
  /\ UNCHANGED <<heap, objs, want, lists>>

(* ... and writes the new element; the new object is published *)
Finish(p) ==
  /\ pend[p].k = "append" /\ Len(heap) < MaxArrays
  /\ LET w == pend[p]
         old == SubSeq(heap[w.a], 1, w.n - 1)
     IN IF w.fresh
        THEN /\ heap' = Append(heap, Grown(old, w.v))
             /\ objs' = Append(objs, [a |-> Len(heap) + 1, n |-> w.n])
             /\ want' = Append(want, Append(want[w.o], w.v))
        ELSE /\ heap' = [heap EXCEPT ![w.a][w.n] = w.v]
             /\ objs' = Append(objs, [a |-> w.a, n |-> w.n])
             /\ want' = Append(want, Append(want[w.o], w.v))
  /\ pend' = [pend EXCEPT ![p] = None]
  /\ UNCHANGED lists

(* a caller makes an object from a list of his own *)
Pass ==
  /\ Room /\ Len(lists) < 2 /\ Len(heap) + 1 < MaxArrays
  /\ heap' = heap \o << <<"m", "m">> >> \o (IF CopyIn THEN << <<"m", "m">> >> ELSE <<>>)
  /\ lists' = Append(lists, [a |-> Len(heap) + 1, n |-> 2])
  /\ objs' = Append(objs, [a |-> IF CopyIn THEN Len(heap) + 2 ELSE Len(heap) + 1, n |-> 2])
  /\ want' = Append(want, <<"m", "m">>)
  /\ UNCHANGED pend

(* a caller asks an object for its list *)
Take(o) ==
  /\ Len(lists) < 2 /\ Len(heap) < MaxArrays
  /\ IF CopyOut
     THEN /\ heap' = Append(heap, Content(objs[o]))
          /\ lists' = Append(lists, [a |-> Len(heap) + 1, n |-> objs[o].n])
     ELSE /\ lists' = Append(lists, objs[o]) /\ UNCHANGED heap
  /\ UNCHANGED <<objs, want, pend>>

(* a caller overwrites an element of a list he holds, or appends to it *)
Scribble(i, j) ==
  /\ j \in 1..lists[i].n
  /\ heap' = [heap EXCEPT ![lists[i].a][j] = "junk"]
  /\ UNCHANGED <<objs, want, lists, pend>>
AppendOwn(i) ==
  /\ lists[i].n < Cap(lists[i])
  /\ heap' = [heap EXCEPT ![lists[i].a][lists[i].n + 1] = "junk"]
  /\ UNCHANGED <<objs, want, lists, pend>>

Next == \/ \E p \in Procs, o \in 1..Len(objs) : Begin(p, o)
        \/ \E p \in Procs : Finish(p)
        \/ Pass
        \/ \E o \in 1..Len(objs) : Take(o)
        \/ \E i \in 1..Len(lists), j \in 1..MaxLen : Scribble(i, j)
        \/ \E i \in 1..Len(lists) : AppendOwn(i)

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* everything obtained earlier still shows the same *)
Unchanged == \A i \in 1..Len(objs) : Content(objs[i]) = want[i]

(* no two goroutines ever write the same cell, and none writes a cell that   *)
(* another object shows                                                      *)
InPlace(p) == pend[p].k = "append" /\ ~pend[p].fresh
NoRace ==
  /\ \A p, q \in Procs : (p # q /\ InPlace(p) /\ InPlace(q)) => <<pend[p].a, pend[p].n>> # <<pend[q].a, pend[q].n>>
  /\ \A p \in Procs, i \in 1..Len(objs) : InPlace(p) => ~(objs[i].a = pend[p].a /\ objs[i].n >= pend[p].n)

(* for measuring the model itself: without the discipline appends do share   *)
Shares == \E i, j \in 1..Len(objs) : i # j /\ objs[i].a = objs[j].a
=============================================================================
