-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded call of the real library must be a step  *)
(* the specification allows, with the observation it predicts.               *)
(*                                                                           *)
(* A trace is a sequence of lines                                            *)
(*   [t |-> "ev", e: event, o: observation, d: digest of the new object,     *)
(*    rd: digests of all older objects, re-observed after the call,          *)
(*    x, y: SQL text hashes of this run and of the same run with other       *)
(*    values, lk: bound values found inside SQL text]                        *)
(*   [t |-> "reset", n: registry length to go back to]                       *)
(*   [t |-> "mark"]   end of the shared prelude                              *)
(* The specification state is driven by the events alone, so one difference  *)
(* does not hide the next.                                                   *)
EXTENDS Conform, Properties, Json, IOUtils

Property == IOEnv.PROPERTY     \* the property being checked

TraceFile == IOEnv.TRACE
Tr == ndJsonDeserialize(TraceFile)

VARIABLES l,        \* next line
          digs,     \* digest of every object when it was obtained
          anc,      \* what every object was made from (Properties.tla)
          nmis,     \* number of relevant differences so far
          noth      \* ... of other ones

tvars == <<objs, l, digs, anc, nmis, noth>>

Line == Tr[l]

(* differences of one step *)
Pure(ln) == If(ln.rd # digs /\ Len(ln.rd) > 0, "immutable")
            \cup If(ln.repeat # "", "repeat")
            \cup If(ln.al # "", "alone")
Spelling(ln) == If(ln.tw # "", "twin")
Text(ln) == If(ln.x # ln.y, "valuetext") \cup If(ln.lk # <<>>, "leak")

StepMis(ln, x) == Mis(ln.e, x, ln.o) \cup Pure(ln) \cup Text(ln) \cup Spelling(ln)

MaxReports == 40
Report(ln, ms, what, sofar) ==
  (ms # {} /\ sofar < MaxReports) =>
     \A m \in ms : PrintT(<<what, ln.h, ln.i, m, ln.e.op>>)

TraceInit == objs = <<>> /\ l = 1 /\ digs = <<>> /\ anc = <<>> /\ nmis = 0 /\ noth = 0

More == l <= Len(Tr)

Reset == /\ More /\ Line.t = "reset"
         /\ objs' = SubSeq(objs, 1, Line.n)
         /\ digs' = SubSeq(digs, 1, Line.n)
         /\ anc' = SubSeq(anc, 1, Line.n)
         /\ l' = l + 1 /\ UNCHANGED <<nmis, noth>>

Judge ==
  LET o   == objs'[Len(objs')]
      ms  == StepMis(Line, o)
      fam == Inherited(Line.e, anc)
      rel == {m \in ms : Concerns(Property, m, Line.e, o, fam)}
  IN /\ digs' = Append(digs, Line.d)
     /\ anc' = Append(anc, fam)
     /\ l' = l + 1
     /\ nmis' = nmis + Cardinality(rel)
     /\ noth' = noth + Cardinality(ms \ rel)
     /\ Report(Line, rel, "RELEVANT", nmis)
     /\ Report(Line, ms \ rel, "OTHER", noth)

Is(ops) == More /\ Line.t = "ev" /\ Line.e.op \in ops

(* one action per part of the library *)
CallCondition == Is(CondOps)   /\ Do(Line.e) /\ Judge
CallField     == Is(FieldOps)  /\ Do(Line.e) /\ Judge
CallSelect    == Is(SelectOps) /\ Do(Line.e) /\ Judge
CallWrite     == Is(WriteOps)  /\ Do(Line.e) /\ Judge
CallOther     == Is(OtherOps)  /\ Do(Line.e) /\ Judge

(* what a monitor saw while the trace was recorded (data races) *)
Monitored == /\ More /\ Line.t = "monitor"
             /\ l' = l + 1 /\ UNCHANGED <<objs, digs, anc, noth>>
             /\ IF Line.n = 0 THEN UNCHANGED nmis
                ELSE /\ nmis' = nmis + 1
                     /\ PrintT(<<IF Property = "ALL" \/ ConcernsStatic(Property, Line.what, "monitor") THEN "RELEVANT" ELSE "OTHER",
                                 0, 0, Line.what, "monitor">>)

TraceNext == Reset \/ CallCondition \/ CallField \/ CallSelect \/ CallWrite \/ CallOther \/ Monitored

TraceSpec == TraceInit /\ [][TraceNext]_tvars

View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
