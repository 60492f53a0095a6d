-------------------------------- MODULE Trace --------------------------------
(* Trace validation.  A trace file (ndjson, path in the environment variable *)
(* TRACE) holds one recorded history of the real code per line:              *)
(*   [id, init, ev : sequence of [op, ..., obs]]                             *)
(* The specification is run along the history: Start gives the state for     *)
(* `init', Step gives the successor state and the observation the            *)
(* specification allows; any field of it that differs from the recorded      *)
(* observation is reported, with its name, and the history is abandoned.     *)
(* Prop is the property itself, stated on the transition independently of    *)
(* Step's definition; it has to hold of the specification along every trace. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cases, Start(_), Step(_, _), Prop(_, _, _)
VARIABLES c, l, st

NoState == [none |-> TRUE]

Diff(exp, obs) == {f \in DOMAIN exp : IF f \in DOMAIN obs THEN exp[f] # obs[f] ELSE TRUE}
Report(ev, exp, d) ==
  IF d = {} THEN TRUE
  ELSE PrintT("@@MISMATCH " \o ToJson([id |-> Cases[c].id, step |-> l,
              clause |-> CHOOSE f \in d : TRUE,
              fields |-> d,
              expected |-> [f \in d |-> exp[f]],
              got |-> [f \in d |-> IF f \in DOMAIN ev.obs THEN ev.obs[f] ELSE "missing"]]))

TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ st = NoState
TraceNext ==
  \/ /\ l = 0
     /\ l' = 1
     /\ st' = Start(Cases[c].init)
     /\ UNCHANGED c
  \/ /\ l > 0
     /\ l <= Len(Cases[c].ev)
     /\ \E r \in {Step(st, Cases[c].ev[l])} :      \* (binds r to a value)
          \E d \in {Diff(r.exp, Cases[c].ev[l].obs)} :
            /\ Report(Cases[c].ev[l], r.exp, d)
            /\ IF Prop(st, Cases[c].ev[l], r) THEN TRUE
               ELSE PrintT("@@SPECBUG " \o ToJson([id |-> Cases[c].id, step |-> l, exp |-> r.exp]))
            /\ st' = r.st
            /\ l' = IF d = {} THEN l + 1 ELSE -1
     /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
