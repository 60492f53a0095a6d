--------------------------------- MODULE MC ---------------------------------
(* Bounded exhaustive exploration of a property's specification.             *)
(*  Inits        initial cases                                               *)
(*  Events(st)   the events tried in a state                                 *)
(*  Prop         the property, asserted on every transition                  *)
(* States are compared without their history (VIEW st), so that every        *)
(* transition is taken once; it is printed with the history that led to it   *)
(* for replay into the real code.                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Inits, Events(_), Start(_), Step(_, _), Prop(_, _, _), MaxDepth
VARIABLES st, init, path

MCInit == \E i \in Inits : init = i /\ st = Start(i) /\ path = <<>>
MCNext ==
  /\ Len(path) < MaxDepth
  /\ \E ev \in Events(st) :
       \E r \in {Step(st, ev)} :
         /\ IF Prop(st, ev, r) THEN TRUE
            ELSE Assert(FALSE, <<"property does not hold", init, path, ev, r>>)
         /\ st' = r.st
         /\ path' = Append(path, [ev |-> ev, exp |-> r.exp])
         /\ init' = init
         /\ PrintT("@@CASE " \o ToJson([init |-> init, path |-> path']))
MCSpec == MCInit /\ [][MCNext]_<<st, init, path>>
MCView == st
\* the code may keep more than the specification's state, such as what it was
\* asked last: histories that differ in their last event are told apart
MCViewLast == <<st, IF path = <<>> THEN <<>> ELSE <<path[Len(path)].ev>> >>
=============================================================================
