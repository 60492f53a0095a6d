------------------------------- MODULE MC_C21 -------------------------------
(* Histories of definitions, removals, expansions and reinitialisations of   *)
(* two macros.                                                               *)
EXTENDS C21, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
Inits == {[base |-> <<>>]}
N21 == {"vfa", "vfb"}
B21(n) == {"", "x"} \cup (IF n = "vfa" THEN {"%{?vfb}y"} ELSE {})
NB21 == {nb \in N21 \X {"", "x", "%{?vfb}y"} : nb[2] \in B21(nb[1])}
Events(s) ==
  {[op |-> "define", n |-> nb[1], b |-> nb[2]] : nb \in NB21} \cup {[op |-> "remove", n |-> n] : n \in N21}
  \cup (IF Len(s.T) > Size THEN {} ELSE {[op |-> "push", n |-> nb[1], o |-> "", b |-> nb[2], how |-> "add"] : nb \in NB21}
        \cup {[op |-> "push", n |-> n, o |-> o, b |-> "p", how |-> "global"] : n \in N21, o \in {"", "(a:)"}})
  \cup {[op |-> "expand", e |-> e] : e \in {"%{vfa}-%{?vfb}", "%{!?vfa:none}", "%{?vfb:%{vfa}}"} \cup {x[1] : x \in Rejected}}
  \cup {[op |-> "reinit", lv |-> l] : l \in {-20, -11, 0}}
INSTANCE MC
=============================================================================
