------------------------------- MODULE MC_C19 -------------------------------
EXTENDS C19, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
A1 == {"1", "0", "a", "b", "~", "^", "."}
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {""} ELSE LET q == Strs(n - 1) IN q \cup {s \o c : s \in q, c \in A1}
V(e, v, r) == [n |-> "", e |-> e, v |-> v, r |-> r, a |-> ""]
Vs == {V("0", v, "") : v \in Strs(Size)} \cup {V("1", "0", ""), V("0", "1", "1"), V("0", "1", "a")}
Inits == {[a |-> a] : a \in Vs}
Events(s) == {[op |-> "cmp", ka |-> "E", kb |-> "E", a |-> s.a, b |-> b, c |-> b] : b \in Vs}
\* transitivity, on shorter strings
Short == {V("0", v, "") : v \in Strs(2)}
ASSUME \A x \in Short, y \in Short, z \in Short :
         Lawful(x, y, z)
INSTANCE MC
=============================================================================
