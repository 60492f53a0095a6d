------------------------------- MODULE MC_C14 -------------------------------
(* Small preambles, every requested value: macros referring to each other,   *)
(* disabled ones, conditional references.                                    *)
EXTENDS C14, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
A == {"%global a 1", "%define a 2", "%dnl %global a 3"}
B == {"%global b 4", "%global b %{?a:%{a}}x", "%define b %{a}.5"}
V == {"1", "%{b}", "%{b}.%{?a:%{a}}", "1%{?a}", "%{b}%{!?a:.9}", "%{b}.%{b}", "1%{?a:~%{a}}", "%{?a:%{a}.}%{b}"}
Tail0 == <<"Release: %{version}.1", "Summary: s", "License: MIT">>
Late == {"%dnl %global a 9", "%global b 9"}
Docs == {<<x, y, "Name: test", "Version: " \o v>> \o Tail0 : x \in A, y \in B, v \in V}
        \cup {<<x, "%global b 4", "Name: test", "Version: " \o v, z>> \o Tail0 : x \in A, v \in V, z \in Late}
        \cup (IF Size > 1 THEN {<<x, y, z, "Name: test", "Version: " \o v>> \o Tail0 : x \in A, y \in B, z \in A \cup B, v \in V} ELSE {})
Inits == {[lines |-> d, macros |-> <<<<"dist", ".el9">>>>] : d \in {x \in Docs : Sane(x, <<>>)}}
Tag14(n, v) == [op |-> "tag", n |-> n, v |-> v, prot |-> <<>>]
Events(s) == IF ~Sane(s.lines, s.T0) THEN {} ELSE {Tag14("version", v) : v \in {"1", "7.8", "7.7", "2.3~4", "%{b}", "x", "4.9", "3%{?a:.%{b}}"}}
             \cup {Tag14("release", v) : v \in {"9.1", "3"}} \cup {[Tag14("version", "7.8") EXCEPT !.prot = <<"a">>]}
INSTANCE MC
=============================================================================
