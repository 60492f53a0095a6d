------------------------------- MODULE MC_C15 -------------------------------
(* Every short release string: split, set, bump; pre-release versions.       *)
EXTENDS C15, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
Bits == {"0", "9", "1", ".", "rc", "%{?dist}", "%dist", "a"}
Rels == {Cat(q) : q \in UNION {[1..k -> Bits] : k \in 1..Size}}
Doc15(ver, rel, m) == m \o <<"Name: test", "Version: " \o ver, "Release: " \o rel, "Summary: s", "License: MIT">>
T15 == <<<<"dist", ".el9">>>>
Pres == {<<>>, <<"%global pre rc1">>, <<"%dnl %global pre rc1">>, <<"#global pre rc1">>}
Inits == {[lines |-> Doc15("1", rel, <<>>), macros |-> T15] : rel \in Rels}
         \cup {[lines |-> Doc15(v, "1", m), macros |-> T15] : v \in {"1", "1%{?pre:~%{pre}}", "2"}, m \in Pres}
         \cup {[lines |-> Doc15("1", "%{baserelease}", <<d, e>>), macros |-> T15] :
                 d \in {"%global baserelease 3", "# x", "%dnl %global BaseRelease 1"}, e \in {"%define baserelease 0.9", "%global RELEASE x.8"}}
Ver(v, p, m, s0) == [op |-> "ver", v |-> v, pat |-> p, mac |-> m, style |-> s0, prot |-> <<>>]
IsRel(s) == Val(s, "version") = "1" /\ Len(s.lines) = 5
Events(s) ==
  IF ~Sane(s.lines, s.T0) THEN {[op |-> "bump"], [op |-> "rel", v |-> "7"]}
  ELSE {[op |-> "get"], [op |-> "bump"], [op |-> "rel", v |-> "7"], [op |-> "both", n |-> "2", v |-> "5"]}
       \cup (IF IsRel(s) THEN {} ELSE
             {Ver(x[1], x[2], "pre", s0) : s0 \in {"dnl", "hash"}, x \in {<<"2.0rc2", 1>>, <<"2.0-RC2", 2>>, <<"3", 1>>, <<"3.0.dev1", 2>>, <<"2~beta", 3>>, <<"rc", 3>>}})
       \cup (IF IsRel(s) \/ MaxDepth > 1 THEN {} ELSE {Ver(x, p, "", "dnl") : x \in {"2.0rc2", "3"}, p \in 0..3})
INSTANCE MC
=============================================================================
