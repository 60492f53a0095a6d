------------------------------- MODULE MC_C10 -------------------------------
(* Every day of some years and every layout of a small changelog.            *)
EXTENDS C10, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
L1 == {"* Mon Jan 01 2024 A - 1-1", "* Tue Jan  2 2024 B - 2-1", "* Tue Jan 2 10:20:30 UTC 2024 B - 3-1", "- x", "", "%changelog", "%autochangelog", "%build"}
Docs == UNION {[1..k -> L1] : k \in 0..Size}
Head0 == <<"Name: test", "Version: 1", "Release: 2%{?dist}", "Summary: s", "License: MIT", "%description", "x", "%if 0", "%changelog">>
Inits == {[lines |-> Head0 \o d \o <<"%install", "%endif">>, macros |-> <<<<"name", "test">>, <<"version", "1">>, <<"release", "2">>>>] : d \in Docs}
Env1 == [rpmpackager |-> "P", packager |-> NA, git |-> FALSE, gitname |-> "", gitemail |-> "", unix |-> "u"]
Ts(k, y, m, d) == [k |-> k, y |-> y, m |-> m, d |-> d, hms |-> "01:02:03", tz |-> "UTC"]
Add(ts) == [op |-> "add", text |-> <<"- new">>, author |-> "A", email |-> "e@f", evr |-> NA, ts |-> ts, env |-> Env1]
Events(s) == {Add(Ts("date", 2024, 2, 9)), Add(Ts("dt", 2023, 12, 31)), [op |-> "auto"]}
INSTANCE MC
=============================================================================
