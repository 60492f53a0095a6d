------------------------------- MODULE MC_C17 -------------------------------
(* Two objects, a handful of texts and macros, all short histories.          *)
EXTENDS C17, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
Inits == {[n |-> 2]}
Rest17 == <<"Release: 1%{?dist}", "Summary: s", "License: MIT">>
Da == <<"%global vfa 1", "Name: a", "Version: %{vfa}%{?vfx}", "Source0: a.tgz">> \o Rest17
Db == <<"Name: b", "%if 0%{?vfx:1}", "%global vfa 2", "%endif", "Version: 3%{?vfa}", "Source0: b.tgz">> \o Rest17
Dx == <<"Name: a", "Release: 1">>
Docs17 == {Da, Db} \cup (IF Size > 1 THEN {Dx} ELSE {})
U(n) == [n |-> n, v |-> "", un |-> TRUE]
X(v) == [n |-> "vfx", v |-> v, un |-> FALSE]
Events(s) ==
  {[op |-> "new", k |-> k, lines |-> d, macros |-> <<>>] : k \in 1..2, d \in Docs17}
  \cup {[op |-> "text", k |-> 1, lines |-> d] : d \in {Da, Db, Dx}}
  \cup {[op |-> "add", k |-> 1, m |-> X("7")], [op |-> "macros", k |-> 2, macros |-> <<X("8")>>], [op |-> "macros", k |-> 1, macros |-> <<>>]}
  \cup {[op |-> "dir", k |-> 1, sd |-> "@B@"]}
  \cup {[op |-> "copy", k |-> k, j |-> 3 - k] : k \in 1..2} \cup {[op |-> "del", k |-> k] : k \in 1..2}
  \cup {[op |-> "expand", k |-> k, e |-> "%{name}-%{version}-%{release}-%{?vfa}-%{?vfx}-%{_sourcedir}", extra |-> x] : k \in 1..2, x \in {<<>>, <<X("9")>>, <<X("9"), U("dist")>>, <<U("vfx")>>}}
  \cup {[op |-> op, k |-> k, n |-> "version", extra |-> <<>>] : op \in {"prop", "sources", "header", "active"}, k \in 1..2}
INSTANCE MC
=============================================================================
