------------------------------- MODULE MC_C02 -------------------------------
(* All short documents over a pool of lines, all views and pairs of views.   *)
EXTENDS C02, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
Pool02 == {"Name: x", "Requires: %{expand:", "})", "  ", "# c", "#", "%global a %{expand:\\", " b} \\", "%{?x:Source0: s}", "%if 0", "%endif",
           "%package -n  s ", "%description", "%PREP", "%{?x:%setup -q -n %{name} } ", "%patch1  -p1 # x", "%changelog", "* A - 1", "- x", "%sourcelist", "%files %{nil}"}
Docs(n) == UNION {[1..k -> Pool02] : k \in 0..n}
Inits == {[lines |-> d, small |-> TRUE] : d \in Docs(Size)}
K02 == {"md", "sections", "tags", "secs", "changelog", "logs", "prep", "sources", "patches"}
Events(s) ==
  {[op |-> "views", kinds |-> <<k>>, read |-> TRUE, exc |-> FALSE] : k \in K02}
  \cup (IF Len(s.lines) > Size - 1 THEN {} ELSE {[op |-> "views", kinds |-> <<k, j>>, read |-> FALSE, exc |-> TRUE] : k \in K02, j \in K02})
INSTANCE MC
=============================================================================
