------------------------------- MODULE MC_C05 -------------------------------
EXTENDS C05, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
L1 == {"%global a 1", "%define b() x\\", "  y", "#global a 2", "%dnl %global c %{a}", "", "# %%global d z",
       "%global e %{expand:", "}", "%if 0", "%endif"}
L0 == {"%global a 1", "%define b() x\\", "  y", "#global a 2", "%dnl %global c %{a}", "", "%global e %{expand:"}
Docs == IF Size = 1 THEN {<<x, y>> : x, y \in L1}
        ELSE {<<x, y>> : x, y \in L1} \cup {<<x, y, z>> : x, y, z \in L0}
Inits == {[lines |-> d, cond |-> TRUE] : d \in Docs}
D1 == [pre |-> <<>>, ws |-> <<"", " ", " ", "">>, name |-> "n", body |-> "v", glob |-> TRUE, out |-> FALSE, style |-> "dnl"]
Events(s) ==
  LET n == Len(s.v.items) IN
  UNION {{[op |-> "edit", i |-> i - 1, f |-> "body", v |-> x, b |-> FALSE] : x \in {"z", "p\\\nq", ""}} \cup
         {[op |-> "edit", i |-> i - 1, f |-> "name", v |-> "q(x)", b |-> FALSE]} \cup
         {[op |-> "edit", i |-> i - 1, f |-> "style", v |-> x, b |-> FALSE] : x \in {"dnl", "hash"}} \cup
         {[op |-> "edit", i |-> i - 1, f |-> f, v |-> "", b |-> b] : f \in {"glob", "out"}, b \in BOOLEAN} \cup
         {[op |-> "del", i |-> i - 1], [op |-> "del", i |-> i - 1 - n]} : i \in 1..n} \cup
  {[op |-> "setname", n |-> x, v |-> "w"] : x \in {s.v.items[i].name : i \in 1..n} \ {"b()", "q(x)"}} \cup
  {[op |-> "find", n |-> x, pos |-> p] : x \in {"a", "b()"}, p \in {-1, 0, 1}} \cup
  {[op |-> "delname", n |-> x] : x \in {"a", "c", "d"}} \cup
  {[op |-> "dels", sl |-> x] : x \in {<<None, None, None>>, <<1, None, None>>, <<None, None, -2>>}} \cup
  {[op |-> "ins", i |-> i, d |-> D1] : i \in {0, 1}} \cup
  {[op |-> "app", d |-> [D1 EXCEPT !.pre = <<"# c">>]], [op |-> "reopen"], [op |-> "del", i |-> n]}
INSTANCE MC
=============================================================================
