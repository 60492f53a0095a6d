------------------------------- MODULE MC_C11 -------------------------------
EXTENDS C11, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
L1 == {"%setup -q", "%patch1 -p1", "%patch -P 2", "%patch 3", "%{?x:%patch4 -p1}", "# c", "%patches", "%patch", "a; %autopatch -p1"}
Docs == UNION {[1..k -> L1] : k \in 0..Size}
Inits == {[lines |-> d] : d \in Docs}
Events(p) ==
  {[op |-> "opt", i |-> 0, n |-> "p", v |-> "!2"], [op |-> "opt", i |-> -1, n |-> "p", v |-> "x y"], [op |-> "delopt", i |-> 0, n |-> "p"],
   [op |-> "num", i |-> -1, v |-> 7], [op |-> "rm", number |-> 0], [op |-> "rm", number |-> 3], [op |-> "del", i |-> -1],
   [op |-> "dels", sl |-> <<None, None, -2>>], [op |-> "delname", n |-> "%patch1"], [op |-> "in", n |-> "%patch"],
   [op |-> "in", n |-> "%patch4"], [op |-> "byname", n |-> "%setup"], [op |-> "reopen"]} \cup
  {[op |-> "add", number |-> k, old |-> o, kw |-> w] :
     k \in {-1, 2, 5}, o \in {TRUE, FALSE}, w \in {<<>>, <<<<"P", "!3">>, <<"p", "!1">>>>, <<<<"R", "!True">>>>}}
INSTANCE MC
=============================================================================
