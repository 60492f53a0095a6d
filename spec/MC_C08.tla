------------------------------- MODULE MC_C08 -------------------------------
EXTENDS C08, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
L1 == {"Patch0001:  a", "Patch2: b", "Patch: c", "Patch9 :d", "# k", "%if 0", "%endif", "Source0: s"}
Docs == UNION {[1..k -> L1] : k \in 0..Size}
Inits == {[kind |-> "Patch", pre |-> d, lists |-> l, dup |-> FALSE, impl |-> i, digits |-> 1] :
            d \in Docs, l \in {<<>>, <<<<"x", "# c", "y">>>>}, i \in BOOLEAN}
Events(s) ==
  LET n == Len(Entries(s)) IN
  {[op |-> "ins", i |-> i, loc |-> "new"] : i \in -1..Min2(n, 2)} \cup
  {[op |-> "num", num |-> k, loc |-> "nw"] : k \in {0, 1, 2, 9, 10}} \cup
  {[op |-> "add_patch", num |-> -1, loc |-> "ap", initial |-> 7, digits |-> 4, cs |-> <<"k1", "k2">>],
   [op |-> "add_patch", num |-> 10, loc |-> "aq", initial |-> 0, digits |-> 1, cs |-> <<>>],
   [op |-> "app", loc |-> "a"], [op |-> "remove", loc |-> "b"], [op |-> "removenum", num |-> 1],
   [op |-> "del", i |-> 0], [op |-> "del", i |-> -1], [op |-> "dels", sl |-> <<None, None, -2>>],
   [op |-> "set", i |-> 0, loc |-> "zz"], [op |-> "reopen"]}
INSTANCE MC
=============================================================================
