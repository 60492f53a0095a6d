------------------------------- MODULE MC_C09 -------------------------------
EXTENDS C09, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
L1 == {"* Mon Jan 01 2024 A - 1-1", "* Tue Jan  2 2024 B <b@c> - 2-1", "- x", "", "* y"}
Docs == UNION {[1..k -> L1] : k \in 0..Size}
Inits == {[lines |-> d] : d \in Docs}
E1 == [h |-> "* Wed Jan 03 2024 C - 3-1", c |-> <<"- n">>, f |-> <<"">>]
Events(g) ==
  {[op |-> "filter", since |-> a, until |-> b] : a \in {NoEvr, "2-1"}, b \in {NoEvr, "1-1"}} \cup
  {[op |-> "del", i |-> i] : i \in {0, -1, 1}} \cup
  {[op |-> "ins", i |-> 0, e |-> E1], [op |-> "app", e |-> E1], [op |-> "set", i |-> -1, e |-> E1],
   [op |-> "dels", sl |-> <<None, None, -2>>], [op |-> "slice", sl |-> <<None, None, -1>>],
   [op |-> "cont", i |-> 0, c |-> <<>>], [op |-> "reopen"]}
INSTANCE MC
=============================================================================
