------------------------------- MODULE MC_C12 -------------------------------
EXTENDS C12, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
Strs == IF Size = 1 THEN {"", "-q", "-n foo", "-nfoo x", "-p1 a -n 'b c'", "x -q y"}
        ELSE {"", "-q", "-n foo", "-nfoo x", "-p1 a -n 'b c'", "x -q y", "-n", "'x y' -p 2 -p3", "  -q",
              "-n \"%{name} a\"", "a\\ b -q -q", "%{?x:-n z} w"}
Inits == {[k |-> "opts", s |-> s, optstring |-> "n:p:q", defaults |-> <<<<"p", "!1">>>>] : s \in Strs}
Vals == {"!True", "!False", "!None", "!7", "v", "a b", "%{x y}"}
Events(o) ==
  {[op |-> "set", n |-> n, v |-> v] : n \in {"n", "p", "q"}, v \in Vals} \cup
  {[op |-> "del", n |-> n] : n \in {"n", "p", "q"}} \cup
  {[op |-> "pset", i |-> i, v |-> v] : i \in {0, -1}, v \in {"!3", "w w"}} \cup
  {[op |-> "pdel", i |-> i] : i \in {0, 1, -1}} \cup
  {[op |-> "pdels", sl |-> s] : s \in {<<None, None, -1>>, <<1, None, None>>}} \cup
  {[op |-> "pins", i |-> i, v |-> v] : i \in {0, 1, 9, IF Len(PosIdx(o)) > 0 THEN -1 ELSE 0}, v \in {"z", "s p"}} \cup
  {[op |-> "passign", vs |-> q] : q \in {<<>>, <<"m", "!2">>}}
INSTANCE MC
=============================================================================
