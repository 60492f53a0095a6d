------------------------------- MODULE MC_C03 -------------------------------
EXTENDS C03, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
L1 == {"%prep", "%Description -n  x", "%global a %{expand:", "}", "%files %mnl", "%install \\", "%package devel ", "x", "%preps"}
Docs == IF Size = 1 THEN {<<x, y>> : x, y \in L1} ELSE {<<x, y, z>> : x, y, z \in L1}
Inits == {[lines |-> d, macros |-> <<<<"mnl", "\nz">>>>] : d \in Docs}
N1 == [name |-> "Check", delim |-> " ", opt |-> "", data |-> <<"n">>]
N2 == [name |-> "package", delim |-> "", opt |-> "q", data |-> <<>>]
E(i, f, k, t, d) == [op |-> "edit", i |-> i, f |-> f, k |-> k, t |-> t, d |-> d]
Events(s) ==
  LET n == Len(s.v) IN
  UNION {{E(i - 1, "data", 0, "", <<"p", "%prep">>), E(i - 1, "set", 0, "w", <<>>), E(i - 1, "del", -1, "", <<>>),
          E(i - 1, "ins", 0, "%files", <<>>), E(i - 1, "app", 0, "}", <<>>), [op |-> "del", i |-> i - 1]} : i \in 1..n} \cup
  UNION {{E(i - 1, "opt", 0, "y", <<>>) : x \in {1}} : i \in {j \in 2..n : HasSub(s.v[j].opts.optstring, "n:")}} \cup
  UNION {{[op |-> "move", i |-> i - 1, j |-> j] : j \in {1, -1} \ (IF n < 3 THEN {-1} ELSE {})} : i \in 2..n} \cup
  {[op |-> "find", n |-> x] : x \in {"prep", "PREP", "Files", "description -n  x", "package", "package devel"}} \cup
  {[op |-> "setid", n |-> x, d |-> <<"q">>] : x \in {"prep", "PREP", "package devel"}} \cup
  {[op |-> "setsec", n |-> x, s |-> N2] : x \in {"prep", "package devel"}} \cup
  {[op |-> "delid", n |-> x] : x \in {"prep", "files"}} \cup
  {[op |-> "dels", sl |-> x] : x \in {<<1, None, None>>, <<None, None, -2>>}} \cup
  {[op |-> "ins", i |-> 1, s |-> x] : x \in {N1, N2}} \cup {[op |-> "app", s |-> N1], [op |-> "reopen"]}
INSTANCE MC
=============================================================================
