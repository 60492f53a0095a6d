------------------------------- MODULE MC_C04 -------------------------------
EXTENDS C04, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
L1 == {"Name: a", "# c", "", "%if 1", "%endif", "%{?x:URL:  u }", "Source0 : %{expand:", "}", "requires(post): b  ", "text",
       "%global m Name: q"}
L0 == {"Name: a", "# c", "", "%endif", "Source0 : %{expand:", "}"}
Docs == {<<x, y>> : x, y \in L1} \cup (IF Size = 1 THEN {} ELSE {<<x, y, z>> : x, y, z \in L0})
Inits == {[lines |-> d] : d \in Docs}
T1 == [pre |-> <<>>, cs |-> <<>>, name |-> "Epoch", sep |-> ": ", value |-> "1", px |-> "", sx |-> ""]
T2 == [pre |-> <<"">>, cs |-> <<[p |-> "#", t |-> "n"]>>, name |-> "Patch", sep |-> ":", value |-> "p", px |-> "", sx |-> ""]
E(i, f, k, v) == [op |-> "edit", i |-> i, f |-> f, k |-> k, v |-> v]
Events(s) ==
  LET n == Len(s.v.items) IN
  UNION {{E(i - 1, "value", 0, x) : x \in {"z", "%{m\n}"}} \cup
         {E(i - 1, "name", 0, "Version"), E(i - 1, "ctext", 0, "k"), E(i - 1, "cdel", -1, ""), E(i - 1, "cins", 0, "new"),
          E(i - 1, "capp", 0, "app"), [op |-> "del", i |-> i - 1 - n], [op |-> "del", i |-> i - 1]} : i \in 1..n} \cup
  {[op |-> "find", n |-> x, pos |-> p] : x \in {"NAME", "url"}, p \in {-1, 0, 1}} \cup
  {[op |-> "delname", n |-> x] : x \in {"name", "source0"}} \cup
  {[op |-> "dels", sl |-> x] : x \in {<<None, None, None>>, <<1, None, None>>}} \cup
  {[op |-> "ins", i |-> i, t |-> t] : i \in {0, 1}, t \in {T1, T2}} \cup
  {[op |-> "app", t |-> T2], [op |-> "reopen"]}
INSTANCE MC
=============================================================================
