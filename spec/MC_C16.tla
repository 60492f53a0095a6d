------------------------------- MODULE MC_C16 -------------------------------
EXTENDS C16, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
D1 == <<"%global v 1", "Version: 1", "Source0: a", "%prep", "%setup", "%changelog", "* Mon Jan 01 2024 A - 1-1">>
D2 == <<"Version: 1", "%package sub", "Version: 3", "%package sub", "Version: 3", "%sourcelist", "l1">>
Inits == {[docs |-> <<D1, D2>>, auto |-> <<FALSE, TRUE>>], [docs |-> <<D2, D1>>, auto |-> <<TRUE, FALSE>>]}
O(k, kind, arg, i) == [op |-> "open", sp |-> k, kind |-> kind, arg |-> arg, i |-> i]
Small == {O(1, "tags", "", -1), O(1, "sections", "", -1), O(1, "lines", "", -1), O(1, "sources", "", -1), O(2, "tags", "", -1),
          O(1, "changelog", "", -1), O(1, "tags", "", 1), O(1, "tags", "", 2), O(1, "md", "", -1), O(1, "tags", "package", -1)}
More == {O(1, "prep", "", -1), O(1, "sources", "dup", -1), O(2, "sections", "", -1), O(1, "tags", "nosuch", -1), O(1, "patches", "", -1),
         O(2, "sources", "", -1)}
EditsOf(g, h) ==
  LET kind == V(g.sp[g.stack[h].sp], g.stack[h].key).kind
      ed(e, v, i) == [op |-> "edit", h |-> h, e |-> e, v |-> v, i |-> i]
  IN CASE kind = "lines" -> {ed("add", "# x", 0)}
       [] kind = "sections" -> {ed("add", "y", -1), ed("del", "", -1), ed("new", "z", 0)}
       [] OTHER -> {ed("set", "7", 0)}
Events(g) ==
  Small \cup (IF Size > 1 THEN More ELSE {}) \cup
  {[op |-> "close", exc |-> FALSE], [op |-> "setver", sp |-> 1, v |-> "8"], [op |-> "content", sp |-> 1, kind |-> "tags", arg |-> "", i |-> -1]} \cup
  UNION {EditsOf(g, h) : h \in 1..Len(g.stack)}
INSTANCE MC
=============================================================================
