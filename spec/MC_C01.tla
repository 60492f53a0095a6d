------------------------------- MODULE MC_C01 -------------------------------
(* Histories over two paths.                                                 *)
EXTENDS C01, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
Head01 == "Name: test\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n%description\n%prep"
C01s == {Head01, Head01 \o "\n", Head01 \o "\n\n", Head01 \o "\n# x"}
Inits == {[files |-> <<c, Gone, Gone>>, places |-> <<TRUE, TRUE, FALSE>>, auto |-> a] : c \in (IF Size = 1 THEN {Head01 \o "\n\n", Head01} ELSE C01s), a \in BOOLEAN}
Ed(op, e, v, exc) == [op |-> op, e |-> e, v |-> v, i |-> 0, exc |-> exc]
Events(s) ==
  {[op |-> "load", p |-> p, auto |-> a] : p \in 1..2, a \in BOOLEAN} \cup {[op |-> "reload"], [op |-> "save"], [op |-> "open"], [op |-> "view", kind |-> "tags"], [op |-> "parse", kind |-> "expand"]}
  \cup (IF Len(s.ls) > 7 + Size THEN {} ELSE {Ed(op, "app", "# y", x) : op \in {"edit", "session"}, x \in BOOLEAN})
  \cup {Ed("edit", e, "# z", FALSE) : e \in {"set", "del", "clear", "license"}}
  \cup {[op |-> "close", exc |-> x] : x \in BOOLEAN}
  \cup {[op |-> "auto", auto |-> a] : a \in BOOLEAN} \cup {[op |-> "path", p |-> p] : p \in 1..3}
  \cup {[op |-> "write", p |-> p, c |-> c] : p \in 1..2, c \in {"", "\n", Head01 \o "\n# w"}} \cup {[op |-> "unlink", p |-> p] : p \in 1..2}
INSTANCE MC
=============================================================================
