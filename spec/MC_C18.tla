------------------------------- MODULE MC_C18 -------------------------------
(* All combinations of up to Size referenced files.                          *)
EXTENDS C18, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
It(u, s) == [use |-> u, src |-> s, out |-> FALSE, long |-> FALSE]
Its == {It(u, TRUE) : u \in {"plain", "include", "load", "shell"}} \cup {It("include", FALSE)}
Ks == {"absent", "file", "empty", "dangling"}
ShellOnce(q) == Cardinality({i \in 1..Len(q) : q[i].use = "shell"}) <= 1
Inits == UNION {{[items |-> q, kinds |-> k, broken |-> b] : q \in {p \in [1..n -> Its] : ShellOnce(p)}, k \in [1..n -> Ks], b \in BOOLEAN} : n \in 1..Size}
Events(s) == {[op |-> "parse", force |-> f, fault |-> w, how |-> "new"] : f \in BOOLEAN, w \in {"", "write"}}
INSTANCE MC
=============================================================================
