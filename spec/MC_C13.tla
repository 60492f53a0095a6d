------------------------------- MODULE MC_C13 -------------------------------
(* All values over an alphabet up to MaxLen, built symbol by symbol.         *)
EXTENDS C13, Json
CONSTANTS Which, MaxLen
VARIABLES v, n
Alphabet == CASE Which = 1 -> {"a", "%", "{", "}", "(", ")", "?", "!", ":", " ", "*", "\\"}
              [] Which = 2 -> {"%{", "}", "%", "a", ":", "?", " "}
              [] Which = 3 -> {"%(", "%[", "(", ")", "[", "]", "\\", "%%", "b"}
              [] Which = 4 -> {"%?", "-", "*", "#", "a", "1", "_", "!", "%"}
              [] Which = 5 -> {"%{?", "x:", "}", "\\}", "{", "%%", "é", "\t", "%!?b"}
Init == v = "" /\ n = 0
Next == n < MaxLen /\ \E a \in Alphabet : v' = v \o a /\ n' = n + 1
Spec == Init /\ [][Next]_<<v, n>>
Delimited == DelimitingOK(v)
Emit == PrintT("@@CASE " \o ToJson([v |-> v, exp |-> Obs(v)]))
\* appending to a terminated value never changes the nodes already closed
StableClosed == [][LET r == Parse(v) q == Parse(v')
                   IN (r.ok /\ q.ok /\ Len(r.nodes) > 1)
                      => SubSeq(q.nodes, 1, Len(r.nodes) - 1) = SubSeq(r.nodes, 1, Len(r.nodes) - 1)]_<<v, n>>
=============================================================================
