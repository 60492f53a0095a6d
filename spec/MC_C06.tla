------------------------------- MODULE MC_C06 -------------------------------
(* All sequences of condition directives up to a length.                     *)
EXTENDS C06, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
D == {"%if 1", "%if 0", "%elif 1", "%elif 0", "%else", "%endif", "Name: x"}
D2 == {"%if %{?va}", "%ifarch x86_64 noarch", "%ifnos linux", "  %else", "%endif ", "%global b %if", "Name: x", "%elif !0", "%ifnarch x86_64"}
RECURSIVE SeqsOf(_, _)
SeqsOf(A, n) == IF n = 0 THEN {<<>>} ELSE {Append(q, x) : q \in SeqsOf(A, n - 1), x \in A}
\* %else / %elif behind %else of the same block is an error in rpm
RECURSIVE Legal(_, _, _)
Legal(q, i, stack) ==
  IF i > Len(q) THEN TRUE
  ELSE LET k == MatchCond(q[i]).kw
           n == Len(stack)
       IN IF StartsWith(k, "%if") THEN Legal(q, i + 1, Append(stack, FALSE))
          ELSE IF k = "%endif" THEN Legal(q, i + 1, IF n = 0 THEN stack ELSE SubSeq(stack, 1, n - 1))
          ELSE IF StartsWith(k, "%el") /\ n > 0
          THEN ~stack[n] /\ Legal(q, i + 1, [stack EXCEPT ![n] = (k = "%else")])
          ELSE Legal(q, i + 1, stack)
Docs == {q \in SeqsOf(D, Size) \cup SeqsOf(D2, 3) : Legal(q, 1, <<>>)}
Inits == {[lines |-> d \o <<"Version: y">>, macros |-> m, cpu |-> "x86_64", os |-> "linux", stable |-> TRUE]
            : d \in Docs, m \in {<<<<"va", "1">>>>}}
Events(s) == {[op |-> "lines"]}
INSTANCE MC
=============================================================================
