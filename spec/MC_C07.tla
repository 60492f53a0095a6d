------------------------------- MODULE MC_C07 -------------------------------
EXTENDS C07, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
L1 == {"Source: http://h/%{m}", "SOURCE03: a/b#/c=d", "Source1: %{m}", "Patch: p", "# c", "%if 0", "%endif", "Source11: z"}
LL == {<<>>, <<"x", "", "# k", " y/z ">>}
Docs == UNION {[1..k -> L1] : k \in 1..Size}
Inits == {[kind |-> "Source", pre |-> d, lists |-> l, macros |-> <<<<"m", "v/w">>>>] :
            d \in Docs, l \in {<<>>} \cup {<<a>> : a \in LL} \cup {<<a, b>> : a, b \in LL}}
Events(s) == {[op |-> "look"], [op |-> "slice", sl |-> <<None, None, -1>>], [op |-> "slice", sl |-> <<1, 3, None>>],
              [op |-> "index", i |-> -1], [op |-> "index", i |-> 1], [op |-> "count", loc |-> "%{m}"]}
INSTANCE MC
=============================================================================
