------------------------------- MODULE MC_C20 -------------------------------
(* All short histories of copying and editing, per kind of list, and of      *)
(* whole spec files.                                                         *)
EXTENDS C20, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
E0(m, s) == [m |-> m, s |-> s]
Kinds == {"tags", "comments", "changelog", "defs", "prep", "sourcelist", "sections"}
ListInit(c) == [cls |-> c, el |-> <<E0("1", <<>>), E0("2", <<>>)>>, hs |-> <<[k |-> <<1, 2>>, own |-> <<>>]>>, vs |-> <<>>]
V0 == [text |-> "a", macros |-> "x", autosave |-> "F", dir |-> "A"]
SpecInit == [cls |-> "spec", el |-> <<>>, hs |-> <<>>, vs |-> <<V0>>]
Inits == {ListInit(c) : c \in Kinds} \cup {SpecInit}
NH(s) == Len(s.hs)
Live(s) == UNION {Kids(s, h) : h \in 1..NH(s)}
ListEvents(s) ==
  (IF NH(s) >= 3 THEN {} ELSE
     {[op |-> "deep", h |-> h, how |-> w] : h \in 1..NH(s), w \in {"deepcopy", "repr"}}
     \cup {[op |-> "shallow", h |-> h, how |-> w] : h \in 1..NH(s), w \in {"copy", "copy()"}}
     \cup {[op |-> "slice", h |-> h, a |-> 0, b |-> 2, step |-> p] : h \in 1..NH(s), p \in {1, -1}})
  \cup {[op |-> "main", e |-> e, v |-> "9"] : e \in Live(s)}
  \cup (IF Size > 1 THEN {[op |-> "sub", e |-> e, v |-> "c"] : e \in {e \in Live(s) : s.cls \notin {"defs", "comments"} /\ Len(s.el[e].s) < 2}} ELSE {})
  \cup {[op |-> "del", h |-> h, i |-> 1] : h \in {h \in 1..NH(s) : Len(s.hs[h].k) > 0}}
  \cup {[op |-> "add", h |-> h, v |-> "5", front |-> f] : h \in {h \in 1..NH(s) : Len(s.hs[h].k) < 3}, f \in {TRUE, FALSE}}
  \cup {[op |-> "rev", h |-> h] : h \in {h \in 1..NH(s) : Len(s.hs[h].k) > 1}}
SpecEvents(s) ==
  LET n == Len(s.vs) IN
  (IF n >= 3 THEN {} ELSE {[op |-> "dup", h |-> h, how |-> w] : h \in 1..n, w \in {"deepcopy", "repr"}}
                    \cup {[op |-> "within", h |-> h, f |-> "text", v |-> "w", how |-> w] : h \in 1..n, w \in {"lines", "sections", "tags"}})
  \cup {[op |-> "set", h |-> h, f |-> p[1], v |-> p[2]] : h \in 1..n, p \in {<<"text", "b">>, <<"macros", "y">>, <<"autosave", "T">>, <<"dir", "B">>}}
  \cup {[op |-> "both", h |-> h, g |-> g, v |-> "p", w |-> "q"] : h \in 1..n, g \in 1..n}
Events(s) == IF s.hs = <<>> THEN {e \in SpecEvents(s) : e.op # "both" \/ e.h # e.g} ELSE ListEvents(s)
INSTANCE MC
=============================================================================
