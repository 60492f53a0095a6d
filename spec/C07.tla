-------------------------------- MODULE C07 ---------------------------------
(* Reading sources and patches.                                              *)
EXTENDS Sources

Start(init) ==
  [kind |-> init.kind, v |-> ParseTagsIn(init.pre, Env0(init.macros)),
   lists |-> Force([k \in 1..Len(init.lists) |-> ParseList(init.lists[k], Env0(init.macros))]),
   macros |-> init.macros, dup |-> FALSE, impl |-> FALSE, digits |-> 1]

Row(s, e) ==
  LET x == ExpandIn(s.macros, Loc(s, e)) IN
  [num |-> e.num, loc |-> Loc(s, e), cs |-> CommentLines(Cs(s, e)), valid |-> Val(s, e), file |-> FileName(Loc(s, e)),
   xloc |-> x, xfile |-> FileName(x), remote |-> Remote(x), tag |-> e.c = 0]
Rows(s, es) == [k \in 1..Len(es) |-> Row(s, es[k])]
Raw(s) == <<RawTags(s.v)>> \o [k \in 1..Len(s.lists) |-> RawList(s.lists[k])]

Step(s, ev) ==
  LET es == Entries(s)
      n == Len(es)
  IN CASE ev.op = "look" -> [st |-> s, exp |-> [items |-> Rows(s, es), len |-> n, raw |-> Raw(s)]]
       [] ev.op = "slice" -> LET ks == PySlice(ev.sl, n) IN
                             [st |-> s, exp |-> [items |-> [j \in 1..Len(ks) |-> Row(s, es[ks[j]])]]]
       [] ev.op = "index" -> LET k == PyIdx(ev.i, n) IN
                             [st |-> s, exp |-> IF k = 0 THEN [err |-> "index"] ELSE [err |-> "", item |-> Row(s, es[k])]]
       [] ev.op = "count" -> [st |-> s, exp |-> [count |-> Cardinality({k \in 1..n : Loc(s, es[k]) = ev.loc}),
                                                 has |-> \E k \in 1..n : Loc(s, es[k]) = ev.loc]]
       [] ev.op = "rpm" ->     \* what rpm itself says of the valid ones
            LET on == Filt(es, LAMBDA e : Val(s, e)) IN
            [st |-> s, exp |-> [items |-> [k \in 1..Len(on) |-> [num |-> on[k].num, loc |-> ExpandIn(s.macros, Loc(s, on[k]))]]]]

-----------------------------------------------------------------------------
(* The property, declaratively                                               *)
Prop(s, ev, r) ==
  LET es == Entries(s)
      n == Len(es)
      tagsOf == {i \in 1..Len(s.v.items) : IsKind(s.kind, s.v.items[i].name)}
  IN /\ r.st = s
     \* every tag and every list entry is listed exactly once, tags first, in order
     /\ {es[k].i : k \in {j \in 1..n : es[j].c = 0}} = tagsOf
     /\ \A c \in 1..Len(s.lists) : {es[k].i : k \in {j \in 1..n : es[j].c = c}} = 1..Len(s.lists[c].items)
     /\ \A j, k \in 1..n : j < k => es[j].c < es[k].c \/ (es[j].c = es[k].c /\ es[j].i < es[k].i)
     \* numbers: explicit, or one more than the previous entry
     /\ \A k \in 1..n :
          LET t == IF es[k].c = 0 THEN NumText(s.v.items[es[k].i].name) ELSE "" IN
          IF t # "" THEN StripZeros(t) = ToString(es[k].num)
          ELSE es[k].num = (IF k = 1 THEN 0 ELSE es[k - 1].num + 1)
=============================================================================
