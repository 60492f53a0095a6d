-------------------------------- MODULE C21 ---------------------------------
(* The process-wide macro table.  State: the definitions above the           *)
(* configuration, oldest first, as records [n, o, b, lv]; base: what the     *)
(* configuration defines of the names the histories use.                     *)
EXTENDS Expand

Start(init) == [T |-> init.base, base |-> init.base]
Level == [builtin |-> -20, default |-> -15, macrofiles |-> -13, rpmrc |-> -11, cmdline |-> -7, tarball |-> -5, spec |-> -3, oldspec |-> -1, global |-> 0]
D(n, o, b, lv) == [n |-> n, o |-> o, b |-> b, lv |-> lv]
\* the table as Expand wants it
Tab(T) == [i \in 1..Len(T) |-> <<T[i].n, T[i].b>>]
Without(T, n) == Filt(T, LAMBDA d : d.n # n)
TopOf(T, n) == T[LastIdx(T, LAMBDA d : d.n = n)]
Names(T) == {T[i].n : i \in 1..Len(T)}
\* continued lines come joined, a first empty line is dropped
RECURSIVE Unfold(_)
Unfold(b) == LET k == IndexFrom(b, 1, "\\\n") IN IF k = 0 THEN b ELSE UpTo(b, k - 1) \o Unfold(From(b, k + 2))
RECURSIVE NoLead(_)
NoLead(b) == IF b # "" /\ Ch(b, 1) = "\n" THEN NoLead(From(b, 2)) ELSE b
Pool21 == <<"vfa", "vfb", "VFC", "vf_d1", "dist">>
Item21(T, n) == [n |-> n, o |-> TopOf(T, n).o, b |-> NoLead(Unfold(TopOf(T, n).b)), lv |-> TopOf(T, n).lv]
Listed(T) == LET ns == Filt(Pool21, LAMBDA n : n \in Names(T)) IN [i \in 1..Len(ns) |-> Item21(T, ns[i])]
\* expressions rpm rejects, and how
Rejected == {<<"%{error:boom}", "boom">>, <<"%{!?vfa:%{error: two words}}%{?vfa:%{error:defined}}", "*">>, <<"%{vfa", "Unterminated {: {vfa">>,
             <<"%[1+]", "unexpected end of expression: 1+">>, <<"x%{error:boom}y%{error:bang}", "boom">>}
IsRejected(e) == \E x \in Rejected : x[1] = e
Why(T, e) == LET m == (CHOOSE x \in Rejected : x[1] = e)[2]
             IN IF m # "*" THEN m ELSE IF "vfa" \in Names(T) THEN "defined" ELSE "two words"
Out21(s, T, ret, err) == [st |-> [s EXCEPT !.T = T], exp |-> [ret |-> ret, err |-> err, listed |-> Listed(T), rest |-> "", complete |-> TRUE]]
Step(s, ev) ==
  CASE ev.op = "define" -> Out21(s, Append(Without(s.T, ev.n), D(ev.n, "", ev.b, -1)), "", "")
    [] ev.op = "remove" -> Out21(s, Without(s.T, ev.n), "", "")
    \* somebody else defines it (rpm stacks definitions)
    [] ev.op = "push" -> Out21(s, Append(s.T, D(ev.n, ev.o, ev.b, IF ev.how = "add" THEN -1 ELSE 0)), "", "")
    [] ev.op = "expand" -> IF IsRejected(ev.e) THEN Out21(s, s.T, Why(s.T, ev.e), "rpm") ELSE Out21(s, s.T, ExpandIn(Tab(s.T), ev.e), "")
    [] ev.op = "reinit" -> Out21(s, Filt(s.base, LAMBDA d : d.lv <= ev.lv), "", "")

-----------------------------------------------------------------------------
(* The property                                                              *)
Prop(s, ev, r) ==
  LET a == s.T
      b == r.st.T
      others(n) == Without(a, n) = Without(b, n)
      l == r.exp.listed
  IN /\ {l[i].n : i \in 1..Len(l)} = Names(b)
     /\ \A i, j \in 1..Len(l) : l[i].n = l[j].n => i = j
     /\ ev.op = "define" => /\ others(ev.n)
                            /\ Cardinality({i \in 1..Len(b) : b[i].n = ev.n}) = 1
                            /\ BodyOf(Tab(b), ev.n) = ev.b
     /\ ev.op = "remove" => others(ev.n) /\ ev.n \notin Names(b)
     /\ ev.op = "expand" => a = b
     /\ ev.op = "reinit" => \A i \in 1..Len(b) : b[i].lv <= ev.lv /\ b[i] \in Rng(s.base)
=============================================================================
