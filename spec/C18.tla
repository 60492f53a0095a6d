-------------------------------- MODULE C18 ---------------------------------
(* What parsing does to the source directory and to the process.             *)
(* An item is a file the spec refers to: [use: plain / include / load /      *)
(* shell, src: it is a Source, out: it lies outside the source directory].   *)
(* st: [items, kinds: what is there for each of them, broken: the spec has   *)
(* an error of its own]                                                      *)
EXTENDS Text

Start(init) == [items |-> init.items, kinds |-> init.kinds, broken |-> init.broken]
Needed(i) == i.use \in {"include", "load", "shell"}
There(k) == k \in {"file", "link", "empty"}
Strange(k) == k \in {"dir", "loop"}
\* rpm cannot read the spec without it
Missing(s, j) == Needed(s.items[j]) /\ ~There(s.kinds[j])
\* a placeholder can be put in its place
Fakeable(s, j) == s.kinds[j] \in {"absent", "dangling"} /\ ~s.items[j].out /\ ~s.items[j].long
Items(s) == 1..Len(s.items)
\* an empty file makes the tag empty, and is not replaced
EmptyTag(s) == \E j \in Items(s) : s.items[j].use = "shell" /\ s.kinds[j] = "empty"
Unsure(s) == \E j \in Items(s) : Strange(s.kinds[j])
Outcome(s, force) ==
  LET missing == {j \in Items(s) : Missing(s, j)}
      tainted == force /\ \E j \in missing : Fakeable(s, j)
      fails == \/ s.broken \/ EmptyTag(s)
               \/ missing # {} /\ ~force
               \/ \E j \in missing : ~Fakeable(s, j)
  IN [err |-> IF fails THEN "rpm" ELSE "", tainted |-> ~fails /\ tainted]
Step(s, ev) ==
  CASE ev.op = "put" -> LET t == [s EXCEPT !.kinds[ev.j] = ev.kind] IN
                        [st |-> t, exp |-> [kinds |-> t.kinds]]
    [] ev.op = "parse" ->
         LET o == Outcome(s, ev.force)
             same == [kinds |-> s.kinds, touched |-> "", env |-> "", streams |-> "", temp |-> ""]
         IN [st |-> s, exp |-> IF Unsure(s) \/ ev.fault # "" THEN same @@ [known |-> TRUE] ELSE same @@ [known |-> TRUE, err |-> o.err, tainted |-> o.tainted]]

-----------------------------------------------------------------------------
(* The property                                                              *)
Prop(s, ev, r) ==
  ev.op = "parse" =>
    /\ r.st = s
    /\ r.exp.touched = "" /\ r.exp.env = "" /\ r.exp.streams = "" /\ r.exp.temp = ""
    /\ ~Unsure(s) /\ ev.fault = "" =>
       LET only == {j \in Items(s) : Missing(s, j)}
           sound == ~s.broken /\ ~EmptyTag(s)
       IN /\ ev.force /\ sound /\ (\A j \in only : Fakeable(s, j)) => r.exp.err = "" /\ (r.exp.tainted <=> only # {})
          /\ r.exp.err = "" /\ ~ev.force => only = {} /\ ~r.exp.tainted
=============================================================================
