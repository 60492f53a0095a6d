-------------------------------- MODULE C17 ---------------------------------
(* Several Specfile objects sharing rpm's macro table.                       *)
(* st: a sequence of slots, each [live, lines: preamble, macros: extra       *)
(* definitions [n, v, un], sd: source directory].  What an expansion gives   *)
(* depends on the object alone: rpm reads its lines over the configuration   *)
(* and the extra macros.                                                     *)
EXTENDS Update

Base17 == <<<<"dist", ".el9">>>>
Dead == [live |-> FALSE, lines |-> <<>>, macros |-> <<>>, sd |-> ""]
Obj(lines, macros, sd) == [live |-> TRUE, lines |-> lines, macros |-> macros, sd |-> sd]
Start(init) == [k \in 1..init.n |-> Dead]
Apply17(T, ms) == FoldLeft(LAMBDA t, m : LET u == Filt(t, LAMBDA d : d[1] # m.n) IN IF m.un THEN u ELSE Append(u, <<m.n, m.v>>), T, ms)
T0(o, extra) == Append(Apply17(Base17, o.macros \o extra), <<"_sourcedir", o.sd>>)
Reads(o, extra) == Sane(o.lines, T0(o, extra))
Tab17(o, extra) == Table(o.lines, T0(o, extra))
Srcs(o, extra) ==
  LET g == ParseTags(o.lines, ValidIn(o.lines, T0(o, extra)))
      s == Filt(g.items, LAMBDA t : t.valid /\ StartsWith(t.name, "Source"))
  IN Cat([i \in 1..Len(s) |-> "'" \o o.sd \o "/" \o s[i].value \o "' "])
NoTag17 == "!None"
TagText(o, name) ==
  LET g == ParseTags(o.lines, ValidIn(o.lines, T0(o, <<>>)))
      i == FirstIdx(g.items, LAMBDA t : Lower(t.name) = name)
  IN IF i = 0 THEN NoTag17 ELSE g.items[i].value
Pool17 == <<"vfa", "vfb", "vfc", "vfx", "vfy">>
Active(o) == LET T == Tab17(o, <<>>)
                 ns == Filt(Pool17, LAMBDA n : Defined(T, n))
             IN [i \in 1..Len(ns) |-> [n |-> ns[i], b |-> BodyOf(T, ns[i])]]
Nothing == <<>>
R17(s, ret, list, err) == [st |-> s, exp |-> [ret |-> ret, list |-> list, err |-> err]]
Step(s, ev) ==
  LET o == s[ev.k]
      ask(extra, ret, list) == IF ~o.live THEN R17(s, "", Nothing, "dead") ELSE IF ~Reads(o, extra) THEN R17(s, "", Nothing, "rpm") ELSE R17(s, ret, list, "")
      change(t) == IF ~o.live THEN R17(s, "", Nothing, "dead") ELSE R17([s EXCEPT ![ev.k] = t], "", Nothing, "")
  IN
  CASE ev.op = "new" -> LET t == Obj(ev.lines, ev.macros, "@A@") IN IF Reads(t, <<>>) THEN R17([s EXCEPT ![ev.k] = t], "", Nothing, "") ELSE R17(s, "", Nothing, "rpm")
    [] ev.op = "text" -> change([o EXCEPT !.lines = ev.lines])
    [] ev.op = "macros" -> change([o EXCEPT !.macros = ev.macros])
    [] ev.op = "add" -> change([o EXCEPT !.macros = Append(@, ev.m)])
    [] ev.op = "dir" -> change([o EXCEPT !.sd = ev.sd])
    [] ev.op = "copy" -> IF ~o.live THEN R17(s, "", Nothing, "dead") ELSE R17([s EXCEPT ![ev.j] = o], "", Nothing, "")
    [] ev.op = "del" -> R17([s EXCEPT ![ev.k] = Dead], "", Nothing, "")
    [] ev.op \in {"fail", "hold", "release"} -> ask(<<>>, "", Nothing)
    [] ev.op = "expand" -> ask(ev.extra, ExpandIn(Tab17(o, ev.extra), ev.e), Nothing)
    [] ev.op = "sources" -> ask(ev.extra, Srcs(o, ev.extra), Nothing)
    [] ev.op = "prop" -> IF o.live /\ TagText(o, ev.n) = NoTag17 THEN R17(s, NoTag17, Nothing, "") ELSE ask(<<>>, ExpandIn(Tab17(o, <<>>), TagText(o, ev.n)), Nothing)
    [] ev.op = "header" -> ask(<<>>, LET T == Tab17(o, <<>>) IN BodyOf(T, "name") \o "|" \o BodyOf(T, "version") \o "|" \o BodyOf(T, "release"), Nothing)
    [] ev.op = "parsed" -> ask(<<>>, "Version: " \o BodyOf(Tab17(o, <<>>), "version"), Nothing)
    [] ev.op = "active" -> ask(<<>>, "", Active(o))

-----------------------------------------------------------------------------
(* The property                                                              *)
Prop(s, ev, r) ==
  LET asks == ev.op \in {"fail", "expand", "sources", "prop", "header", "parsed", "active"} IN
  /\ asks => r.st = s
  \* the answer is that of a world where only this object exists
  /\ asks => Step([i \in 1..Len(s) |-> IF i = ev.k THEN s[i] ELSE Dead], ev).exp = r.exp
  /\ \A i \in 1..Len(s) : i # (IF ev.op = "copy" THEN ev.j ELSE ev.k) => r.st[i] = s[i]
=============================================================================
