-------------------------------- MODULE C10 ---------------------------------
(* add_changelog_entry: state is the text of the spec file and the macros.   *)
(* An event: text (content lines), author, email, evr ("!none": not given),  *)
(* ts [k: "date"/"dt"/"none", y, m, d, hms, tz], env: where the packager is  *)
(* looked up.  The current time comes from the recorded observation.         *)
EXTENDS Changelog, Sections, Packager

Start(init) == [lines |-> init.lines, macros |-> init.macros]
WDS == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MONS == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
WeekdayOf(y, m, d) ==
  LET t == <<0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4>>
      z == IF m < 3 THEN y - 1 ELSE y
  IN WDS[((z + (z \div 4) - (z \div 100) + (z \div 400) + t[m] + d) % 7) + 1]
\* a padding of blanks is kept, one that ends with zero means two digits
DayOf(d, pad) == IF EndsWith(pad, "0") THEN UpTo(pad, Len(pad) - 1) \o ZeroPad(d, 2) ELSE pad \o ToString(d)
HeadLine(t, pad, author, evr) ==
  "* " \o WeekdayOf(t.y, t.m, t.d) \o " " \o MONS[t.m] \o " " \o DayOf(t.d, pad)
  \o (IF t.k = "dt" THEN " " \o t.hms \o " " \o t.tz ELSE "") \o " " \o ToString(t.y) \o " " \o author \o " - " \o evr
Author(ev) == IF ev.author = NA THEN Packager(ev.env) ELSE ev.author \o (IF ev.email = NA THEN "" ELSE " <" \o ev.email \o ">")
Auto(sec) == \E i \in 1..Len(sec.data) : ~StartsWith(LStrip(sec.data[i]), "#") /\ Uses(sec.data[i], "autochangelog")
IsLog(sec) == NormId(sec) = "changelog"
DefaultEvr == "%{?epoch:%{epoch}:}%{version}-%{release}"
EvrOf(s, ev) == ExpandIn(s.macros, IF ev.evr = NA THEN DefaultEvr ELSE ev.evr)
\* padding of the entries: the longest, the newest of those
PadOf(g) ==
  FoldLeft(LAMBDA a, e : LET p == Padding(e.h) IN IF Len(p) > Len(a) THEN p ELSE a, "", Rev(g.es))
NewEntry(s, g, ev) ==
  LET n == Len(g.es)
      now == IF n > 0 /\ Extended(g.es[n].h) THEN ev.obs.local ELSE ev.obs.utc
      t == IF ev.ts.k = "none" THEN now ELSE ev.ts
  IN [h |-> HeadLine(t, IF n = 0 THEN "0" ELSE PadOf(g), Author(ev), EvrOf(s, ev)),
      c |-> Flat([i \in 1..Len(ev.text) |-> Lines(ev.text[i])]),
      f |-> IF n > 0 THEN <<"">> ELSE <<>>]
Updated(s, sec, ev) ==
  LET g == ParseLog(sec.data)
  IN [sec EXCEPT !.data = RawLog([g EXCEPT !.es = Append(@, NewEntry(s, g, ev))])]
Step(s, ev) ==
  CASE ev.op = "auto" ->
         LET v == ParseSecs(s.lines, s.macros)
         IN [st |-> s, exp |-> [auto |-> \E i \in 1..Len(v) : IsLog(v[i]) /\ Auto(v[i]), lines |-> s.lines]]
    [] ev.op = "add" ->
         LET v == ParseSecs(s.lines, s.macros)
             todo == {i \in 1..Len(v) : IsLog(v[i]) /\ ~Auto(v[i])}
             w == [i \in 1..Len(v) |-> IF i \in todo THEN Updated(s, v[i], ev) ELSE v[i]]
             fails == todo # {} /\ ev.author = NA /\ Packager(ev.env) = ""
             out == IF fails THEN s.lines ELSE RawSecs(w)
         IN [st |-> [s EXCEPT !.lines = out], exp |-> [err |-> IF fails THEN "author" ELSE "", lines |-> out]]

-----------------------------------------------------------------------------
(* The property                                                              *)
\* the lines in front of the changelog with number k, which are not of it
Prop(s, ev, r) ==
  ev.op = "add" /\ r.exp.err = "" =>
    LET a == ParseSecs(s.lines, s.macros)
        b == ParseSecs(r.st.lines, s.macros)
        nice == ev.text # <<>> /\ \A i \in 1..Len(ev.text) : Strip(ev.text[i]) # "" /\ ~HasAny(ev.text[i], {"*", "%", "\n", "{"})
    IN nice =>
       /\ Len(a) = Len(b)
       /\ \A i \in 1..Len(a) :
            IF IsLog(a[i]) /\ ~Auto(a[i])
            THEN LET g == ParseLog(a[i].data)
                     h == ParseLog(b[i].data)
                     n == Len(g.es)
                     e == h.es[n + 1]
                 IN /\ Len(h.es) = n + 1 /\ SubSeq(h.es, 1, n) = g.es /\ h.pre = g.pre
                    /\ e.c = ev.text
                    /\ HasSub(e.h, Author(ev)) /\ HasSub(e.h, EvrOf(s, ev))
                    \* what was written is read back
                    /\ ev.ts.k = "dt" => Extended(e.h)
                    /\ (ev.ts.k # "none" /\ ev.ts.d < 10) => Padding(e.h) = (IF n = 0 THEN "0" ELSE PadOf(g))
            ELSE a[i] = b[i]
=============================================================================
