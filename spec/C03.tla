-------------------------------- MODULE C03 ---------------------------------
(* The sections of a text as an editable view.                               *)
EXTENDS Sections

Start(init) == [v |-> ParseSecs(init.lines, init.macros), macros |-> init.macros]

Row(s) == [name |-> s.name, id |-> SecId(s), norm |-> NormId(s), script |-> IsScript(s), data |-> s.data,
           opt |-> OptText(s), raw |-> RawSec(s)]
View(s, err, found) ==
  [err |-> err, found |-> found, raw |-> RawSecs(s.v), items |-> [i \in 1..Len(s.v) |-> Row(s.v[i])]]
Ok(s) == [st |-> s, exp |-> View(s, "", -1)]
Err(s, e) == [st |-> s, exp |-> View(s, e, -1)]
\* edits of one section; <<>> if the line index is out of range
Edit(x, ev) ==
  LET n == Len(x.data)
      k == PyIdx(ev.k, n)
  IN CASE ev.f = "data" -> <<[x EXCEPT !.data = ev.d]>>
       [] ev.f = "set" -> IF k = 0 THEN <<>> ELSE <<[x EXCEPT !.data[k] = ev.t]>>
       [] ev.f = "del" -> IF k = 0 THEN <<>> ELSE <<[x EXCEPT !.data = DropAt(@, k)]>>
       [] ev.f = "ins" -> <<[x EXCEPT !.data = InsAt(@, PyIns(ev.k, n), ev.t)]>>
       [] ev.f = "app" -> <<[x EXCEPT !.data = Append(@, ev.t)]>>
       [] ev.f = "opt" -> IF HasSub(x.opts.optstring, "n:")
                          THEN <<[x EXCEPT !.opts = SetOpt(@, "n", ev.t), !.touched = TRUE]>> ELSE <<x>>
       [] ev.f = "upper" -> <<[x EXCEPT !.name = Upper(@)]>>
Without(q, S) == LET keep == Filt([k \in 1..Len(q) |-> k], LAMBDA k : k \notin S) IN [k \in 1..Len(keep) |-> q[keep[k]]]

Step(s, ev) ==
  LET n == Len(s.v) IN
  CASE ev.op = "look" -> Ok(s)
    [] ev.op = "edit" -> LET i == PyIdx(ev.i, n) IN
                         IF i = 0 THEN Err(s, "index")
                         ELSE LET e == Edit(s.v[i], ev)
                              IN IF e = <<>> THEN Err(s, "index") ELSE Ok([s EXCEPT !.v[i] = e[1]])
    [] ev.op = "find" -> LET k == FindSec(s.v, ev.n)
                         IN [st |-> s, exp |-> View(s, IF k = 0 THEN "value" ELSE "", k - 1)]
    [] ev.op = "setid" ->      \* sections.<id> = lines (of a section that exists)
         LET k == FindSec(s.v, ev.n) IN IF k = 0 THEN Ok(s) ELSE Ok([s EXCEPT !.v[k].data = ev.d])
    [] ev.op = "setsec" ->     \* sections.<id> = Section
         LET k == FindSec(s.v, ev.n) IN IF k = 0 THEN Ok(s) ELSE Ok([s EXCEPT !.v[k] = NewSec(ev.s)])
    [] ev.op = "delid" -> LET k == FindSec(s.v, ev.n) IN
                          IF k = 0 THEN Err(s, "attr") ELSE Ok([s EXCEPT !.v = DropAt(@, k)])
    [] ev.op = "del" -> IF PyIdx(ev.i, n) = 0 THEN Err(s, "index") ELSE Ok([s EXCEPT !.v = DropAt(@, PyIdx(ev.i, n))])
    [] ev.op = "dels" -> Ok([s EXCEPT !.v = Without(@, Rng(PySlice(ev.sl, n)))])
    [] ev.op = "ins" -> Ok([s EXCEPT !.v = InsAt(@, PyIns(ev.i, n), NewSec(ev.s))])
    [] ev.op = "app" -> Ok([s EXCEPT !.v = Append(@, NewSec(ev.s))])
    [] ev.op = "move" ->       \* insert(j, pop(i))
         LET i == PyIdx(ev.i, n) IN
         IF i = 0 THEN Err(s, "index")
         ELSE Ok([s EXCEPT !.v = InsAt(DropAt(@, i), PyIns(ev.j, n - 1), @[i])])
    [] ev.op = "reopen" -> Ok([s EXCEPT !.v = ParseSecs(RawSecs(s.v), s.macros)])

-----------------------------------------------------------------------------
(* The property                                                              *)
Start1(v, i) == Len(Flat([j \in 1..(i - 1) |-> RawSec(v[j])])) + 1
Span(v, i) == Start1(v, i)..(Start1(v, i) + Len(RawSec(v[i])) - 1)
OnlySection(a, b, i) == Len(a) = Len(b) /\ \A j \in (1..Len(a)) \ {i} : a[j] = b[j] /\ RawSec(a[j]) = RawSec(b[j])
Prop(s, ev, r) ==
  LET a == s.v
      b == r.st.v
      n == Len(a)
      ra == RawSecs(a)
      rb == RawSecs(b)
  IN CASE ev.op \in {"look", "find"} \/ r.exp.err # "" -> b = a
       [] ev.op = "edit" -> OnlySection(a, b, PyIdx(ev.i, n))
       [] ev.op = "setid" -> LET k == FindSec(a, ev.n) IN
                             IF k = 0 THEN b = a
                             ELSE OnlySection(a, b, k) /\ b[k].data = ev.d /\ SecId(b[k]) = SecId(a[k])
       [] ev.op = "setsec" -> LET k == FindSec(a, ev.n) IN IF k = 0 THEN b = a ELSE OnlySection(a, b, k)
       [] ev.op = "delid" -> rb = Without(ra, Span(a, FindSec(a, ev.n)))
       [] ev.op = "del" -> rb = Without(ra, Span(a, PyIdx(ev.i, n)))
       [] ev.op = "dels" -> rb = Without(ra, UNION {Span(a, i) : i \in Rng(PySlice(ev.sl, n))})
       [] ev.op \in {"ins", "app"} ->
            LET i == IF ev.op = "app" THEN n + 1 ELSE PyIns(ev.i, n)
            IN ra = Without(rb, Span(b, i)) /\ RawSec(b[i]) = <<"%" \o SecId(b[i])>> \o ev.s.data
       [] ev.op = "move" ->
            LET i == PyIdx(ev.i, n)
                j == PyIns(ev.j, n - 1)
            IN Without(ra, Span(a, i)) = Without(rb, Span(b, j)) /\ RawSec(a[i]) = RawSec(b[j])
       [] ev.op = "reopen" ->
            /\ rb = ra
            /\ b[1].pre /\ \A i \in 2..Len(b) : ~b[i].pre
            \* a line starts a section iff it is a header outside definition bodies
            /\ LET body == BodyLines(ParseDefs(rb, AllValid(rb)))
               IN {Start1(b, i) : i \in 2..Len(b)} = {k \in 1..Len(rb) : k \notin body /\ IsHeader(rb[k])}
=============================================================================
