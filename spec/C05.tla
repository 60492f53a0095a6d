-------------------------------- MODULE C05 ---------------------------------
(* The list of macro definitions of a text as an editable view.              *)
EXTENDS Conditions

NoEnv == [macros |-> <<>>, cpu |-> "x86_64", os |-> "linux"]
ParseIn(lines, cond) == IF cond THEN ParseDefsIn(lines, NoEnv) ELSE ParseDefs(lines, AllValid(lines))

\* state: the parsed view and whether conditions are processed
Start(init) == [v |-> ParseIn(init.lines, init.cond), cond |-> init.cond]

NewDef(d) ==
  [pre |-> d.pre, ws0 |-> d.ws[1], ws1 |-> d.ws[2], ws2 |-> d.ws[3], ws3 |-> d.ws[4], prefix |-> "",
   name |-> d.name, body |-> d.body, glob |-> d.glob, out |-> d.out, style |-> d.style, valid |-> TRUE]

Row(d) == [name |-> d.name, body |-> d.body, glob |-> d.glob, out |-> d.out, style |-> d.style, valid |-> d.valid]
View(s, err, found) ==
  [err |-> err, found |-> found, raw |-> RawDefs(s.v),
   items |-> [i \in 1..Len(s.v.items) |-> Row(s.v.items[i])],
   pos |-> [i \in 1..Len(s.v.items) |-> DefPos(s.v, i)],
   text |-> [i \in 1..Len(s.v.items) |-> DefText(s.v.items[i])]]
Ok(s) == [st |-> s, exp |-> View(s, "", -1)]
Err(s, e) == [st |-> s, exp |-> View(s, e, -1)]
Put(s, i, d) == [s EXCEPT !.v.items[i] = d]

Edit(d, ev) ==
  CASE ev.f = "body" -> [d EXCEPT !.body = ev.v]
    [] ev.f = "name" -> [d EXCEPT !.name = ev.v]
    [] ev.f = "style" -> [d EXCEPT !.style = ev.v]
    [] ev.f = "glob" -> [d EXCEPT !.glob = ev.b]
    [] ev.f = "out" -> [d EXCEPT !.out = ev.b]

Step(s, ev) ==
  LET n == Len(s.v.items) IN
  CASE ev.op = "look" -> Ok(s)
    [] ev.op = "edit" -> IF PyIdx(ev.i, n) = 0 THEN Err(s, "index")
                         ELSE Ok(Put(s, PyIdx(ev.i, n), Edit(s.v.items[PyIdx(ev.i, n)], ev)))
    [] ev.op = "setname" ->       \* assignment to the attribute named like a macro
         LET k == FindDef(s.v, ev.n) IN Ok(Put(s, k, [s.v.items[k] EXCEPT !.body = ev.v]))
    [] ev.op = "find" ->
         LET k == IF ev.pos < 0 THEN FindDef(s.v, ev.n) ELSE FindDefAt(s.v, ev.n, ev.pos)
         IN [st |-> s, exp |-> View(s, IF k = 0 THEN "value" ELSE "", k - 1)]
    [] ev.op = "del" -> IF PyIdx(ev.i, n) = 0 THEN Err(s, "index")
                        ELSE Ok([s EXCEPT !.v = DelDef(s.v, PyIdx(ev.i, n))])
    [] ev.op = "dels" -> Ok([s EXCEPT !.v = DelDefs(s.v, Rng(PySlice(ev.sl, n)))])
    [] ev.op = "delname" -> LET k == FindDef(s.v, ev.n) IN
                            IF k = 0 THEN Err(s, "attr") ELSE Ok([s EXCEPT !.v = DelDef(s.v, k)])
    [] ev.op = "ins" -> Ok([s EXCEPT !.v.items = InsAt(s.v.items, PyIns(ev.i, n), NewDef(ev.d))])
    [] ev.op = "app" -> Ok([s EXCEPT !.v.items = Append(s.v.items, NewDef(ev.d))])
    [] ev.op = "reopen" -> Ok([s EXCEPT !.v = ParseIn(RawDefs(s.v), s.cond)])

-----------------------------------------------------------------------------
(* The property                                                              *)
\* lines of item i within the whole text: <<first, last>>, 1-based
Span(v, i) == <<DefPos(v, i) + 1, DefPos(v, i) + Len(DefLines(v.items[i]))>>
Without(lines, S) == LET keep == Filt([k \in 1..Len(lines) |-> k], LAMBDA k : k \notin S)
                     IN [k \in 1..Len(keep) |-> lines[keep[k]]]
SpanSet(v, S) == UNION {Span(v, i)[1]..Span(v, i)[2] : i \in S}
\* only the lines of item i differ
OnlyItem(a, b, i) ==
  LET x == Span(a, i)
      ra == RawDefs(a)
      rb == RawDefs(b)
      k == Len(rb) - Len(ra)
  IN /\ SubSeq(rb, 1, x[1] - 1) = SubSeq(ra, 1, x[1] - 1)
     /\ SubSeq(rb, x[2] + k + 1, Len(rb)) = SubSeq(ra, x[2] + 1, Len(ra))
     /\ x[2] + k >= x[1]
Others(a, b, i) == DropAt(a.items, i) = DropAt(b.items, i)
\* definition texts that contain no line separator of their own except in the body
Prop(s, ev, r) ==
  LET a == s.v
      b == r.st.v
      n == Len(a.items)
  IN /\ r.st.cond = s.cond
     /\ CASE ev.op \in {"look", "find"} \/ r.exp.err # "" -> b = a
          [] ev.op = "edit" ->
               LET i == PyIdx(ev.i, n) IN
               /\ OnlyItem(a, b, i) /\ Others(a, b, i)
               /\ ev.f = "out" => RawDefs([b EXCEPT !.items[i].out = a.items[i].out]) = RawDefs(a)
          [] ev.op = "setname" -> LET i == FindDef(a, ev.n) IN OnlyItem(a, b, i) /\ Others(a, b, i)
          [] ev.op = "del" -> RawDefs(b) = Without(RawDefs(a), SpanSet(a, {PyIdx(ev.i, n)}))
          [] ev.op = "dels" -> RawDefs(b) = Without(RawDefs(a), SpanSet(a, Rng(PySlice(ev.sl, n))))
          [] ev.op = "delname" -> RawDefs(b) = Without(RawDefs(a), SpanSet(a, {FindDef(a, ev.n)}))
          [] ev.op \in {"ins", "app"} ->
               LET i == IF ev.op = "app" THEN n + 1 ELSE PyIns(ev.i, n)
                   d == NewDef(ev.d)
               IN /\ DropAt(b.items, i) = a.items
                  /\ Without(RawDefs(b), (DefPos(b, i) + 1 - Len(d.pre))..Span(b, i)[2]) = RawDefs(a)
          [] ev.op = "reopen" ->
               /\ RawDefs(b) = RawDefs(a)
               \* every definition line is listed exactly once, in order
               /\ \A i \in 1..Len(b.items) : MatchDef(RawDefs(b)[Span(b, i)[1]]).ok
               /\ LET own == SpanSet(b, 1..Len(b.items))
                  IN \A k \in 1..Len(RawDefs(b)) : MatchDef(RawDefs(b)[k]).ok => k \in own
=============================================================================
