-------------------------------- MODULE C04 ---------------------------------
(* Tags of a package section as an editable view.                            *)
EXTENDS Tags

NoEnv == [macros |-> <<>>, cpu |-> "x86_64", os |-> "linux"]
Start(init) == [v |-> ParseTagsIn(init.lines, NoEnv)]

NewTag(t) == [pre |-> t.pre, cs |-> t.cs, name |-> t.name, sep |-> t.sep, value |-> t.value,
              px |-> t.px, sx |-> t.sx, valid |-> TRUE]
Row(t) == [name |-> t.name, norm |-> Capitalize(t.name), value |-> t.value, cs |-> t.cs, valid |-> t.valid]
View(s, err, found) ==
  [err |-> err, found |-> found, raw |-> RawTags(s.v),
   items |-> [i \in 1..Len(s.v.items) |-> Row(s.v.items[i])],
   pos |-> [i \in 1..Len(s.v.items) |-> TagPos(s.v, i)]]
Ok(s) == [st |-> s, exp |-> View(s, "", -1)]
Err(s, e) == [st |-> s, exp |-> View(s, e, -1)]
Put(s, i, t) == [s EXCEPT !.v.items[i] = t]
C(t) == [p |-> "# ", t |-> t]

\* edits of one tag (with its comments); <<>> if the comment index is out of range
Edit(t, ev) ==
  LET n == Len(t.cs) IN
  CASE ev.f = "value" -> <<[t EXCEPT !.value = ev.v]>>
    [] ev.f = "name" -> <<[t EXCEPT !.name = ev.v]>>
    [] ev.f = "ctext" -> IF PyIdx(ev.k, n) = 0 THEN <<>> ELSE <<[t EXCEPT !.cs[PyIdx(ev.k, n)].t = ev.v]>>
    [] ev.f = "cprefix" -> IF PyIdx(ev.k, n) = 0 THEN <<>> ELSE <<[t EXCEPT !.cs[PyIdx(ev.k, n)].p = ev.v]>>
    [] ev.f = "cset" -> IF PyIdx(ev.k, n) = 0 THEN <<>> ELSE <<[t EXCEPT !.cs[PyIdx(ev.k, n)].t = ev.v]>>
    [] ev.f = "cobj" -> IF PyIdx(ev.k, n) = 0 THEN <<>> ELSE <<[t EXCEPT !.cs[PyIdx(ev.k, n)] = C(ev.v)]>>
    [] ev.f = "cdel" -> IF PyIdx(ev.k, n) = 0 THEN <<>> ELSE <<[t EXCEPT !.cs = DropAt(@, PyIdx(ev.k, n))]>>
    [] ev.f = "cins" -> <<[t EXCEPT !.cs = InsAt(@, PyIns(ev.k, n), C(ev.v))]>>
    [] ev.f = "capp" -> <<[t EXCEPT !.cs = Append(@, C(ev.v))]>>
    [] ev.f = "cext" -> <<[t EXCEPT !.cs = @ \o <<C(ev.v), C("2")>>]>>
    [] ev.f = "cclear" -> <<[t EXCEPT !.cs = <<>>]>>

Step(s, ev) ==
  LET n == Len(s.v.items) IN
  CASE ev.op = "look" -> Ok(s)
    [] ev.op = "edit" -> LET i == PyIdx(ev.i, n) IN
                         IF i = 0 THEN Err(s, "index")
                         ELSE LET e == Edit(s.v.items[i], ev)
                              IN IF e = <<>> THEN Err(s, "index") ELSE Ok(Put(s, i, e[1]))
    [] ev.op = "setname" ->
         LET k == FindTag(s.v, ev.n) IN IF k = 0 THEN Ok(s) ELSE Ok(Put(s, k, [s.v.items[k] EXCEPT !.value = ev.v]))
    [] ev.op = "find" ->
         LET k == IF ev.pos < 0 THEN FindTag(s.v, ev.n) ELSE FindTagAt(s.v, ev.n, ev.pos)
         IN [st |-> s, exp |-> View(s, IF k = 0 THEN "value" ELSE "", k - 1)]
    [] ev.op = "del" -> IF PyIdx(ev.i, n) = 0 THEN Err(s, "index")
                        ELSE Ok([s EXCEPT !.v = DelTag(s.v, PyIdx(ev.i, n))])
    [] ev.op = "dels" -> Ok([s EXCEPT !.v = DelTags(s.v, Rng(PySlice(ev.sl, n)))])
    [] ev.op = "delname" -> LET k == FindTag(s.v, ev.n) IN
                            IF k = 0 THEN Err(s, "attr") ELSE Ok([s EXCEPT !.v = DelTag(s.v, k)])
    [] ev.op = "ins" -> Ok([s EXCEPT !.v = InsTag(s.v, PyIns(ev.i, n), NewTag(ev.t))])
    [] ev.op = "app" -> Ok([s EXCEPT !.v = InsTag(s.v, n + 1, NewTag(ev.t))])
    [] ev.op = "ext" -> Ok([s EXCEPT !.v = InsTag(InsTag(s.v, n + 1, NewTag(ev.t)), n + 2, NewTag(ev.t))])
    [] ev.op = "reopen" -> Ok([s EXCEPT !.v = ParseTagsIn(RawTags(s.v), NoEnv)])

-----------------------------------------------------------------------------
(* The property                                                              *)
\* lines of tag i with its comments: <<first, last>>, 1-based
Span(v, i) == <<TagPos(v, i) + 1 - Len(v.items[i].cs), TagPos(v, i) + Len(TagLines(v.items[i]))>>
Without(lines, S) == LET keep == Filt([k \in 1..Len(lines) |-> k], LAMBDA k : k \notin S)
                     IN [k \in 1..Len(keep) |-> lines[keep[k]]]
SpanSet(v, S) == UNION {Span(v, i)[1]..Span(v, i)[2] : i \in S}
NonBlank(lines) == Filt(lines, LAMBDA x : x # "")
OnlyItem(a, b, i) ==
  LET x == Span(a, i)
      ra == RawTags(a)
      rb == RawTags(b)
      k == Len(rb) - Len(ra)
  IN /\ SubSeq(rb, 1, x[1] - 1) = SubSeq(ra, 1, x[1] - 1)
     /\ SubSeq(rb, x[2] + k + 1, Len(rb)) = SubSeq(ra, x[2] + 1, Len(ra))
Bare(t) == [t EXCEPT !.pre = <<>>]
Others(a, b, i) == DropAt(a.items, i) = DropAt(b.items, i)
Removed(a, b, S) ==
  /\ NonBlank(RawTags(b)) = NonBlank(Without(RawTags(a), SpanSet(a, S)))
  /\ LET keep == Filt([k \in 1..Len(a.items) |-> k], LAMBDA k : k \notin S)
     IN [k \in 1..Len(keep) |-> Bare(a.items[keep[k]])] = [k \in 1..Len(b.items) |-> Bare(b.items[k])]
Inserted(a, b, i, t) ==
  /\ [k \in 1..Len(a.items) |-> Bare(a.items[k])] = [k \in 1..Len(a.items) |-> Bare(DropAt(b.items, i)[k])]
  /\ Len(b.items) = Len(a.items) + 1
  /\ Bare(b.items[i]) = Bare(t)
  /\ Without(RawTags(b), (Span(b, i)[1] - Len(t.pre))..Span(b, i)[2]) = RawTags(a)
  \* not inside a condition block that ends before the next tag
  /\ LastUnmatchedEndif(IF i < Len(b.items) THEN b.items[i + 1].pre ELSE b.rest) = 0
Prop(s, ev, r) ==
  LET a == s.v
      b == r.st.v
      n == Len(a.items)
  IN CASE ev.op \in {"look", "find"} \/ r.exp.err # "" -> b = a
       [] ev.op = "edit" -> OnlyItem(a, b, PyIdx(ev.i, n)) /\ Others(a, b, PyIdx(ev.i, n))
       [] ev.op = "setname" -> LET i == FindTag(a, ev.n) IN
                               IF i = 0 THEN a = b ELSE OnlyItem(a, b, i) /\ Others(a, b, i)
       [] ev.op = "del" -> Removed(a, b, {PyIdx(ev.i, n)})
       [] ev.op = "dels" -> Removed(a, b, Rng(PySlice(ev.sl, n)))
       [] ev.op = "delname" -> Removed(a, b, {FindTag(a, ev.n)})
       [] ev.op = "ins" -> Inserted(a, b, PyIns(ev.i, n), NewTag(ev.t))
       [] ev.op = "app" -> Inserted(a, b, n + 1, NewTag(ev.t))
       [] ev.op = "ext" -> Len(b.items) = n + 2
       [] ev.op = "reopen" ->
            /\ RawTags(b) = RawTags(a)
            /\ \A i \in 1..Len(b.items) : TagOn(RawTags(b)[TagPos(b, i) + 1]).ok
            /\ LET own == SpanSet(b, 1..Len(b.items))
               IN \A k \in 1..Len(RawTags(b)) : TagOn(RawTags(b)[k]).ok => k \in own
            \* comments directly above belong to the tag
            /\ \A i \in 1..Len(b.items) : LET p == b.items[i].pre IN p = <<>> \/ ~CommentOf(p[Len(p)]).ok
=============================================================================
