-------------------------------- MODULE Tags --------------------------------
(* The tags of a package section with the comments above them                *)
(* (specfile.tags).                                                          *)
(*   tag: pre (other lines above), cs (comment lines [p, t]), name, sep,     *)
(*        value (may contain line breaks), px / sx (wrapper and white space) *)
EXTENDS Conditions, Names

\* comment lines directly above the end of buf
CommentOf(s) ==
  LET a == SpanEnd(s, 1, SpaceC) IN
  IF a <= Len(s) /\ Ch(s, a) = "#"
  THEN LET b == SpanEnd(s, a + 1, SpaceC) IN [ok |-> TRUE, p |-> UpTo(s, b - 1), t |-> From(s, b)]
  ELSE [ok |-> FALSE, p |-> "", t |-> ""]
SplitComments(buf) ==
  LET RECURSIVE f(_)
      f(k) == IF k >= 1 /\ CommentOf(buf[k]).ok THEN f(k - 1) ELSE k
      k == f(Len(buf))
  IN [pre |-> SubSeq(buf, 1, k),
      cs |-> [i \in 1..(Len(buf) - k) |-> [p |-> CommentOf(buf[k + i]).p, t |-> CommentOf(buf[k + i]).t]]]
CommentLines(cs) == [i \in 1..Len(cs) |-> cs[i].p \o cs[i].t]

NoTag == [ok |-> FALSE]
\* end of the name of tag n at the start of s
NameEnd(s, n) ==
  LET e == Len(n) + 1 IN
  IF n \in {"source", "patch"} THEN SpanEnd(s, e, Digit)
  ELSE IF n \in ArgTags
  THEN LET a == SpanEnd(s, e, SpaceC) IN
       IF a <= Len(s) /\ Ch(s, a) = "("
       THEN LET b == SpanEnd(s, a + 1, SpaceC)
                c == FindAny(s, b, SpaceC \cup {")"})
                d == SpanEnd(s, c, SpaceC)
            IN IF d <= Len(s) /\ Ch(s, d) = ")" THEN d + 1 ELSE e
       ELSE e
  ELSE e
\* names consist of letters only and end before the number, argument or colon
MatchTag(s) ==
  LET n == Lower(UpTo(s, SpanEnd(s, 1, AsciiLetter) - 1)) IN
  IF n \notin TagNames THEN NoTag
  ELSE LET e == NameEnd(s, n)
           a == SpanEnd(s, e, SpaceC)
           b0 == SpanEnd(s, a + 1, SpaceC)
           b == IF b0 > Len(s) THEN Len(s) ELSE b0     \* the value is not empty
       IN IF a < Len(s) /\ Ch(s, a) = ":"
          THEN [ok |-> TRUE, name |-> UpTo(s, e - 1), sep |-> Sub(s, e, b - 1), value |-> From(s, b)]
          ELSE NoTag

TrailWS(s) == From(s, SpanBack(s, Len(s), Blank) + 1)
NoTrail(s) == UpTo(s, SpanBack(s, Len(s), Blank))

\* tag starting on line s (with its wrapper)
TagOn(s) ==
  LET w == SplitCond(NoTrail(s))
      m == MatchTag(w[1])
  IN IF ~HasSub(s, ":") \/ ~m.ok THEN NoTag ELSE [ok |-> TRUE, m |-> m, px |-> w[2], sx |-> w[3]]

ParseTags(lines, valid) ==
  LET RECURSIVE f(_, _, _), g(_, _, _)
      g(v, ws, i) == LET c == CountBrackets(v) IN
                     IF (c[1] > 0 \/ c[2] > 0) /\ i <= Len(lines)
                     THEN g(v \o ws \o "\n" \o NoTrail(lines[i]), TrailWS(lines[i]), i + 1) ELSE <<v, ws, i>>
      f(i, items, buf) ==
        IF i > Len(lines) THEN [items |-> items, rest |-> buf]
        ELSE LET t == TagOn(lines[i]) IN
             IF ~t.ok THEN f(i + 1, items, Append(buf, lines[i]))
             ELSE LET q == IF t.sx # "" THEN <<t.m.value, TrailWS(lines[i]), i + 1>>
                           ELSE g(t.m.value, TrailWS(lines[i]), i + 1)
                      c == SplitComments(buf)
                  IN f(q[3], Append(items, [pre |-> c.pre, cs |-> c.cs, name |-> t.m.name, sep |-> t.m.sep,
                                            value |-> q[1], px |-> t.px, sx |-> t.sx \o q[2],
                                            valid |-> valid[i]]), <<>>)
  IN f(1, <<>>, <<>>)
ParseTagsIn(lines, env) ==
  ParseTags(lines, ProcessConditions(lines, BodyLines(ParseDefs(lines, AllValid(lines))), env))

TagLines(t) == Lines(t.px \o t.name \o t.sep \o t.value \o t.sx)
TagRaw(t) == t.pre \o CommentLines(t.cs) \o TagLines(t)
RawTags(v) == Flat([i \in 1..Len(v.items) |-> TagRaw(v.items[i])]) \o v.rest
TagPos(v, i) == Len(Flat([j \in 1..(i - 1) |-> TagRaw(v.items[j])])) + Len(v.items[i].pre) + Len(v.items[i].cs)

SameName(a, b) == Lower(a) = Lower(b)
FindTag(v, name) ==
  LET ok == FirstIdx(v.items, LAMBDA t : SameName(t.name, name) /\ t.valid)
  IN IF ok # 0 THEN ok ELSE FirstIdx(v.items, LAMBDA t : SameName(t.name, name))
FindTagAt(v, name, pos) ==
  LET S == {i \in 1..Len(v.items) : SameName(v.items[i].name, name) /\ TagPos(v, i) = pos}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* removal keeps the lines above, compressing blank lines where they meet
RECURSIVE DropBlankL(_), DropBlankR(_)
DropBlankL(q) == IF q # <<>> /\ q[1] = "" THEN DropBlankL(Tail(q)) ELSE q
DropBlankR(q) == IF q # <<>> /\ q[Len(q)] = "" THEN DropBlankR(SubSeq(q, 1, Len(q) - 1)) ELSE q
MergeLines(a, b) ==
  DropBlankR(a)
  \o (IF (a # <<>> /\ a[Len(a)] = "") \/ (b # <<>> /\ b[1] = "") THEN <<"">> ELSE <<>>)
  \o DropBlankL(b)
DelTag(v, i) ==
  LET pre == v.items[i].pre
      its == DropAt(v.items, i)
  IN IF i <= Len(its) THEN [v EXCEPT !.items = [its EXCEPT ![i] = [@ EXCEPT !.pre = MergeLines(pre, @)]]]
     ELSE [v EXCEPT !.items = its, !.rest = MergeLines(pre, @)]
RECURSIVE DelTags(_, _)
DelTags(v, S) == IF S = {} THEN v
                 ELSE LET k == CHOOSE x \in S : \A y \in S : y <= x IN DelTags(DelTag(v, k), S \ {k})

\* the last %endif in the lines whose %if is not among them (0: none)
LastUnmatchedEndif(lines) ==
  LET RECURSIVE f(_, _, _)
      f(i, depth, at) ==
        IF i > Len(lines) THEN at
        ELSE LET s == LStrip(lines[i]) IN
             IF StartsWith(s, "%endif")
             THEN (IF depth <= 0 THEN f(i + 1, depth, i) ELSE f(i + 1, depth - 1, at))
             ELSE IF StartsWith(s, "%if") THEN f(i + 1, depth + 1, at)
             ELSE f(i + 1, depth, at)
  IN f(1, 0, 0)
\* insertion as item p: the new tag goes behind any condition block ending there
InsTag(v, p, t) ==
  LET last == p > Len(v.items)
      lines == IF last THEN v.rest ELSE v.items[p].pre
      k == LastUnmatchedEndif(lines)
      new == [t EXCEPT !.pre = SubSeq(lines, 1, k) \o t.pre]
      left == SubSeq(lines, k + 1, Len(lines))
  IN IF last THEN [v EXCEPT !.items = Append(@, new), !.rest = left]
     ELSE [v EXCEPT !.items = InsAt([@ EXCEPT ![p] = [@ EXCEPT !.pre = left]], p, new)]
=============================================================================
