------------------------------ MODULE MacroDefs -----------------------------
(* %global / %define lines (specfile.macro_definitions).                     *)
(* A definition is a record with the text it is made of:                     *)
(*   pre (lines above that are no definitions), ws0 [%dnl] prefix sc keyword *)
(*   ws1 name ws2 body ws3; style "dnl", "hash" or "other".                  *)
EXTENDS ValueNodes

NoDef == [ok |-> FALSE]
\* keyword, white space, name, white space, body, rest from position i
MatchRest(s, i) ==
  LET kw == IF StartsAt(s, i, "global") THEN "global" ELSE IF StartsAt(s, i, "define") THEN "define" ELSE ""
      a == i + 6
      b == SpanEnd(s, a, SpaceC)
      w == SpanEnd(s, b, Word)
      \* optional parenthesized argument string: the first `)' followed by white space
      close == LET S == {k \in w..Len(s) : Ch(s, k) = ")" /\ k < Len(s) /\ Ch(s, k + 1) \in SpaceC}
               IN IF w <= Len(s) /\ Ch(s, w) = "(" /\ S # {} THEN CHOOSE k \in S : \A j \in S : k <= j ELSE 0
      e == IF w <= Len(s) /\ Ch(s, w) = "(" THEN close + 1 ELSE w      \* behind the name
      f == SpanEnd(s, e, SpaceC)                                     \* start of the body
      t == IF LastChar(s) = "\\" /\ Len(s) >= f THEN Len(s) - 1 ELSE SpanBack(s, Len(s), SpaceC)
  IN IF kw = "" \/ b = a \/ w = b \/ e = 1 \/ f = e \/ e > Len(s) THEN NoDef
     ELSE [ok |-> TRUE, kw |-> kw, ws1 |-> Sub(s, a, b - 1), name |-> Sub(s, b, e - 1),
           ws2 |-> Sub(s, e, f - 1), body |-> Sub(s, f, Max2(t, f - 1)), ws3 |-> From(s, Max2(t, f - 1) + 1)]

\* first candidate position k (a `%' in from..) such that the rest matches behind it
FirstPercent(s, from) ==
  LET S == {k \in from..Len(s) : Ch(s, k) = "%" /\ MatchRest(s, k + 1).ok}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j

MatchDef(s) ==
  LET a == SpanEnd(s, 1, SpaceC)
      dnl == StartsAt(s, a, "%dnl")
      st == IF dnl THEN a + 4 ELSE a
      k == IF dnl THEN FirstPercent(s, st)
           ELSE IF StartsAt(s, st, "#")
           THEN LET p == FirstPercent(s, st + 1) IN IF p # 0 THEN p ELSE st
           ELSE IF StartsAt(s, st, "%") THEN st ELSE 0
      m == IF k = 0 THEN NoDef ELSE MatchRest(s, k + 1)
      sc == Sub(s, st, k)
  IN IF ~HasSub(s, "global") /\ ~HasSub(s, "define") THEN NoDef
     ELSE IF k = 0 \/ ~m.ok THEN NoDef
     ELSE [ok |-> TRUE, ws0 |-> UpTo(s, a - 1), dnl |-> dnl, sc |-> sc, m |-> m]

\* trailing white space of a body goes to ws3
Finish(pre, d, body, ws3, valid) ==
  LET k == SpanBack(body, Len(body), Blank)
      escaped == Len(d.sc) > 1 /\ EndsWith(d.sc, "%%")
      hashed == EndsWith(d.sc, "#")
      hash == HasSub(d.sc, "#")
  IN [pre |-> pre, ws0 |-> d.ws0, ws1 |-> d.m.ws1, ws2 |-> d.m.ws2, ws3 |-> From(body, k + 1) \o ws3,
      prefix |-> IF Len(d.sc) > 1 THEN UpTo(d.sc, Len(d.sc) - 1) ELSE "",
      name |-> d.m.name, body |-> UpTo(body, k), glob |-> d.m.kw = "global",
      out |-> d.dnl \/ hashed \/ (escaped /\ hash),
      style |-> IF hashed THEN "hash" ELSE IF ~d.dnl /\ escaped /\ hash THEN "other" ELSE "dnl",
      valid |-> valid]

Continues(body) == LET c == CountBrackets(body) IN c[1] > 0 \/ c[2] > 0 \/ LastChar(body) = "\\"

\* valid: sequence of booleans, one per line
ParseDefs(lines, valid) ==
  LET RECURSIVE f(_, _, _), g(_, _)
      \* <<body, next line>> of a definition whose body so far is b and next line is i
      g(b, i) == IF Continues(b) /\ i <= Len(lines) THEN g(b \o "\n" \o lines[i], i + 1) ELSE <<b, i>>
      f(i, items, buf) ==
        IF i > Len(lines) THEN [items |-> items, rest |-> buf]
        ELSE LET d == MatchDef(lines[i]) IN
             IF ~d.ok THEN f(i + 1, items, Append(buf, lines[i]))
             ELSE IF d.dnl \/ EndsWith(d.sc, "#") \/ (Len(d.sc) > 1 /\ EndsWith(d.sc, "%%"))
             THEN f(i + 1, Append(items, Finish(buf, d, d.m.body, d.m.ws3, valid[i])), <<>>)
             ELSE LET q == g(d.m.body \o d.m.ws3, i + 1)
                  IN f(q[2], Append(items, Finish(buf, d, q[1], "", valid[i])), <<>>)
  IN f(1, <<>>, <<>>)
AllValid(lines) == [i \in 1..Len(lines) |-> TRUE]

DefText(d) ==
  d.ws0 \o (IF d.out /\ d.style = "dnl" THEN "%dnl" ELSE "") \o d.prefix
  \o (IF d.out /\ d.style = "hash" THEN "#" ELSE "%")
  \o (IF d.glob THEN "global" ELSE "define") \o d.ws1 \o d.name \o d.ws2 \o d.body \o d.ws3
DefLines(d) == Lines(DefText(d))
DefRaw(d) == d.pre \o DefLines(d)
RawDefs(v) == Flat([i \in 1..Len(v.items) |-> DefRaw(v.items[i])]) \o v.rest
\* 0-based line number of item i
DefPos(v, i) == Len(Flat([j \in 1..(i - 1) |-> DefRaw(v.items[j])])) + Len(v.items[i].pre)
\* lines (1-based) occupied by definition bodies: no condition or section starts there
BodyLines(v) == UNION {(DefPos(v, i) + 1)..(DefPos(v, i) + Len(Lines(v.items[i].body))) : i \in 1..Len(v.items)}

FindDef(v, name) ==
  LET ok == FirstIdx(v.items, LAMBDA d : d.name = name /\ d.valid)
  IN IF ok # 0 THEN ok ELSE FirstIdx(v.items, LAMBDA d : d.name = name)
FindDefAt(v, name, pos) ==
  LET S == {i \in 1..Len(v.items) : v.items[i].name = name /\ DefPos(v, i) = pos}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

DelDef(v, i) ==
  LET pre == v.items[i].pre
      its == DropAt(v.items, i)
  IN IF i <= Len(its) THEN [v EXCEPT !.items = [its EXCEPT ![i] = [@ EXCEPT !.pre = pre \o @]]]
     ELSE [v EXCEPT !.items = its, !.rest = pre \o @]
RECURSIVE DelDefs(_, _)
DelDefs(v, S) == IF S = {} THEN v
                 ELSE LET k == CHOOSE x \in S : \A y \in S : y <= x IN DelDefs(DelDef(v, k), S \ {k})
=============================================================================
