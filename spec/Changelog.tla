------------------------------ MODULE Changelog -----------------------------
(* A changelog section: lines before the first header, and entries           *)
(* [h: header, c: content lines, f: blank lines behind it], oldest first.    *)
EXTENDS Evr

IsHead(l) == StartsWith(l, "*")
AllBlank(q) == \A i \in 1..Len(q) : Strip(q[i]) = ""
SplitTail(q) ==
  LET k == LastIdx(q, LAMBDA l : Strip(l) # "") IN [c |-> SubSeq(q, 1, k), f |-> SubSeq(q, k + 1, Len(q))]
Entry(h, body) == LET t == SplitTail(body) IN [h |-> h, c |-> t.c, f |-> t.f]
ParseLog(lines) ==
  LET RECURSIVE f(_, _, _, _)
      \* i: next line, h: position of the open header, es: entries, oldest first
      f(i, h, es, pre) ==
        LET body == SubSeq(lines, h + 1, i - 1) IN
        IF i > Len(lines)
        THEN [es |-> IF h = 0 THEN es ELSE <<Entry(lines[h], body)>> \o es, pre |-> pre]
        ELSE IF h = 0 THEN (IF IsHead(lines[i]) THEN f(i + 1, i, es, pre) ELSE f(i + 1, 0, es, Append(pre, lines[i])))
        \* a starred line directly under a header is content
        ELSE IF IsHead(lines[i]) /\ ~AllBlank(body) THEN f(i + 1, i, <<Entry(lines[h], body)>> \o es, pre)
        ELSE f(i + 1, h, es, pre)
  IN f(1, 0, <<>>, <<>>)
RawLog(g) == g.pre \o Flat([i \in 1..Len(g.es) |-> LET e == g.es[Len(g.es) + 1 - i] IN <<e.h>> \o e.c \o e.f])
DelAt(g, i) ==
  LET f == Tail(g.es[i].f)
      n == Len(g.es)
      keep == IF g.es[i].f = <<>> THEN <<>> ELSE f
  IN IF i < n THEN [g EXCEPT !.es = DropAt([@ EXCEPT ![i + 1].f = @ \o keep], i)]
     ELSE [g EXCEPT !.es = DropAt(@, i), !.pre = @ \o keep]
RECURSIVE DelSet(_, _)
DelSet(g, S) == IF S = {} THEN g ELSE LET k == CHOOSE x \in S : \A y \in S : y <= x IN DelSet(DelAt(g, k), S \ {k})

-----------------------------------------------------------------------------
(* header                                                                    *)
WD == {"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"}
MON == {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
DateAt(h, i) == /\ i + 7 <= Len(h) /\ Sub(h, i, i + 2) \in WD /\ Ch(h, i + 3) = " " /\ Sub(h, i + 4, i + 6) \in MON
                /\ Ch(h, i + 7) = " "
\* position of the day of month
DayPos(h, i) == SpanEnd(h, i + 8, {" "})
DayText(h, i) == LET d == DayPos(h, i) IN Sub(h, d, SpanEnd(h, d, Digit) - 1)
TwoDigits(t, lo, hi) == Len(t) = 2 /\ IsNumeric(t) /\ ToNat(t) \in lo..hi
ExtAt(h, i) ==
  LET d == DayPos(h, i)
      t == DayText(h, i)
      k == d + Len(t)             \* behind the day
      z == FindAny(h, k + 10, SpaceC)
  IN /\ DateAt(h, i) /\ t # "" /\ (Len(t) = 1 \/ TwoDigits(t, 0, 31))
     /\ k + 8 <= Len(h) /\ Ch(h, k) = " " /\ Ch(h, k + 3) = ":" /\ Ch(h, k + 6) = ":"
     /\ TwoDigits(Sub(h, k + 1, k + 2), 0, 23) /\ TwoDigits(Sub(h, k + 4, k + 5), 0, 59) /\ TwoDigits(Sub(h, k + 7, k + 8), 0, 59)
     /\ k + 9 <= Len(h) /\ Ch(h, k + 9) = " " /\ z > k + 10
     /\ z + 4 <= Len(h) /\ Ch(h, z) = " " /\ IsNumeric(Sub(h, z + 1, z + 4))
Extended(h) == \E i \in 1..Len(h) : ExtAt(h, i)
Padding(h) ==
  LET S == {i \in 1..Len(h) : DateAt(h, i) /\ DayText(h, i) # ""}
      i == CHOOSE x \in S : \A y \in S : x <= y
      t == DayText(h, i)
  IN IF S = {} THEN "" ELSE Sub(h, i + 8, DayPos(h, i) - 1) \o (IF StartsWith(t, "0") /\ Len(t) > 1 THEN "0" ELSE "")
\* the last word if it looks like V-R, possibly in brackets, possibly with a colon behind
NoEvr == "no EVR"
HeadEvr(h) ==
  LET t == RStrip(h)
      k == SpanBack(t, Len(t), {Ch(t, i) : i \in 1..Len(t)} \ SpaceC)
      w == From(t, k + 1)
      \* hyphens with something before and behind
      hy(s) == {i \in 2..(Len(s) - 1) : Ch(s, i) = "-"}
      plain == LET i == CHOOSE x \in hy(w) : \A y \in hy(w) : y <= x
               IN IF i + 2 <= Len(w) /\ LastChar(w) = ":" THEN UpTo(w, Len(w) - 1) ELSE w
      close == IF StartsWith(w, "[") THEN "]" ELSE ")"
      v == From(w, 2)
      \* v = evr, closing bracket, optional colon
      cut == IF EndsWith(v, close) THEN 1 ELSE IF EndsWith(v, close \o ":") THEN 2 ELSE 0
      inner == UpTo(v, Len(v) - cut)
      bracket == (StartsWith(w, "[") \/ StartsWith(w, "(")) /\ cut > 0 /\ hy(inner) # {}
  IN IF k = 0 THEN NoEvr
     ELSE IF bracket THEN inner
     ELSE IF hy(w) # {} THEN plain ELSE NoEvr
EvrOrZero(s) == LET p == ParseEvr(s) IN IF s # NoEvr /\ p.ok THEN p ELSE [BadEvr EXCEPT !.e = "0", !.v = "0"]

\* from the oldest entry that is at least since, to the newest that is at most until
FilterRange(g, since, until) ==
  LET n == Len(g.es)
      ev(i) == EvrOrZero(HeadEvr(g.es[i].h))
      a == IF since = NoEvr THEN 1
           ELSE LET S == {i \in 1..n : EvrCmp(ev(i), EvrOrZero(since)) >= 0}
                IN IF S = {} THEN n + 1 ELSE CHOOSE x \in S : \A y \in S : x <= y
      b == IF until = NoEvr THEN n
           ELSE LET S == {i \in 1..n : EvrCmp(ev(i), EvrOrZero(until)) <= 0}
                IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
  IN [i \in 1..Max2(0, b - a + 1) |-> a + i - 1]
=============================================================================
