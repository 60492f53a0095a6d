-------------------------------- MODULE Evr ---------------------------------
(* Versions: rpm's comparison (rpmio/rpmvercmp.c, rpmver.c) and the textual  *)
(* forms E:V-R, N-E:V-R and N-E:V-R.A                                        *)
EXTENDS Text, Names

AlphaSeq == UpperSeq \o LowerSeq           \* ASCII order of letters
AlphaOrd(c) == CHOOSE i \in 1..52 : AlphaSeq[i] = c
Seg == AsciiLetter \cup Digit \cup {"~", "^"}
\* strcmp of two strings of letters or two strings of digits
RECURSIVE StrCmp(_, _)
StrCmp(a, b) ==
  IF a = b THEN 0
  ELSE IF a = "" THEN -1
  ELSE IF b = "" THEN 1
  ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrCmp(From(a, 2), From(b, 2))
  ELSE IF Ch(a, 1) \in Digit THEN (IF DigitVal(Ch(a, 1)) < DigitVal(Ch(b, 1)) THEN -1 ELSE 1)
  ELSE IF AlphaOrd(Ch(a, 1)) < AlphaOrd(Ch(b, 1)) THEN -1 ELSE 1
NoZeros(s) == From(s, SpanEnd(s, 1, {"0"}))
NumCmp(a, b) == LET x == NoZeros(a)
                    y == NoZeros(b)
                IN IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1) ELSE StrCmp(x, y)
RECURSIVE VerCmp(_, _)
VerCmp(a0, b0) ==
  LET a == From(a0, FindAny(a0, 1, Seg))
      b == From(b0, FindAny(b0, 1, Seg))
      ca == IF a = "" THEN "" ELSE Ch(a, 1)
      cb == IF b = "" THEN "" ELSE Ch(b, 1)
      num == ca \in Digit
      C == IF num THEN Digit ELSE AsciiLetter
      ea == SpanEnd(a, 1, C)
      eb == SpanEnd(b, 1, C)
      x == UpTo(a, ea - 1)
      y == UpTo(b, eb - 1)
      c == IF num THEN NumCmp(x, y) ELSE StrCmp(x, y)
  IN IF ca = "~" \/ cb = "~"
     THEN IF ca # "~" THEN 1 ELSE IF cb # "~" THEN -1 ELSE VerCmp(From(a, 2), From(b, 2))
     ELSE IF ca = "^" \/ cb = "^"
     THEN IF a = "" THEN -1 ELSE IF b = "" THEN 1 ELSE IF ca # "^" THEN 1 ELSE IF cb # "^" THEN -1
          ELSE VerCmp(From(a, 2), From(b, 2))
     ELSE IF a = "" /\ b = "" THEN 0
     ELSE IF a = "" THEN -1
     ELSE IF b = "" THEN 1
     ELSE IF y = "" THEN (IF num THEN 1 ELSE -1)
     ELSE IF c # 0 THEN c
     ELSE VerCmp(From(a, ea), From(b, eb))
\* e: decimal text
EvrCmp(p, q) ==
  LET c1 == NumCmp(p.e, q.e)
      c2 == VerCmp(IF p.v = "" THEN "0" ELSE p.v, IF q.v = "" THEN "0" ELSE q.v)
  IN IF c1 # 0 THEN c1 ELSE IF c2 # 0 THEN c2 ELSE VerCmp(p.r, q.r)

-----------------------------------------------------------------------------
(* text                                                                      *)
BadEvr == [ok |-> FALSE, n |-> "", e |-> "", v |-> "", r |-> "", a |-> ""]
\* V or V-R
VR(e, s) ==
  LET k == FindAny(s, 1, {"-"}) IN
  IF CountOf(s, "-") = 0 THEN (IF s = "" THEN BadEvr ELSE [BadEvr EXCEPT !.ok = TRUE, !.e = e, !.v = s])
  ELSE IF CountOf(s, "-") = 1 /\ k > 1 /\ k < Len(s)
  THEN [BadEvr EXCEPT !.ok = TRUE, !.e = e, !.v = UpTo(s, k - 1), !.r = From(s, k + 1)]
  ELSE BadEvr
ParseEvr(s) ==
  LET k == SpanEnd(s, 1, Digit)
      w == VR(StripZeros(UpTo(s, k - 1)), From(s, k + 1))
  IN IF k > 1 /\ k <= Len(s) /\ Ch(s, k) = ":" /\ w.ok THEN w ELSE VR("0", s)
\* the shortest name whose rest is an EVR
ParseNevr(s) ==
  LET S == {k \in 2..Len(s) : Ch(s, k) = "-" /\ ParseEvr(From(s, k + 1)).ok}
      k == CHOOSE x \in S : \A y \in S : x <= y
  IN IF S = {} THEN BadEvr ELSE [ParseEvr(From(s, k + 1)) EXCEPT !.n = UpTo(s, k - 1)]
ParseNevra(s) ==
  LET k == LastIndexOf(s, ".")
      a == From(s, k + 1)
      r == ParseNevr(UpTo(s, k - 1))
  IN IF k = 0 \/ a \notin (ArchNames \cup {"noarch"}) \/ ~r.ok THEN BadEvr ELSE [r EXCEPT !.a = a]
EvrText(p) == (IF p.e = "0" THEN "" ELSE p.e \o ":") \o p.v \o (IF p.r = "" THEN "" ELSE "-" \o p.r)
TextOf(kind, p) == CASE kind = "E" -> EvrText(p)
                     [] kind = "N" -> p.n \o "-" \o EvrText(p)
                     [] kind = "A" -> p.n \o "-" \o EvrText(p) \o "." \o p.a
ParseAs(kind, s) == CASE kind = "E" -> ParseEvr(s) [] kind = "N" -> ParseNevr(s) [] kind = "A" -> ParseNevra(s)
=============================================================================
