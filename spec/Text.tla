-------------------------------- MODULE Text --------------------------------
(* Character and line level vocabulary used by all the other modules.        *)
(* A text line is a TLA+ string; positions are 1-based; a document is a      *)
(* sequence of lines without line terminators.                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
Sub(s, i, j) == IF i > j THEN "" ELSE SubSeq(s, i, j)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
UpTo(s, j) == IF j < 1 THEN "" ELSE IF j > Len(s) THEN s ELSE SubSeq(s, 1, j)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ Sub(s, i, i + Len(p) - 1) = p
StartsWith(s, p) == StartsAt(s, 1, p)
EndsWith(s, p) == Len(p) <= Len(s) /\ From(s, Len(s) - Len(p) + 1) = p
LastChar(s) == IF s = "" THEN "" ELSE Ch(s, Len(s))

Digit == {"0","1","2","3","4","5","6","7","8","9"}
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerC == {LowerSeq[i] : i \in 1..26}
UpperC == {UpperSeq[i] : i \in 1..26}
AsciiLetter == LowerC \cup UpperC
OtherLetter == {"é", "ř", "ß"}               \* the non-ASCII letters the drivers use
Letter == AsciiLetter \cup OtherLetter
Alnum == Letter \cup Digit
Word == Alnum \cup {"_"}                     \* \w
\* str.isspace() / \s : the exotic ones come through JSON as themselves
Blank == {" ", "\t", "\f", "\r"}
SpaceC == Blank \cup {"\n"}

LowerMap == [c \in UpperC |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
UpperMap == [c \in LowerC |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]
LowC(c) == IF c \in UpperC THEN LowerMap[c] ELSE c
UpC(c) == IF c \in LowerC THEN UpperMap[c] ELSE c

Cat(seq) == FoldLeft(LAMBDA a, b : a \o b, "", seq)
Lower(s) == Cat([i \in 1..Len(s) |-> LowC(Ch(s, i))])
Upper(s) == Cat([i \in 1..Len(s) |-> UpC(Ch(s, i))])
Capitalize(s) == IF s = "" THEN "" ELSE UpC(Ch(s, 1)) \o Lower(From(s, 2))

\* first position >= i whose character is not in C (Len+1 if none)
SpanEnd(s, i, C) ==
  LET RECURSIVE f(_)
      f(j) == IF j <= Len(s) /\ Ch(s, j) \in C THEN f(j + 1) ELSE j
  IN f(i)
\* first position >= i whose character is in C (Len+1 if none)
FindAny(s, i, C) ==
  LET RECURSIVE f(_)
      f(j) == IF j <= Len(s) /\ Ch(s, j) \notin C THEN f(j + 1) ELSE j
  IN f(i)
\* last position <= j whose character is not in C (0 if none)
SpanBack(s, j, C) ==
  LET RECURSIVE f(_)
      f(k) == IF k >= 1 /\ Ch(s, k) \in C THEN f(k - 1) ELSE k
  IN f(j)
\* first position >= i where p occurs (0 if none)
IndexFrom(s, i, p) ==
  LET RECURSIVE f(_)
      f(j) == IF j + Len(p) - 1 > Len(s) THEN 0
              ELSE IF Sub(s, j, j + Len(p) - 1) = p THEN j ELSE f(j + 1)
  IN f(i)
HasSub(s, p) == IndexFrom(s, 1, p) # 0
LastIndexOf(s, c) == SpanBack(s, Len(s), {SubSeq(s, k, k) : k \in 1..Len(s)} \ {c})
HasAny(s, C) == \E i \in 1..Len(s) : Ch(s, i) \in C
AllIn(s, C) == \A i \in 1..Len(s) : Ch(s, i) \in C
CountOf(s, c) == Cardinality({i \in 1..Len(s) : Ch(s, i) = c})

LStrip(s) == From(s, SpanEnd(s, 1, SpaceC))
RStrip(s) == UpTo(s, SpanBack(s, Len(s), SpaceC))
Strip(s) == RStrip(LStrip(s))

RECURSIVE SplitOn(_, _)
SplitOn(s, p) == LET k == IndexFrom(s, 1, p)
                 IN IF k = 0 THEN <<s>>
                    ELSE <<UpTo(s, k - 1)>> \o SplitOn(From(s, k + Len(p)), p)
Lines(s) == SplitOn(s, "\n")
RECURSIVE JoinWith(_, _)
JoinWith(seq, sep) == IF Len(seq) = 0 THEN ""
                      ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, seq[1], SubSeq(seq, 2, Len(seq)))
\* str.split(): maximal runs of non-space characters
Words(s) ==
  LET RECURSIVE f(_)
      f(i) == LET a == SpanEnd(s, i, SpaceC)
                  b == FindAny(s, a, SpaceC)
              IN IF a > Len(s) THEN <<>> ELSE <<Sub(s, a, b - 1)>> \o f(b)
  IN f(1)
Replace(s, c, r) == Cat([i \in 1..Len(s) |-> IF Ch(s, i) = c THEN r ELSE Ch(s, i)])
Repeat(s, n) == Cat([i \in 1..n |-> s])

DigitVal(c) == CHOOSE n \in 0..9 : ToString(n) = c
ToNat(s) == FoldLeft(LAMBDA a, c : a * 10 + DigitVal(c), 0, Chars(s))
IsNumeric(s) == s # "" /\ AllIn(s, Digit)
\* decimal text, any size: increment
RECURSIVE IncText(_)
IncText(s) == IF s = "" THEN "1"
              ELSE LET c == LastChar(s)
                       p == UpTo(s, Len(s) - 1)
                   IN IF c = "9" THEN IncText(p) \o "0" ELSE p \o ToString(DigitVal(c) + 1)
StripZeros(s) == LET t == From(s, SpanEnd(s, 1, {"0"})) IN IF t = "" THEN "0" ELSE t
ZeroPad(n, w) == LET t == ToString(n) IN IF Len(t) >= w THEN t ELSE Repeat("0", w - Len(t)) \o t

SeqMap(Op(_), q) == [i \in 1..Len(q) |-> Op(q[i])]
\* (makes TLC evaluate the elements once)
Force(q) == SubSeq(q, 1, Len(q))
Flat(qq) == FoldLeft(LAMBDA a, b : a \o b, <<>>, qq)
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))   \* x becomes q'[i]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Filt(q, Test(_)) == FoldLeft(LAMBDA a, b : IF Test(b) THEN Append(a, b) ELSE a, <<>>, q)
FirstIdx(q, Test(_)) == LET S == {i \in 1..Len(q) : Test(q[i])}
                        IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
LastIdx(q, Test(_)) == LET S == {i \in 1..Len(q) : Test(q[i])}
                       IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Rng(q) == {q[i] : i \in 1..Len(q)}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
\* Python index -> 1-based position (0: out of range)
PyIdx(i, n) == IF i >= 0 THEN (IF i < n THEN i + 1 ELSE 0) ELSE (IF i + n >= 0 THEN i + n + 1 ELSE 0)
\* Python list.insert position -> 1-based insertion position
PyIns(i, n) == IF i >= 0 THEN Min2(i, n) + 1 ELSE Max2(i + n, 0) + 1
\* range(n)[a:b:c] for slices written [a,b,c] with "none" markers encoded as 99999
None == 99999
PySlice(sl, n) ==
  LET step == IF sl[3] = None THEN 1 ELSE sl[3]
      norm(x, lo, hi) == LET y == IF x < 0 THEN x + n ELSE x
                         IN IF y < lo THEN lo ELSE IF y > hi THEN hi ELSE y
      a == IF step > 0 THEN (IF sl[1] = None THEN 0 ELSE norm(sl[1], 0, n))
                       ELSE (IF sl[1] = None THEN n - 1 ELSE norm(sl[1], -1, n - 1))
      b == IF step > 0 THEN (IF sl[2] = None THEN n ELSE norm(sl[2], 0, n))
                       ELSE (IF sl[2] = None THEN -1 ELSE norm(sl[2], -1, n - 1))
      RECURSIVE f(_)
      f(x) == IF (step > 0 /\ x >= b) \/ (step < 0 /\ x <= b) THEN <<>>
              ELSE <<x + 1>> \o f(x + step)
  IN f(a)
=============================================================================
