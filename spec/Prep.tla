-------------------------------- MODULE Prep --------------------------------
(* Macros of the %prep section (specfile.prep).                              *)
(* A macro is [pre, pf, name, delim, o, sf]: the lines in front of it, the   *)
(* text in front of it on its line, its literal name, the white space before *)
(* its options, the options, the text behind.  A section is [es, rem].       *)
EXTENDS Options

Kinds == <<"%setup", "%patch", "%autopatch", "%autosetup">>
KindOf(name) == LET i == FirstIdx(Kinds, LAMBDA k : StartsWith(name, k)) IN IF i = 0 THEN "" ELSE Kinds[i]
OptString(k) == CASE k = "%setup" -> "a:b:cDn:Tq"
                  [] k = "%patch" -> "P:p:REb:z:F:d:o:Z"
                  [] k = "%autosetup" -> "a:b:cDn:TvNS:p:"
                  [] k = "%autopatch" -> "vp:m:M:"
Dflts(k) == CASE k = "%setup" -> <<<<"n", "%{name}-%{version}">>>>
              [] k = "%autosetup" -> <<<<"n", "%{name}-%{version}">>, <<"S", "patch">>>>
              [] OTHER -> <<>>
NewOpts(name, toks) == [toks |-> toks, optstring |-> OptString(KindOf(name)), defaults |-> Dflts(KindOf(name))]

\* end of the macro name at i, 0 if no %prep macro is invoked at i
NameEnd(s, i) ==
  LET k == FirstIdx(Kinds, LAMBDA n : StartsAt(s, i, n))
      e == IF k = 0 THEN 0
           ELSE LET j == i + Len(Kinds[k]) IN IF Kinds[k] = "%patch" THEN SpanEnd(s, j, Digit) ELSE j
  IN IF e = 0 THEN 0 ELSE IF e > Len(s) \/ Ch(s, e) \in SpaceC THEN e - 1 ELSE 0
\* the percent signs in front of position i
Percents(s, i) == (i - 1) - SpanBack(s, i - 1, {"%"})
Found(s) == LET P == {i \in 1..Len(s) : Ch(s, i) = "%" /\ Percents(s, i) % 2 = 0 /\ NameEnd(s, i) # 0}
            IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
MacroOf(line, pre) ==
  LET c == SplitCond(line)
      s == c[1]
      i == Found(s)
      e == NameEnd(s, i)
      d == SpanEnd(s, e + 1, SpaceC)
  IN [pre |-> pre, pf |-> c[2] \o UpTo(s, i - 1), name |-> Sub(s, i, e), delim |-> Sub(s, e + 1, d - 1),
      o |-> NewOpts(Sub(s, i, e), Tokenize(From(s, d)).toks), sf |-> c[3]]
IsMacro(line) == Found(SplitCond(line)[1]) # 0
ParsePrep(lines) ==
  LET RECURSIVE f(_, _, _)
      f(i, buf, es) == IF i > Len(lines) THEN [es |-> es, rem |-> buf]
                       ELSE IF IsMacro(lines[i]) THEN f(i + 1, <<>>, Append(es, MacroOf(lines[i], buf)))
                       ELSE f(i + 1, Append(buf, lines[i]), es)
  IN f(1, <<>>, <<>>)

MacroText(m) == LET t == Render(m.o.toks)
                IN m.pf \o m.name \o (IF t # "" /\ m.delim = "" THEN " " ELSE m.delim) \o t \o m.sf
RawPrep(p) == Flat([i \in 1..Len(p.es) |-> Append(p.es[i].pre, MacroText(p.es[i]))]) \o p.rem

\* the patch number: in the name, of -P, the first argument, or zero
NameDigits(name) == From(name, SpanBack(name, Len(name), Digit) + 1)
IsPatch(m) == KindOf(m.name) = "%patch"
IntOf(v) == ToNat(From(v, 2))
PatchNo(m) ==
  IF NameDigits(m.name) # "" THEN ToNat(NameDigits(m.name))
  ELSE IF GetOpt(m.o, "P") # "!None" THEN IntOf(GetOpt(m.o, "P"))
  ELSE IF Positional(m.o) # <<>> THEN IntOf(Positional(m.o)[1])
  ELSE 0
SetPatchNo(m, n) ==
  LET t == ToString(n) IN
  IF NameDigits(m.name) # "" THEN [m EXCEPT !.name = UpTo(@, Len(@) - Len(NameDigits(@))) \o t]
  ELSE IF GetOpt(m.o, "P") # "!None" THEN [m EXCEPT !.o = SetOpt(@, "P", "!" \o t)]
  ELSE IF Positional(m.o) # <<>> THEN [m EXCEPT !.o = PosSet(@, 1, "!" \o t)]
  ELSE [m EXCEPT !.name = "%patch" \o t]

\* number: -1 for none; kw: a sequence of <<option, value>>
RECURSIVE SetAll(_, _)
SetAll(o, kw) == IF kw = <<>> THEN o ELSE SetAll(SetOpt(o, kw[1][1], kw[1][2]), Tail(kw))
NewPatch(number, old, kw) ==
  LET name == IF number >= 0 /\ old THEN "%patch" \o ToString(number) ELSE "%patch"
      ts == IF number >= 0 /\ ~old THEN <<Tok("d", ToString(number))>> ELSE <<>>
  IN [pre |-> <<>>, pf |-> "", name |-> name, delim |-> " ", o |-> SetAll(NewOpts(name, ts), kw), sf |-> ""]
KwRefused(kw) == \E i \in 1..Len(kw) : SetRefused(NewOpts("%patch", <<>>), kw[i][1], kw[i][2])
AddPatch(p, m) ==
  LET n == PatchNo(m)
      P == {i \in 1..Len(p.es) : IsPatch(p.es[i])}
      d(i) == Abs(PatchNo(p.es[i]) - n)
      k == CHOOSE i \in P : \A j \in P : d(i) < d(j) \/ (d(i) = d(j) /\ i <= j)
      at == IF P = {} THEN Len(p.es) + 1 ELSE IF PatchNo(p.es[k]) <= n THEN k + 1 ELSE k
  IN [p EXCEPT !.es = InsAt(@, at, m)]

DelMacro(p, i) ==
  LET pre == p.es[i].pre IN
  IF i < Len(p.es) THEN [p EXCEPT !.es = DropAt([@ EXCEPT ![i + 1].pre = pre \o @], i)]
  ELSE [es |-> DropAt(p.es, i), rem |-> pre \o p.rem]
RECURSIVE DelMacros(_, _)
DelMacros(p, S) == IF S = {} THEN p
                   ELSE LET k == CHOOSE x \in S : \A y \in S : y <= x IN DelMacros(DelMacro(p, k), S \ {k})
FindName(p, name) == FirstIdx(p.es, LAMBDA m : m.name = name)
FindNo(p, n) == FirstIdx(p.es, LAMBDA m : IsPatch(m) /\ PatchNo(m) = n)
HasMacro(p, name) == \E i \in 1..Len(p.es) : IF name = "%patch" THEN IsPatch(p.es[i]) ELSE p.es[i].name = name
=============================================================================
