------------------------------- MODULE Options ------------------------------
(* Option strings of %prep macros and section headers (specfile.options).    *)
(* A token is [t, v]: t is "d" (plain), "w" (white space), "q" ('...') or    *)
(* "Q" ("...").  Tokenizing follows poptParseArgvString(), macro expansions  *)
(* being opaque units.                                                       *)
EXTENDS ValueNodes

Tok(t, v) == [t |-> t, v |-> v]

\* the units popt sees: characters of literal text, whole macros
Units(nodes) ==
  FoldLeft(LAMBDA a, n : a \o (IF n.k = "lit" THEN Chars(n.body) ELSE <<Text(n)>>), <<>>, nodes)

TokErr(e) == [ok |-> FALSE, err |-> e, toks |-> <<>>]
TokOK(ts) == [ok |-> TRUE, err |-> "", toks |-> ts]
Flush(acc, t, v) == IF v = "" THEN acc ELSE Append(acc, Tok(t, v))

TokenizeUnits(u) ==
  LET RECURSIVE f(_, _, _, _)
      f(i, cur, quote, acc) ==
        IF i > Len(u)
        THEN IF quote # "" THEN TokErr("quotation") ELSE TokOK(Flush(acc, "d", cur))
        ELSE LET c == u[i] IN
             IF c = quote
             THEN f(i + 1, "", "", Flush(acc, IF quote = "'" THEN "q" ELSE "Q", cur))
             ELSE IF quote # ""
             THEN IF c = "\\"
                  THEN IF i = Len(u) THEN TokErr("escape")
                       ELSE f(i + 2, cur \o (IF u[i + 1] = quote THEN "" ELSE "\\") \o u[i + 1], quote, acc)
                  ELSE f(i + 1, cur \o c, quote, acc)
             ELSE IF c \in SpaceC
             THEN LET RECURSIVE g(_)
                      g(j) == IF j <= Len(u) /\ u[j] \in SpaceC THEN g(j + 1) ELSE j
                      e == g(i)
                  IN f(e, "", "", Append(Flush(acc, "d", cur), Tok("w", Cat(SubSeq(u, i, e - 1)))))
             ELSE IF c \in {"'", "\""} THEN f(i + 1, "", c, Flush(acc, "d", cur))
             ELSE IF c = "\\"
             THEN IF i = Len(u) THEN TokErr("escape") ELSE f(i + 2, cur \o u[i + 1], "", acc)
             ELSE f(i + 1, cur \o c, "", acc)
  IN f(1, "", "", <<>>)
Tokenize(s) == LET r == Parse(s) IN IF r.ok THEN TokenizeUnits(Units(r.nodes)) ELSE TokErr("macro")

EscapeIn(s, C) == Cat([i \in 1..Len(s) |-> IF Ch(s, i) \in C THEN "\\" \o Ch(s, i) ELSE Ch(s, i)])
EscapeLits(s, C) ==
  LET r == Parse(s)
      ns == IF r.ok THEN r.nodes ELSE <<Lit(s)>>
  IN Cat([i \in 1..Len(ns) |-> IF ns[i].k = "lit" THEN EscapeIn(ns[i].body, C) ELSE Text(ns[i])])
RenderTok(t) ==
  CASE t.t = "w" -> t.v
    [] t.t = "q" -> "'" \o EscapeLits(t.v, {"'"}) \o "'"
    [] t.t = "Q" -> "\"" \o EscapeLits(t.v, {"\""}) \o "\""
    [] t.t = "d" -> EscapeLits(t.v, {"\\", "'", "\""} \cup SpaceC)
Render(ts) == Cat([i \in 1..Len(ts) |-> RenderTok(ts[i])])

-----------------------------------------------------------------------------
\* o: [toks, optstring, defaults]; defaults is a sequence of <<name, value>>
OptChars(o) == {Ch(o.optstring, i) : i \in 1..Len(o.optstring)} \ {":"}
OptSeq(o) == Filt(Chars(o.optstring), LAMBDA c : c # ":")
NeedsArg(o, n) == LET i == FindAny(o.optstring, 1, {n}) IN i < Len(o.optstring) /\ Ch(o.optstring, i + 1) = ":"

\* <<position of the option token, position of its argument token>>; 0: none.
\* an attached argument has both positions equal
FindOpt(o, n) ==
  LET ts == o.toks
      i == LastIdx(ts, LAMBDA t : StartsWith(t.v, "-" \o n))
      j == IF i < Len(ts) /\ ts[i + 1].t = "w" THEN i + 2 ELSE i + 1
  IN IF i = 0 THEN <<0, 0>>
     ELSE IF Len(ts[i].v) > 2 THEN <<i, i>>
     ELSE IF ~NeedsArg(o, n) THEN <<i, 0>>
     ELSE IF j > Len(ts) THEN <<i, 0>>
     ELSE IF StartsWith(ts[j].v, "-") THEN <<i, 0>>
     ELSE <<i, j>>

\* values as the API shows them: numbers are ints, marked "!"
Show(v) == IF IsNumeric(v) THEN "!" \o StripZeros(v) ELSE v
Default(o, n) == LET i == FirstIdx(o.defaults, LAMBDA d : d[1] = n) IN IF i = 0 THEN "!None" ELSE o.defaults[i][2]
GetOpt(o, n) ==
  LET p == FindOpt(o, n)
      v == IF p[2] > p[1] THEN o.toks[p[2]].v ELSE From(o.toks[p[1]].v, 3)
  IN IF p[1] = 0 THEN (IF NeedsArg(o, n) THEN Default(o, n) ELSE "!False")
     ELSE IF v = "" THEN "!True" ELSE Show(v)

WithToks(o, ts) == [o EXCEPT !.toks = ts]
NeedsQuoting(v) == HasAny(v, SpaceC)

RECURSIVE DelOpt(_, _)
DelOpt(o, n) ==
  LET p == FindOpt(o, n)
      ts == o.toks
      j0 == IF p[2] = 0 THEN p[1] ELSE p[2]
      i == IF p[1] > 1 /\ ts[p[1] - 1].t = "w" THEN p[1] - 1 ELSE p[1]
      j == IF p[1] = 1 /\ j0 < Len(ts) /\ ts[j0 + 1].t = "w" THEN j0 + 1 ELSE j0
  IN IF p[1] = 0 THEN o
     ELSE DelOpt(WithToks(o, SubSeq(ts, 1, i - 1) \o SubSeq(ts, j + 1, Len(ts))), n)

\* a value to set: "!True", "!False", "!None", "!<int>" or a string
IsBoolV(v) == v \in {"!True", "!False"}
IsIntV(v) == StartsWith(v, "!") /\ IsNumeric(From(v, 2))
Raw(v) == IF IsIntV(v) THEN From(v, 2) ELSE v
SetRefused(o, n, v) == IF NeedsArg(o, n) THEN IsBoolV(v) ELSE ~IsBoolV(v) /\ v # "!None"
SetOpt(o, n, v) ==
  LET p == FindOpt(o, n)
      ts == o.toks
      sp == IF ts = <<>> THEN <<>> ELSE <<Tok("w", " ")>>
      x == Raw(v)
  IN IF v \in {"!None", "!False"} THEN DelOpt(o, n)
     ELSE IF p[1] = 0
     THEN WithToks(o, ts \o sp \o
            (IF v = "!True" THEN <<Tok("d", "-" \o n)>>
             ELSE IF IsIntV(v) THEN <<Tok("d", "-" \o n \o x)>>
             ELSE <<Tok("d", "-" \o n), Tok("w", " "), Tok(IF NeedsQuoting(x) THEN "Q" ELSE "d", x)>>))
     ELSE IF v = "!True" THEN o
     ELSE IF p[2] > p[1]
     THEN WithToks(o, [ts EXCEPT ![p[2]] = Tok(IF ~NeedsQuoting(x) THEN "d"
                                               ELSE IF @.t \in {"q", "Q"} THEN @.t ELSE "Q", x)])
     ELSE IF NeedsQuoting(x)
     THEN WithToks(o, SubSeq(ts, 1, p[1] - 1) \o <<Tok(ts[p[1]].t, "-" \o n), Tok("w", " "), Tok("Q", x)>>
                      \o SubSeq(ts, p[1] + 1, Len(ts)))
     ELSE WithToks(o, [ts EXCEPT ![p[1]] = Tok(@.t, "-" \o n \o x)])

Keys(o) == Filt(OptSeq(o), LAMBDA n : FindOpt(o, n)[1] # 0)
OptLen(o) == Cardinality({Ch(t.v, 2) : t \in {x \in Rng(o.toks) : x.t # "w" /\ StartsWith(x.v, "-") /\ Len(x.v) > 1}}
                         \cap OptChars(o))

\* positions of positional arguments
PosIdx(o) ==
  LET ts == o.toks
      RECURSIVE f(_)
      f(i) == IF i > Len(ts) THEN <<>>
              ELSE IF ts[i].t = "w" THEN f(i + 1)
              ELSE IF StartsWith(ts[i].v, "-")
              THEN IF Len(ts[i].v) = 2 /\ Ch(ts[i].v, 2) \in OptChars(o) /\ NeedsArg(o, Ch(ts[i].v, 2))
                   THEN f(IF i < Len(ts) /\ ts[i + 1].t = "w" THEN i + 3 ELSE i + 2)
                   ELSE f(i + 1)
              ELSE <<i>> \o f(i + 1)
  IN f(1)
Positional(o) == LET ix == PosIdx(o) IN [k \in 1..Len(ix) |-> Show(o.toks[ix[k]].v)]
DelTokAt(ts, i) ==
  IF i = 1 THEN (IF Len(ts) > 1 /\ ts[2].t = "w" THEN SubSeq(ts, 3, Len(ts)) ELSE SubSeq(ts, 2, Len(ts)))
  ELSE IF ts[i - 1].t = "w" THEN SubSeq(ts, 1, i - 2) \o SubSeq(ts, i + 1, Len(ts))
  ELSE DropAt(ts, i)
PosDel(o, k) == WithToks(o, DelTokAt(o.toks, PosIdx(o)[k]))
RECURSIVE PosDelAll(_, _)
PosDelAll(o, ks) == IF ks = {} THEN o
                    ELSE LET k == CHOOSE x \in ks : \A y \in ks : y <= x
                         IN PosDelAll(PosDel(o, k), ks \ {k})
PosSet(o, k, v) == WithToks(o, [o.toks EXCEPT ![PosIdx(o)[k]] = Tok(@.t, Raw(v))])
\* i: 1-based insertion position among the positional arguments
PosIns(o, i, v) ==
  LET ts == o.toks
      ix == PosIdx(o)
      n == Len(ts)
      at == IF i <= Len(ix)
            THEN (IF ix[i] > 1 /\ ts[ix[i] - 1].t = "w" THEN ix[i] - 1 ELSE ix[i])
            ELSE n + 1
      new == Tok(IF NeedsQuoting(Raw(v)) THEN "Q" ELSE "d", Raw(v))
      ins == IF at > 1 THEN <<Tok("w", " "), new>>
             ELSE IF n > 0 THEN <<new, Tok("w", " ")>> ELSE <<new>>
  IN WithToks(o, SubSeq(ts, 1, at - 1) \o ins \o SubSeq(ts, at, n))
=============================================================================
