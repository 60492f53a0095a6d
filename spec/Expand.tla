------------------------------- MODULE Expand -------------------------------
(* The part of rpm's macro expansion and expression evaluation that decides  *)
(* conditions.  A macro table T is a sequence of <<name, body>>, later       *)
(* entries overriding earlier ones.                                          *)
EXTENDS ValueNodes

Defined(T, n) == \E i \in 1..Len(T) : T[i][1] = n
BodyOf(T, n) == T[LastIdx(T, LAMBDA e : e[1] = n)][2]
Undefine(T, n) == Filt(T, LAMBDA e : e[1] # n)
Bangs(p) == CountOf(p, "!")

RECURSIVE Unescape(_)
Unescape(s) == LET k == IndexFrom(s, 1, "%%")
               IN IF k = 0 THEN s ELSE UpTo(s, k) \o Unescape(From(s, k + 2))

RECURSIVE ExpandD(_, _, _), ExpandNode(_, _, _)
ExpandNode(T, n, d) ==
  LET has == Defined(T, n.name)
      want == IF Bangs(n.prefix) % 2 = 1 THEN ~has ELSE has
      opt == HasSub(n.prefix, "?")
  IN CASE n.k = "lit" -> Unescape(n.body)
       [] n.k \in {"sub", "enc"} ->
            IF opt THEN (IF want /\ has THEN ExpandD(T, BodyOf(T, n.name), d - 1) ELSE "")
            ELSE IF has THEN ExpandD(T, BodyOf(T, n.name), d - 1)
            ELSE Text(n)
       [] n.k = "cond" -> IF want THEN ExpandD(T, TextAll(n.nodes), d) ELSE ""
       [] OTHER -> Text(n)
ExpandD(T, s, d) ==
  IF d = 0 \/ ~HasSub(s, "%") THEN s
  ELSE LET r == Parse(s) IN
       IF ~r.ok THEN s ELSE Cat([i \in 1..Len(r.nodes) |-> ExpandNode(T, r.nodes[i], d)])
ExpandIn(T, s) == ExpandD(T, s, 12)

-----------------------------------------------------------------------------
(* rpm expressions: integers and strings; && and || bind equally, left to    *)
(* right; operands of different types are an error                           *)
EInt(n) == [ok |-> TRUE, k |-> "i", n |-> n, s |-> ""]
EStr(s) == [ok |-> TRUE, k |-> "s", n |-> 0, s |-> s]
EErr == [ok |-> FALSE, k |-> "e", n |-> 0, s |-> ""]
Truth(v) == IF v.k = "i" THEN v.n # 0 ELSE v.s # ""
EBool(b) == EInt(IF b THEN 1 ELSE 0)

Ops2 == {"&&", "||", "==", "!=", "<=", ">="}
\* tokens: [t: "n"/"s"/"o", v]; <<[t |-> "!"]>> marks a lexical error
Lex(s) ==
  LET RECURSIVE f(_, _)
      f(i, acc) ==
        LET a == SpanEnd(s, i, SpaceC) IN
        IF a > Len(s) THEN acc
        ELSE LET c == Ch(s, a) IN
             IF c \in Digit
             THEN LET b == SpanEnd(s, a, Digit) IN f(b, Append(acc, [t |-> "n", v |-> Sub(s, a, b - 1)]))
             ELSE IF c = "\""
             THEN LET b == FindAny(s, a + 1, {"\""}) IN
                  IF b > Len(s) THEN Append(acc, [t |-> "!", v |-> ""])
                  ELSE f(b + 1, Append(acc, [t |-> "s", v |-> Sub(s, a + 1, b - 1)]))
             ELSE IF Sub(s, a, Min2(a + 1, Len(s))) \in Ops2
             THEN f(a + 2, Append(acc, [t |-> "o", v |-> Sub(s, a, a + 1)]))
             ELSE IF c \in {"(", ")", "!", "<", ">", "+", "-", "*", "/", "?", ":"}
             THEN f(a + 1, Append(acc, [t |-> "o", v |-> c]))
             ELSE Append(acc, [t |-> "!", v |-> ""])
  IN f(1, <<>>)

R(v, i) == [v |-> v, i |-> i]
IsOp(ts, i, S0) == i <= Len(ts) /\ ts[i].t = "o" /\ ts[i].v \in S0
Apply(op, a, b) ==
  IF ~a.ok \/ ~b.ok \/ a.k # b.k THEN EErr
  ELSE CASE op = "||" -> IF Truth(a) THEN a ELSE b
         [] op = "&&" -> IF Truth(a) THEN b ELSE a
         [] op = "==" -> EBool(a.n = b.n /\ a.s = b.s)
         [] op = "!=" -> EBool(~(a.n = b.n /\ a.s = b.s))
         [] a.k = "s" -> IF op = "+" THEN EStr(a.s \o b.s) ELSE EErr
         [] op = "<" -> EBool(a.n < b.n)
         [] op = ">" -> EBool(a.n > b.n)
         [] op = "<=" -> EBool(a.n <= b.n)
         [] op = ">=" -> EBool(a.n >= b.n)
         [] op = "+" -> EInt(a.n + b.n)
         [] op = "-" -> EInt(a.n - b.n)
         [] op = "*" -> EInt(a.n * b.n)
         [] OTHER -> EErr

RECURSIVE ELevel(_, _, _), ELoop(_, _, _)
LevelOps == <<{"&&", "||"}, {"==", "!=", "<", ">", "<=", ">="}, {"+", "-"}, {"*"}>>
EPrimary(ts, i) ==
  IF i > Len(ts) THEN R(EErr, i)
  ELSE CASE ts[i].t = "n" -> R(EInt(ToNat(ts[i].v)), i + 1)
         [] ts[i].t = "s" -> R(EStr(ts[i].v), i + 1)
         [] IsOp(ts, i, {"("}) -> LET r == ELevel(ts, i + 1, 1)
                                  IN IF r.v.ok /\ IsOp(ts, r.i, {")"}) THEN R(r.v, r.i + 1) ELSE R(EErr, i)
         [] OTHER -> R(EErr, i)
RECURSIVE EUnary(_, _)
EUnary(ts, i) ==
  IF IsOp(ts, i, {"!"}) THEN LET r == EUnary(ts, i + 1) IN R(IF r.v.ok THEN EBool(~Truth(r.v)) ELSE EErr, r.i)
  ELSE IF IsOp(ts, i, {"-"})
  THEN LET r == EUnary(ts, i + 1) IN R(IF r.v.ok /\ r.v.k = "i" THEN EInt(-r.v.n) ELSE EErr, r.i)
  ELSE EPrimary(ts, i)
ELoop(ts, acc, lev) ==
  IF acc.v.ok /\ IsOp(ts, acc.i, LevelOps[lev])
  THEN LET r == ELevel(ts, acc.i + 1, lev + 1)
       IN ELoop(ts, R(Apply(ts[acc.i].v, acc.v, r.v), r.i), lev)
  ELSE acc
ELevel(ts, i, lev) == IF lev > Len(LevelOps) THEN EUnary(ts, i) ELSE ELoop(ts, ELevel(ts, i, lev + 1), lev)
EvalText(s) == LET ts == Lex(s)
                   r == ELevel(ts, 1, 1)
               IN IF r.v.ok /\ r.i = Len(ts) + 1 THEN r.v ELSE EErr
\* an expression rpm rejects counts as false
EvalBool(T, s) == LET v == EvalText(ExpandIn(T, s)) IN v.ok /\ Truth(v)
=============================================================================
