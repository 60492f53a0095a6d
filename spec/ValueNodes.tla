----------------------------- MODULE ValueNodes -----------------------------
(* How a value is delimited into macro nodes (specfile.value_parser,         *)
(* specfile.utils).  The reference is rpm's expandMacro(): a `%' not         *)
(* followed by `%' starts a macro; `%(', `%{' and `%[' end at the matching   *)
(* bracket of the same kind, a backslash hiding the next character; anything *)
(* else is ?/! prefixes, an optional `-', a name and an optional `*', `**'   *)
(* or `#'.                                                                   *)
EXTENDS Text

Open == {"(", "{", "["}
Match(c) == IF c = "(" THEN ")" ELSE IF c = "{" THEN "}" ELSE "]"

Node(k, p, n, a, b, ns) == [k |-> k, prefix |-> p, name |-> n, args |-> a, body |-> b, nodes |-> ns]
Lit(t)      == Node("lit", "", "", <<>>, t, <<>>)
Shell(t)    == Node("shell", "", "", <<>>, t, <<>>)
Expr(t)     == Node("expr", "", "", <<>>, t, <<>>)
SubstN(p,n) == Node("sub", p, n, <<>>, "", <<>>)
\* body of an enclosed substitution keeps the original text after the name
Enc(p,n,a,b)== Node("enc", p, n, a, b, <<>>)
Cond(p,n,ns)== Node("cond", p, n, <<>>, "", ns)
Builtin(n,b)== Node("builtin", "", n, <<>>, b, <<>>)

\* position just behind the bracket matching the one at i; 0 if there is none
MatchEnd(s, i) ==
  LET o == Ch(s, i)
      c == Match(o)
      RECURSIVE f(_, _)
      f(j, lev) == IF j > Len(s) THEN 0
                   ELSE LET x == Ch(s, j) IN
                        IF x = "\\" THEN f(j + 2, lev)
                        ELSE IF x = c THEN (IF lev <= 1 THEN j + 1 ELSE f(j + 1, lev - 1))
                        ELSE IF x = o THEN f(j + 1, lev + 1)
                        ELSE f(j + 1, lev)
  IN f(i, 0)

\* position behind the macro whose `%' is at i (0: unterminated)
MacroEnd(s, i) ==
  IF i + 1 > Len(s) THEN 0
  ELSE IF Ch(s, i + 1) \in Open THEN MatchEnd(s, i + 1)
  ELSE LET a == SpanEnd(s, i + 1, {"?", "!"})
           b == IF a <= Len(s) /\ Ch(s, a) = "-" THEN a + 1 ELSE a
           c == SpanEnd(s, b, Word)
       IN IF StartsAt(s, c, "**") THEN c + 2
          ELSE IF c <= Len(s) /\ Ch(s, c) \in {"*", "#"} THEN c + 1
          ELSE c

\* next macro start at or after i (`%%' is an escape), Len+1 if none
RECURSIVE NextMacro(_, _)
NextMacro(s, i) == LET k == FindAny(s, i, {"%"}) IN
                   IF k > Len(s) THEN k
                   ELSE IF StartsAt(s, k, "%%") THEN NextMacro(s, k + 2)
                   ELSE k

SplitPrefix(s) == LET k == SpanEnd(s, 1, {"?", "!"}) IN <<UpTo(s, k - 1), From(s, k)>>

Unterminated == "unterminated"
Bad == [ok |-> FALSE, nodes |-> <<>>]
Good(ns) == [ok |-> TRUE, nodes |-> ns]

RECURSIVE Parse(_)
BraceNode(t) ==    \* t: text between %{ and }
  LET sp == FindAny(t, 1, {" "})
      co == FindAny(t, 1, {":"})
      pr == SplitPrefix(UpTo(t, co - 1))
  IN IF co < sp
     THEN IF HasSub(pr[1], "?")
          THEN LET r == Parse(From(t, co + 1))
               IN IF r.ok THEN Good(<<Cond(pr[1], pr[2], r.nodes)>>) ELSE Bad
          ELSE Good(<<Builtin(UpTo(t, co - 1), From(t, co + 1))>>)
     ELSE LET q == SplitPrefix(t)
              e == FindAny(q[2], 1, SpaceC)
          IN Good(<<Enc(q[1], UpTo(q[2], e - 1), Words(From(q[2], e)), From(q[2], e))>>)

Parse(s) ==
  LET RECURSIVE f(_, _)
      f(i, acc) ==
        IF i > Len(s) THEN Good(acc)
        ELSE LET k == NextMacro(s, i)
                 pre == IF k > i THEN Append(acc, Lit(Sub(s, i, k - 1))) ELSE acc
                 e == MacroEnd(s, k)
                 one == IF e = 0 THEN Bad
                        ELSE IF Ch(s, k + 1) = "(" THEN Good(<<Shell(Sub(s, k + 2, e - 2))>>)
                        ELSE IF Ch(s, k + 1) = "[" THEN Good(<<Expr(Sub(s, k + 2, e - 2))>>)
                        ELSE IF Ch(s, k + 1) = "{" THEN BraceNode(Sub(s, k + 2, e - 2))
                        ELSE LET q == SplitPrefix(Sub(s, k + 1, e - 1)) IN Good(<<SubstN(q[1], q[2])>>)
             IN IF k > Len(s) THEN Good(pre)
                ELSE IF one.ok THEN f(e, pre \o one.nodes) ELSE Bad
  IN f(1, <<>>)

RECURSIVE Text(_), TextAll(_)
Text(n) ==
  CASE n.k = "lit" -> n.body
    [] n.k = "shell" -> "%(" \o n.body \o ")"
    [] n.k = "expr" -> "%[" \o n.body \o "]"
    [] n.k = "sub" -> "%" \o n.prefix \o n.name
    [] n.k = "enc" -> "%{" \o n.prefix \o n.name \o n.body \o "}"
    [] n.k = "cond" -> "%{" \o n.prefix \o n.name \o ":" \o TextAll(n.nodes) \o "}"
    [] n.k = "builtin" -> "%{" \o n.name \o ":" \o n.body \o "}"
TextAll(ns) == FoldLeft(LAMBDA a, b : a \o Text(b), "", ns)

RECURSIVE Flatten(_)
Flatten(ns) == FoldLeft(LAMBDA a, b : a \o (IF b.k = "cond" THEN Flatten(b.nodes) ELSE <<b>>), <<>>, ns)

\* a macro substitution of that name somewhere outside literal text
Uses(s, name) == LET r == Parse(s) IN
  r.ok /\ \E i \in 1..Len(Flatten(r.nodes)) :
             LET n == Flatten(r.nodes)[i] IN n.k \in {"sub", "enc"} /\ n.name = name

\* <<body, prefix, suffix>> of a value that is one conditional macro expansion
SplitCond(s) ==
  LET r == Parse(s) IN
  IF r.ok /\ Len(r.nodes) = 1 /\ r.nodes[1].k = "cond"
  THEN LET n == r.nodes[1] IN <<TextAll(n.nodes), "%{" \o n.prefix \o n.name \o ":", "}">>
  ELSE <<s, "", "">>

\* unmatched %{ and %( in a line: [b, p]
CountBrackets(s) ==
  LET RECURSIVE f(_, _, _)
      f(i, b, p) ==
        IF i > Len(s) THEN <<b, p>>
        ELSE LET c == Ch(s, i) IN
             IF c \in {"\\", "%"} /\ i < Len(s)
             THEN LET d == Ch(s, i + 1) IN
                  f(i + 2, IF c = "%" /\ d = "{" THEN b + 1 ELSE b,
                           IF c = "%" /\ d = "(" THEN p + 1 ELSE p)
             ELSE IF c = "{" /\ b > 0 THEN f(i + 1, b + 1, p)
             ELSE IF c = "}" /\ b > 0 THEN f(i + 1, b - 1, p)
             ELSE IF c = "(" /\ p > 0 THEN f(i + 1, b, p + 1)
             ELSE IF c = ")" /\ p > 0 THEN f(i + 1, b, p - 1)
             ELSE f(i + 1, b, p)
  IN f(1, 0, 0)

-----------------------------------------------------------------------------
(* Properties of the delimiting, independent of the recursive definition     *)
Faithful(s) == LET r == Parse(s) IN r.ok => TextAll(r.nodes) = s
\* no two literals in a row, no empty literal, no bare % in a literal
LiteralsMaximal(ns) ==
  \A i \in 1..Len(ns) : ns[i].k = "lit" =>
     /\ ns[i].body # ""
     /\ NextMacro(ns[i].body, 1) > Len(ns[i].body)
     /\ (i > 1 => ns[i - 1].k # "lit")
RECURSIVE Balanced(_, _)
\* bracket bodies are balanced in their own kind of bracket
Balanced(s, c) ==
  LET RECURSIVE f(_, _)
      f(j, lev) == IF j > Len(s) THEN lev = 0
                   ELSE LET x == Ch(s, j) IN
                        IF x = "\\" THEN f(j + 2, lev)
                        ELSE IF x = c THEN f(j + 1, lev + 1)
                        ELSE IF x = Match(c) THEN lev > 0 /\ f(j + 1, lev - 1)
                        ELSE f(j + 1, lev)
  IN f(1, 0)
BodiesBalanced(ns) ==
  \A i \in 1..Len(ns) :
     /\ ns[i].k = "shell" => Balanced(ns[i].body, "(")
     /\ ns[i].k = "expr" => Balanced(ns[i].body, "[")
     /\ ns[i].k \in {"builtin", "enc"} => Balanced(ns[i].name \o ns[i].body, "{")
     /\ ns[i].k = "cond" => Balanced(ns[i].name \o ":" \o TextAll(ns[i].nodes), "{")
     /\ ns[i].k = "cond" => HasSub(ns[i].prefix, "?")
\* a value followed by plain text keeps all complete nodes
DelimitingOK(s) == LET r == Parse(s) IN
                   r.ok => /\ TextAll(r.nodes) = s
                           /\ LiteralsMaximal(r.nodes)
                           /\ BodiesBalanced(r.nodes)
=============================================================================
