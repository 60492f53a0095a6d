----------------------------- MODULE Conditions -----------------------------
(* Which lines are in a taken branch (specfile.conditions).                  *)
EXTENDS MacroDefs, Expand

Keywords == <<"%ifnarch", "%ifarch", "%ifnos", "%ifos", "%elifnarch", "%elifarch", "%elifnos", "%elifos",
              "%endif", "%elif", "%else", "%if">>
NoCond == [kw |-> "", expr |-> "", cont |-> FALSE]
\* the condition directive on a line, its expression, whether the expression continues
MatchCond(s) ==
  LET a == SpanEnd(s, 1, SpaceC)
      k == FirstIdx(Keywords, LAMBDA w : StartsAt(s, a, w)
             /\ (a + Len(w) > Len(s) \/ Ch(s, a + Len(w)) \in SpaceC))
      e == IF k = 0 THEN 0 ELSE a + Len(Keywords[k])
      x == SpanEnd(s, e, SpaceC)
      t == From(s, x)
  IN IF k = 0 THEN NoCond
     ELSE IF LastChar(t) = "\\" THEN [kw |-> Keywords[k], expr |-> UpTo(t, Len(t) - 1), cont |-> TRUE]
     ELSE [kw |-> Keywords[k], expr |-> RStrip(t), cont |-> FALSE]

\* env: [macros, cpu, os]
Resolve(env, kw, expr) ==
  LET among(x) == \E i \in 1..Len(Words(ExpandIn(env.macros, expr))) : Words(ExpandIn(env.macros, expr))[i] = x
  IN CASE kw \in {"%if", "%elif"} -> EvalBool(env.macros, expr)
       [] kw \in {"%ifarch", "%elifarch", "%elifnarch"} -> among(env.cpu)
       [] kw = "%ifnarch" -> ~among(env.cpu)
       [] kw \in {"%ifos", "%elifos", "%elifnos"} -> among(env.os)
       [] kw = "%ifnos" -> ~among(env.os)
       [] OTHER -> FALSE

\* stack of [on: the branch is taken, done: some branch of the block was taken]
ProcessConditions(lines, skip, env) ==
  LET RECURSIVE f(_, _, _), g(_, _)
      g(e, i) == IF LastChar(e) = "\\" /\ i <= Len(lines) THEN g(UpTo(e, Len(e) - 1) \o lines[i], i + 1) ELSE <<e, i>>
      f(i, stack, acc) ==
        IF i > Len(lines) THEN acc
        ELSE LET n == Len(stack)
                 top == stack[n]
                 c == IF i \in skip THEN NoCond
                      ELSE IF ~HasSub(lines[i], "%") THEN NoCond
                      ELSE MatchCond(ExpandIn(env.macros, lines[i]))
                 isIf == StartsWith(c.kw, "%if")
                 isEl == StartsWith(c.kw, "%el")
             IN IF c.kw = "" \/ (n < 2 /\ ~isIf) THEN f(i + 1, stack, Append(acc, top.on))
                ELSE IF c.kw = "%endif" THEN f(i + 1, SubSeq(stack, 1, n - 1), Append(acc, stack[n - 1].on))
                ELSE LET outer == IF isIf THEN top.on ELSE stack[n - 1].on
                         may == IF isIf THEN outer ELSE outer /\ ~top.done
                         q == IF c.kw = "%else" THEN <<"", i + 1>>
                              ELSE g(c.expr \o (IF c.cont THEN "\\" ELSE ""), i + 1)
                         on == IF c.kw = "%else" THEN may
                               ELSE may /\ Resolve(env, c.kw, IF q[1] = "" THEN "0" ELSE q[1])
                         new == [on |-> on, done |-> IF isIf THEN on ELSE (top.done \/ on)]
                         st2 == IF isIf THEN Append(stack, new) ELSE [stack EXCEPT ![n] = new]
                         acc2 == Append(acc, outer) \o [k \in 1..(q[2] - i - 1) |-> may]
                     IN f(q[2], st2, acc2)
  IN f(1, <<[on |-> TRUE, done |-> TRUE]>>, <<>>)

\* definitions with their validity
ParseDefsIn(lines, env) ==
  LET v0 == ParseDefs(lines, AllValid(lines))
  IN ParseDefs(lines, ProcessConditions(lines, BodyLines(v0), env))
=============================================================================
