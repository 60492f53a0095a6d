-------------------------------- MODULE C06 ---------------------------------
(* Which lines, definitions and tags are valid: in the branch rpm takes.     *)
EXTENDS Tags

-----------------------------------------------------------------------------
(* rpm's own reading of a spec: one pass, conditions evaluated and macros    *)
(* defined as they are met, in taken branches only                           *)
RpmWalk(lines, T0, cpu, os) ==
  LET v == ParseDefs(lines, AllValid(lines))
      ps == Force([k \in 1..Len(v.items) |-> DefPos(v, k) + 1])
      at == Force([i \in 1..Len(lines) |-> FirstIdx(ps, LAMBDA p : p = i)])
      size(k) == Len(DefLines(v.items[k]))
      RECURSIVE f(_, _, _, _), g(_, _)
      g(e, i) == IF LastChar(e) = "\\" /\ i <= Len(lines) THEN g(UpTo(e, Len(e) - 1) \o lines[i], i + 1) ELSE <<e, i>>
      f(i, T, stack, acc) ==
        IF i > Len(lines) THEN [valid |-> acc, macros |-> T]
        ELSE LET n == Len(stack)
                 top == stack[n]
                 on == top.on
             IN IF at[i] # 0
                THEN LET d == v.items[at[i]]
                         body == IF d.glob THEN ExpandIn(T, d.body) ELSE d.body
                         T2 == IF on /\ ~d.out THEN Append(T, <<d.name, body>>) ELSE T
                     IN f(i + size(at[i]), T2, stack, acc \o [k \in 1..size(at[i]) |-> on])
                ELSE LET c == IF HasSub(lines[i], "%") THEN MatchCond(ExpandIn(T, lines[i])) ELSE NoCond
                         isIf == StartsWith(c.kw, "%if")
                     IN IF c.kw = "" \/ (n < 2 /\ ~isIf) THEN f(i + 1, T, stack, Append(acc, on))
                        ELSE IF c.kw = "%endif" THEN f(i + 1, T, SubSeq(stack, 1, n - 1), Append(acc, stack[n - 1].on))
                        ELSE LET outer == IF isIf THEN on ELSE stack[n - 1].on
                                 may == IF isIf THEN outer ELSE outer /\ ~top.done
                                 q == IF c.kw = "%else" THEN <<"", i + 1>>
                                      ELSE g(c.expr \o (IF c.cont THEN "\\" ELSE ""), i + 1)
                                 now == may /\ (c.kw = "%else" \/
                                                Resolve([macros |-> T, cpu |-> cpu, os |-> os], c.kw,
                                                        IF q[1] = "" THEN "0" ELSE q[1]))
                                 new == [on |-> now, done |-> IF isIf THEN now ELSE top.done \/ now]
                             IN f(q[2], T, IF isIf THEN Append(stack, new) ELSE [stack EXCEPT ![n] = new],
                                  Append(acc, outer) \o [k \in 1..(q[2] - i - 1) |-> may])
  IN f(1, T0, <<[on |-> TRUE, done |-> TRUE]>>, <<>>)

-----------------------------------------------------------------------------
Start(init) == init
Env(s) == [macros |-> s.macros, cpu |-> s.cpu, os |-> s.os]
Skip(s) == BodyLines(ParseDefs(s.lines, AllValid(s.lines)))
Items(v) == [i \in 1..Len(v.items) |-> [name |-> v.items[i].name, valid |-> v.items[i].valid]]

Step(s, ev) ==
  CASE ev.op = "lines" ->      \* process_conditions on lines, macros of the process
         [st |-> s, exp |-> [text |-> s.lines, valid |-> ProcessConditions(s.lines, Skip(s), Env(s)),
                             defs |-> Items(ParseDefsIn(s.lines, Env(s))),
                             tags |-> Items(ParseTagsIn(s.lines, Env(s)))]]
    [] ev.op = "resolve" -> [st |-> s, exp |-> [value |-> Resolve(Env(s), ev.kw, ev.expr)]]
    [] ev.op = "spec" ->       \* through a Specfile: rpm's reading
         LET w == RpmWalk(s.lines, s.macros, s.cpu, s.os) IN
         [st |-> s, exp |-> [defs |-> Items(ParseDefs(s.lines, w.valid)), tags |-> Items(ParseTags(s.lines, w.valid))]]

-----------------------------------------------------------------------------
(* Declarative reading: a line is valid iff in every block around it the     *)
(* branch it is in is the first one whose condition is true.                 *)
Directives(s) ==
  LET skip == Skip(s)
  IN Force([i \in 1..Len(s.lines) |-> IF i \in skip THEN NoCond ELSE MatchCond(ExpandIn(s.macros, s.lines[i]))])
Decl(s) ==
  LET D == Directives(s)
      n == Len(s.lines)
      isIf(i) == StartsWith(D[i].kw, "%if")
      isEl(i) == StartsWith(D[i].kw, "%el")
      isEnd(i) == D[i].kw = "%endif"
      bal(j, k) == Cardinality({x \in j..k : isIf(x)}) - Cardinality({x \in j..k : isEnd(x)})
      \* blocks open just before line i
      open(i) == {j \in 1..(i - 1) : isIf(j) /\ \A k \in j..(i - 1) : bal(j, k) >= 1}
      inner(i) == IF open(i) = {} THEN 0 ELSE CHOOSE j \in open(i) : \A k \in open(i) : k <= j
      around(i) == IF isEl(i) \/ isEnd(i) THEN open(i) \ {inner(i)} ELSE open(i)
      branches(j, i) == {j} \cup {k \in (j + 1)..(i - 1) : isEl(k) /\ bal(j, k) = 1}
      true(k) == IF D[k].kw = "%else" THEN TRUE ELSE Resolve(Env(s), D[k].kw, IF D[k].expr = "" THEN "0" ELSE D[k].expr)
      taken(j, i) == LET B == branches(j, i)
                         cur == CHOOSE k \in B : \A x \in B : x <= k
                     IN true(cur) /\ \A k \in B \ {cur} : ~true(k)
  IN [i \in 1..n |-> \A j \in around(i) : taken(j, i)]
NoContinuation(s) == LET D == Directives(s) IN \A i \in 1..Len(s.lines) : ~D[i].cont

Prop(s, ev, r) ==
  /\ r.st = s
  /\ ev.op = "lines" /\ Len(s.lines) <= 12 /\ NoContinuation(s) => r.exp.valid = Decl(s)
  \* reading the conditions with the final values of the macros is the same
  \* when no macro a condition depends on changes later
  /\ ev.op = "spec" => LET w == RpmWalk(s.lines, s.macros, s.cpu, s.os)
                       IN s.stable => w.valid = ProcessConditions(s.lines, Skip(s), [Env(s) EXCEPT !.macros = w.macros])
=============================================================================
