-------------------------------- MODULE C14 ---------------------------------
(* Updating tags through their macros.                                       *)
EXTENDS Update

Start(init) == [lines |-> init.lines, T0 |-> init.macros]
Ok14(s, lines, name, req, ret) ==
  LET T == Table(lines, s.T0)
      sane == Sane(lines, s.T0)
  IN [st |-> [s EXCEPT !.lines = lines],
      exp |-> [err |-> "", text |-> lines, ret |-> ret, sane |-> sane,
               expanded |-> IF sane /\ name # "" THEN ExpandIn(T, TagValue(lines, s.T0, name)) ELSE "",
               wanted |-> IF sane /\ name # "" THEN ExpandIn(T, req) ELSE ""]]
Fail(s, e) == [st |-> s, exp |-> [err |-> e, text |-> s.lines, ret |-> "", sane |-> Sane(s.lines, s.T0), expanded |-> "", wanted |-> ""]]
Step(s, ev) ==
  LET known == TagValue(s.lines, s.T0, ev.n) # "!None" IN
  CASE ev.op = "tag" /\ ~known -> Fail(s, "attr")
    \* not asked of a spec file rpm rejects
    [] ~Sane(s.lines, s.T0) \/ (ev.op = "tag" /\ Derails(s.lines, s.T0, ev.n, ev.v, Rng(ev.prot))) -> [st |-> [s EXCEPT !.lines = ev.obs.text], exp |-> ev.obs]
    [] ev.op = "tag" -> Ok14(s, UpdateTag(s.lines, s.T0, ev.n, ev.v, Rng(ev.prot)), ev.n, ev.v, "")
    [] ev.op = "value" ->
         LET u == UpdateValue(s.lines, s.T0, ev.old, ev.v, ev.pos, Rng(ev.prot))
         IN Ok14(s, u.lines, "", "", u.res)

-----------------------------------------------------------------------------
(* The property                                                              *)
\* entities a value refers to, directly or through others, as positions (0-based lines)
Reach(lines, T0, value, pos, prot) ==
  LET T == Table(lines, T0)
      E == Entities(lines, T0, T, prot)
      RECURSIVE names(_)
      names(nodes) == UNION {IF nodes[i].k \in {"sub", "enc"} THEN {nodes[i].name}
                             ELSE IF nodes[i].k = "cond" THEN {nodes[i].name} \cup names(nodes[i].nodes) ELSE {} : i \in 1..Len(nodes)}
      refs(v, p) == {k \in 1..Len(E) : E[k].pos < p /\ \E n \in names(Parse(v).nodes) :
                       IF E[k].tag THEN E[k].name = Lower(n) ELSE E[k].name = n}
      RECURSIVE close(_)
      close(S) == LET N == S \cup UNION {refs(E[k].value, E[k].pos) : k \in S} IN IF N = S THEN S ELSE close(N)
  IN {E[k].pos : k \in close(refs(value, pos))}
Prop(s, ev, r) ==
  LET a == s.lines
      b == r.st.lines
      own == IF ev.op = "tag" THEN LET G == ParseTags(a, ValidIn(a, s.T0)) IN {TagPos(G, FindTag(G, ev.n))} ELSE {}
      old == IF ev.op = "tag" THEN TagValue(a, s.T0, ev.n) ELSE ev.old
      pos == IF ev.op = "tag" THEN CHOOSE x \in own : TRUE ELSE ev.pos
      changed == {i \in 1..Len(a) : a[i] # b[i]}
      T == Table(b, s.T0)
  IN IF ~Sane(a, s.T0) \/ (HasIf(a) /\ ~Sane(b, s.T0)) THEN TRUE ELSE IF r.exp.err # "" THEN b = a
     ELSE /\ Len(b) = Len(a)
          /\ \A i \in changed : (i - 1) \in own \cup Reach(a, s.T0, old, pos, Rng(ev.prot))
          /\ (ev.op = "tag" /\ r.exp.sane) => r.exp.expanded = r.exp.wanted
=============================================================================
