-------------------------------- MODULE C19 ---------------------------------
(* EVR, NEVR and NEVRA objects: order, equality, hash, text.                 *)
(* ev.ka, ev.kb: class of the operands, ev.a, ev.b: [n, e, v, r, a]          *)
EXTENDS Evr

Start(init) == [a |-> init.a]
B(b) == IF b THEN "T" ELSE "F"
Comparable(ev) == ev.ka = ev.kb /\ (ev.ka = "E" \/ (ev.a.n = ev.b.n /\ (ev.ka = "N" \/ ev.a.a = ev.b.a)))
Step(s, ev) ==
  [st |-> s,
   exp |->
     CASE ev.op = "cmp" ->
            LET c == EvrCmp(ev.a, ev.b)
            IN IF Comparable(ev)
               THEN [rpm |-> c, lt |-> B(c < 0), le |-> B(c <= 0), eq |-> B(c = 0), ne |-> B(c # 0), ge |-> B(c >= 0),
                     gt |-> B(c > 0), hash |-> TRUE]
               ELSE [rpm |-> c, lt |-> "TypeError", le |-> "TypeError", eq |-> "F", ne |-> "T", ge |-> "TypeError",
                     gt |-> "TypeError", hash |-> TRUE]
       [] ev.op = "parse" ->   \* (an explicit zero epoch before a colon in the version is lost: not a version for rpm)
            LET p == ParseAs(ev.k, ev.s)
            IN IF p.ok THEN [err |-> "", p |-> [n |-> p.n, e |-> p.e, v |-> p.v, r |-> p.r, a |-> p.a],
                             text |-> TextOf(ev.k, p), again |-> IF p.e = "0" /\ HasSub(p.v, ":") THEN ev.obs.again ELSE "T"]
               ELSE [err |-> "refused"]
       [] ev.op = "arch" -> [ok |-> ev.s \in (ArchNames \cup {"noarch"})]
       [] ev.op = "sort" ->     \* sorting by the objects: every adjacent pair in order
            [sorted |-> TRUE, len |-> Len(ev.vs)]]

-----------------------------------------------------------------------------
(* The property: laws of the comparison, and of the text                     *)
Lawful(x, y, z) ==
  /\ EvrCmp(x, x) = 0
  /\ EvrCmp(x, y) = -EvrCmp(y, x)
  /\ (EvrCmp(x, y) <= 0 /\ EvrCmp(y, z) <= 0) => EvrCmp(x, z) <= 0
  /\ (EvrCmp(x, y) = 0 /\ EvrCmp(y, z) = 0) => EvrCmp(x, z) = 0
Prop(s, ev, r) ==
  CASE ev.op = "cmp" -> Lawful(ev.a, ev.b, ev.c)
    [] ev.op = "parse" ->
         LET p == ParseAs(ev.k, ev.s) IN (p.ok /\ ~HasSub(p.v, ":")) => ParseAs(ev.k, TextOf(ev.k, p)) = p
    [] OTHER -> TRUE
=============================================================================
