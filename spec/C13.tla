-------------------------------- MODULE C13 ---------------------------------
(* Values as macro nodes: one event per value.                               *)
EXTENDS ValueNodes

Start(init) == init
Obs(v) ==
  LET r == Parse(v) IN
  [ok |-> r.ok, nodes |-> r.nodes, text |-> IF r.ok THEN TextAll(r.nodes) ELSE "",
   flat |-> Flatten(r.nodes), split |-> SplitCond(v), brackets |-> CountBrackets(v)]
Step(st, ev) ==
  CASE ev.op = "value" -> [st |-> st, exp |-> Obs(ev.v)]
    [] ev.op = "uses" ->
         [st |-> st, exp |-> [autorelease |-> Uses(ev.v, "autorelease"),
                              autochangelog |-> \E i \in 1..Len(ev.lines) :
                                 ~StartsWith(LStrip(ev.lines[i]), "#") /\ Uses(ev.lines[i], "autochangelog")]]
Prop(st, ev, r) == IF ev.op = "value" THEN DelimitingOK(ev.v) ELSE TRUE
=============================================================================
