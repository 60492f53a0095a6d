-------------------------------- MODULE C20 ---------------------------------
(* Copies, equality and representations, on an abstract heap.                *)
(* el: the elements ever seen, in order of creation, each [m: the edited     *)
(* value, s: the attached lines]; tx: their text as printed; hs: the list    *)
(* objects (views and their copies), each [k: elements held, own: lines the  *)
(* list keeps besides its elements]; vs: objects without elements of their   *)
(* own (whole spec files, sections, options, sources ...), by their text.    *)
(* With a recorded history the text of an edited object is taken from the    *)
(* record: what matters is that nothing else changes.                        *)
EXTENDS Text

Start(init) == [cls |-> init.cls, el |-> init.el, tx |-> [i \in 1..Len(init.el) |-> ""], hs |-> init.hs, vs |-> init.vs]
HasObs(ev) == "obs" \in DOMAIN ev
SameEl(s, i, j) == s.el[i] = s.el[j] /\ s.tx[i] = s.tx[j]
SameH(s, i, j) ==
  /\ s.hs[i].own = s.hs[j].own
  /\ Len(s.hs[i].k) = Len(s.hs[j].k)
  /\ \A n \in 1..Len(s.hs[i].k) : SameEl(s, s.hs[i].k[n], s.hs[j].k[n])
View20(s, ev) ==
  LET base == [el |-> s.el, hs |-> [i \in 1..Len(s.hs) |-> s.hs[i].k], vs |-> s.vs,
               eqe |-> [i \in 1..Len(s.el) |-> [j \in 1..Len(s.el) |-> SameEl(s, i, j)]],
               eqh |-> [i \in 1..Len(s.hs) |-> [j \in 1..Len(s.hs) |-> SameH(s, i, j)]],
               eqv |-> [i \in 1..Len(s.vs) |-> [j \in 1..Len(s.vs) |-> s.vs[i] = s.vs[j]]],
               err |-> ""]
  IN IF HasObs(ev) THEN base @@ [tx |-> s.tx, own |-> [i \in 1..Len(s.hs) |-> s.hs[i].own]] ELSE base
\* text of element i after the event: taken from the record where it may change
TakeTx(s, ev, which) == IF HasObs(ev) /\ Len(ev.obs.tx) = Len(s.el) THEN [s EXCEPT !.tx = [i \in 1..Len(s.el) |-> IF i \in which THEN ev.obs.tx[i] ELSE @[i]]] ELSE s
TakeOwn(s, ev, h) == IF HasObs(ev) /\ Len(ev.obs.own) = Len(s.hs) THEN [s EXCEPT !.hs[h].own = ev.obs.own[h]] ELSE s
Kids(s, h) == {s.hs[h].k[n] : n \in 1..Len(s.hs[h].k)}
Picked(q, ix) == [n \in 1..Len(ix) |-> q[ix[n]]]
AddEl(s, e, t) == [s EXCEPT !.el = Append(@, e), !.tx = Append(@, t)]
\* a deep copy: fresh elements with the same content
Deep(s, h) ==
  LET q == s.hs[h].k
      n == Len(s.el)
  IN [s EXCEPT !.el = @ \o [i \in 1..Len(q) |-> s.el[q[i]]], !.tx = @ \o [i \in 1..Len(q) |-> s.tx[q[i]]],
               !.hs = Append(@, [k |-> [i \in 1..Len(q) |-> n + i], own |-> s.hs[h].own])]
\* positions in events are taken modulo what is there
R20(x, n) == ((x - 1) % n) + 1
Ix(n, ev) == IF ev.step < 0 THEN Reverse([i \in 1..n |-> i])
             ELSE LET hi == IF ev.b < n THEN ev.b ELSE n
                  IN Filt([i \in 1..n |-> i], LAMBDA i : i > ev.a /\ i <= hi /\ (i - 1 - ev.a) % ev.step = 0)
After(s, ev) ==
  LET nh == Len(s.hs)
      h == IF nh > 0 THEN R20(ev.h, nh) ELSE 0
      nk == Len(s.hs[h].k)
      i == R20(ev.i, nk)
      e == R20(ev.e, Len(s.el))
      nv == Len(s.vs)
      v == R20(ev.h, nv)
      g == R20(ev.g, nv)
  IN
  CASE ev.op = "look" -> [s EXCEPT !.el = ev.obs.el, !.tx = ev.obs.tx, !.hs = [n \in 1..Len(ev.obs.hs) |-> [k |-> ev.obs.hs[n], own |-> ev.obs.own[n]]], !.vs = ev.obs.vs]
    \* lists of elements
    [] ev.op = "deep" -> Deep(s, h)
    [] ev.op = "shallow" -> [s EXCEPT !.hs = Append(@, s.hs[h])]
    [] ev.op = "slice" -> TakeOwn([s EXCEPT !.hs = Append(@, [s.hs[h] EXCEPT !.k = Picked(@, Ix(nk, ev))])], ev, nh + 1)
    [] ev.op = "main" -> IF s.el = <<>> THEN s ELSE TakeTx([s EXCEPT !.el[e].m = ev.v], ev, {e})
    [] ev.op = "sub" -> IF s.el = <<>> THEN s ELSE TakeTx([s EXCEPT !.el[e].s = Append(@, ev.v)], ev, {e})
    \* taking an element out may hand its surroundings over to the ones that stay,
    \* and an element may be put behind lines that close a condition
    [] ev.op = "del" -> IF nk = 0 THEN s ELSE TakeOwn(TakeTx([s EXCEPT !.hs[h].k = DropAt(@, i)], ev, Kids(s, h) \ {s.hs[h].k[i]}), ev, h)
    [] ev.op = "add" -> TakeOwn(TakeTx([AddEl(s, [m |-> ev.v, s |-> <<>>], "") EXCEPT !.hs[h].k = IF ev.front THEN <<Len(s.el) + 1>> \o @ ELSE Append(@, Len(s.el) + 1)], ev, {Len(s.el) + 1}), ev, h)
    [] ev.op = "rev" -> [s EXCEPT !.hs[h].k = Reverse(@)]
    [] ev.op = "put" -> IF nk = 0 THEN s ELSE LET x == s.hs[h].k[i] IN [AddEl(s, s.el[x], s.tx[x]) EXCEPT !.hs[h].k[R20(ev.e, nk)] = Len(s.el) + 1]
    \* objects without elements
    [] ev.op = "dup" -> [s EXCEPT !.vs = Append(@, s.vs[v])]
    [] ev.op = "new" -> IF Len(ev.obs.vs) = nv + 1 THEN [s EXCEPT !.vs = Append(@, ev.obs.vs[nv + 1])] ELSE s
    [] ev.op = "set" -> [s EXCEPT !.vs[v] = [@ EXCEPT ![ev.f] = ev.v]]
    [] ev.op = "edit" -> IF Len(ev.obs.vs) = nv THEN [s EXCEPT !.vs[v] = ev.obs.vs[v]] ELSE s
    \* a copy made while a view of the original is open, which is edited afterwards
    [] ev.op = "within" -> [s EXCEPT !.vs = Append([@ EXCEPT ![v] = [@ EXCEPT ![ev.f] = ev.v]], s.vs[v])]
    [] ev.op = "both" -> [s EXCEPT !.vs = [n \in 1..Len(@) |-> IF n = v THEN [@[n] EXCEPT !.text = ev.v] ELSE IF n = g THEN [@[n] EXCEPT !.text = ev.w] ELSE @[n]]]
\* equal when made the same way, not equal when they print differently
Verdict(o, i, j) == IF o.text[i] # o.text[j] THEN FALSE ELSE IF o.kind[i] = o.kind[j] THEN TRUE ELSE o.eq[i][j]
Step(s, ev) ==
  CASE ev.op = "eq" ->
         LET n == Len(ev.obs.text) IN
         [st |-> s, exp |-> [eq |-> [i \in 1..n |-> [j \in 1..n |-> Verdict(ev.obs, i, j)]], hash |-> TRUE, back |-> [i \in 1..n |-> TRUE], copy |-> [i \in 1..n |-> TRUE]]]
    [] ev.op = "fmt" -> [st |-> s, exp |-> [same |-> TRUE]]
    [] OTHER -> LET t == After(s, ev) IN [st |-> t, exp |-> View20(t, ev)]

-----------------------------------------------------------------------------
(* The property                                                              *)
Prop(s, ev, r) ==
  LET t == r.st
      grows == {"deep", "shallow", "slice"}
      n == Len(s.hs)
      h0 == R20(ev.h, n)
      v0 == R20(ev.h, Len(s.vs))
      e0 == R20(ev.e, Len(s.el))
  IN
  \* a copy is equal and, when deep, shares no element with anything else
  /\ ev.op = "deep" => SameH(t, h0, n + 1) /\ Kids(t, n + 1) \cap UNION {Kids(t, h) : h \in 1..n} = {}
  /\ ev.op = "shallow" => t.hs[n + 1] = t.hs[h0]
  /\ ev.op = "slice" => Kids(t, n + 1) \subseteq Kids(t, h0)
  /\ ev.op \in grows => \A h \in 1..n : t.hs[h] = s.hs[h]
  \* what happens to one list happens to it alone
  /\ ev.op \in {"del", "add", "rev", "put"} => \A h \in 1..n : h # h0 => t.hs[h] = s.hs[h]
  \* an edited element changes in all lists that hold it and nowhere else
  /\ ev.op \in {"main", "sub"} => t.hs = s.hs /\ \A e \in 1..Len(s.el) : e # e0 => t.el[e] = s.el[e] /\ t.tx[e] = s.tx[e]
  /\ ev.op \in {"set", "edit", "within"} => \A h \in 1..Len(s.vs) : h # v0 => t.vs[h] = s.vs[h]
  /\ ev.op \in {"dup", "within"} => t.vs[Len(t.vs)] = s.vs[v0]
=============================================================================
