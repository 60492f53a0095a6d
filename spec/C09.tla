-------------------------------- MODULE C09 ---------------------------------
(* Reading and editing changelogs.                                           *)
EXTENDS Changelog

Start(init) == ParseLog(init.lines)
Row(e) == [h |-> e.h, c |-> e.c, evr |-> HeadEvr(e.h), ext |-> Extended(e.h), pad |-> Padding(e.h)]
Rows(es) == [i \in 1..Len(es) |-> Row(es[i])]
View(g, err) == [err |-> err, items |-> Rows(g.es), raw |-> RawLog(g)]
Ok(g) == [st |-> g, exp |-> View(g, "")]
Err(g, e) == [st |-> g, exp |-> View(g, e)]
Pick(es, ix) == [k \in 1..Len(ix) |-> es[ix[k]]]
Step(g, ev) ==
  LET n == Len(g.es) IN
  CASE ev.op = "look" -> Ok(g)
    [] ev.op = "get" -> [st |-> g, exp |-> IF PyIdx(ev.i, n) = 0 THEN [err |-> "index"]
                                           ELSE [err |-> "", item |-> Row(g.es[PyIdx(ev.i, n)])]]
    [] ev.op = "slice" -> [st |-> g, exp |-> [items |-> Rows(Pick(g.es, PySlice(ev.sl, n)))]]
    [] ev.op = "filter" -> [st |-> g, exp |-> [items |-> Rows(Pick(g.es, FilterRange(g, ev.since, ev.until)))]]
    [] ev.op = "del" -> IF PyIdx(ev.i, n) = 0 THEN Err(g, "index") ELSE Ok(DelAt(g, PyIdx(ev.i, n)))
    [] ev.op = "dels" -> Ok(DelSet(g, Rng(PySlice(ev.sl, n))))
    [] ev.op = "ins" -> Ok([g EXCEPT !.es = InsAt(@, PyIns(ev.i, n), ev.e)])
    [] ev.op = "app" -> Ok([g EXCEPT !.es = Append(@, ev.e)])
    [] ev.op = "set" -> IF PyIdx(ev.i, n) = 0 THEN Err(g, "index") ELSE Ok([g EXCEPT !.es[PyIdx(ev.i, n)] = ev.e])
    [] ev.op = "head" -> IF PyIdx(ev.i, n) = 0 THEN Err(g, "index") ELSE Ok([g EXCEPT !.es[PyIdx(ev.i, n)].h = ev.t])
    [] ev.op = "cont" -> IF PyIdx(ev.i, n) = 0 THEN Err(g, "index") ELSE Ok([g EXCEPT !.es[PyIdx(ev.i, n)].c = ev.c])
    [] ev.op = "reopen" -> Ok(ParseLog(RawLog(g)))

-----------------------------------------------------------------------------
(* The property                                                              *)
HC(es) == [i \in 1..Len(es) |-> [h |-> es[i].h, c |-> es[i].c]]
NonBlank(q) == Filt(q, LAMBDA l : Strip(l) # "")
Without(q, S) == LET ix == Filt([i \in 1..Len(q) |-> i], LAMBDA i : i \notin S) IN Pick(q, ix)
\* what parsing gives back
Parsed(g) ==
  /\ \A i \in 1..Len(g.pre) : ~IsHead(g.pre[i])
  /\ \A i \in 1..Len(g.es) :
       LET e == g.es[i] IN
       /\ IsHead(e.h)
       /\ AllBlank(e.f)
       /\ e.c # <<>> => Strip(e.c[Len(e.c)]) # ""
       /\ \A k \in 1..Len(e.c) : IsHead(e.c[k]) => AllBlank(SubSeq(e.c, 1, k - 1))
Prop(g, ev, r) ==
  LET n == Len(g.es)
      a == HC(g.es)
      b == HC(r.st.es)
  IN CASE ev.op \in {"look", "get", "slice"} -> r.st = g
       [] ev.op = "filter" ->
            LET ix == FilterRange(g, ev.since, ev.until)
                c(i, s) == EvrCmp(EvrOrZero(HeadEvr(g.es[i].h)), EvrOrZero(s))
            IN /\ r.st = g
               \* contiguous; nothing before it reaches the lower bound, nothing behind it is within the upper one
               /\ \A k \in 1..(Len(ix) - 1) : ix[k + 1] = ix[k] + 1
               /\ (ix # <<>> /\ ev.since # NoEvr) => c(ix[1], ev.since) >= 0 /\ \A i \in 1..(ix[1] - 1) : c(i, ev.since) < 0
               /\ (ix # <<>> /\ ev.until # NoEvr) => c(ix[Len(ix)], ev.until) <= 0
                                                     /\ \A i \in (ix[Len(ix)] + 1)..n : c(i, ev.until) > 0
               /\ (ev.since = NoEvr /\ ev.until = NoEvr) => Len(ix) = n
       [] r.exp.err # "" -> r.st = g
       [] ev.op = "del" -> b = Without(a, {PyIdx(ev.i, n)}) /\ NonBlank(r.st.pre) = NonBlank(g.pre)
       [] ev.op = "dels" -> b = Without(a, Rng(PySlice(ev.sl, n))) /\ NonBlank(r.st.pre) = NonBlank(g.pre)
       [] ev.op = "ins" -> Without(b, {PyIns(ev.i, n)}) = a /\ r.st.pre = g.pre
       [] ev.op = "app" -> SubSeq(r.st.es, 1, n) = g.es /\ r.st.pre = g.pre
       [] ev.op \in {"set", "head", "cont"} -> Without(r.st.es, {PyIdx(ev.i, n)}) = Without(g.es, {PyIdx(ev.i, n)}) /\ r.st.pre = g.pre
       [] ev.op = "reopen" -> RawLog(r.st) = RawLog(g) /\ Parsed(r.st)
=============================================================================
