-------------------------------- MODULE C11 ---------------------------------
(* Reading and editing the macros of %prep.                                  *)
EXTENDS Prep

Start(init) == ParsePrep(init.lines)
Row(m) == [name |-> m.name, kind |-> KindOf(m.name), number |-> IF IsPatch(m) THEN PatchNo(m) ELSE -1,
           text |-> Render(m.o.toks), pos |-> Positional(m.o),
           vals |-> [i \in 1..Len(OptSeq(m.o)) |-> GetOpt(m.o, OptSeq(m.o)[i])]]
Rows(es) == [i \in 1..Len(es) |-> Row(es[i])]
View(p, err) == [err |-> err, items |-> Rows(p.es), raw |-> RawPrep(p)]
\* a macro that was given options keeps the space in front of them
Spaced(p) == [p EXCEPT !.es = [i \in 1..Len(@) |-> IF @[i].delim = "" /\ @[i].o.toks # <<>> THEN [@[i] EXCEPT !.delim = " "] ELSE @[i]]]
Ok(p) == LET q == Spaced(p) IN [st |-> q, exp |-> View(q, "")]
Err(p, e) == [st |-> p, exp |-> View(p, e)]
Pick(es, ix) == [k \in 1..Len(ix) |-> es[ix[k]]]
Step(p, ev) ==
  LET n == Len(p.es)
      k == IF "i" \in DOMAIN ev THEN PyIdx(ev.i, n) ELSE 0
  IN
  CASE ev.op = "look" -> Ok(p)
    [] ev.op = "slice" -> [st |-> p, exp |-> [items |-> Rows(Pick(p.es, PySlice(ev.sl, n)))]]
    [] ev.op = "in" -> [st |-> p, exp |-> [r |-> HasMacro(p, ev.n)]]
    [] ev.op = "inkind" -> [st |-> p, exp |-> [r |-> \E i \in 1..n : KindOf(p.es[i].name) = ev.n]]
    [] ev.op = "byname" -> [st |-> p, exp |-> [r |-> FindName(p, ev.n) - 1]]
    [] ev.op \in {"opt", "delopt", "pos", "num"} /\ k = 0 -> Err(p, "index")
    [] ev.op = "opt" -> IF ev.n \notin OptChars(p.es[k].o) THEN Err(p, "attr")
                        ELSE IF SetRefused(p.es[k].o, ev.n, ev.v) THEN Err(p, "refused")
                        ELSE Ok([p EXCEPT !.es[k].o = SetOpt(@, ev.n, ev.v)])
    [] ev.op = "delopt" -> IF ev.n \notin OptChars(p.es[k].o) THEN Err(p, "attr")
                           ELSE Ok([p EXCEPT !.es[k].o = DelOpt(@, ev.n)])
    [] ev.op = "pos" -> IF Len(PosIdx(p.es[k].o)) < ev.j THEN Err(p, "index")
                        ELSE Ok([p EXCEPT !.es[k].o = PosSet(@, ev.j, ev.v)])
    [] ev.op = "num" -> IF IsPatch(p.es[k]) THEN Ok([p EXCEPT !.es[k] = SetPatchNo(@, ev.v)]) ELSE Err(p, "attr")
    [] ev.op = "add" -> IF KwRefused(ev.kw) THEN Err(p, "refused") ELSE Ok(AddPatch(p, NewPatch(ev.number, ev.old, ev.kw)))
    [] ev.op = "rm" -> IF FindNo(p, ev.number) = 0 THEN Ok(p) ELSE Ok(DelMacro(p, FindNo(p, ev.number)))
    [] ev.op \in {"del", "pop"} -> IF k = 0 THEN Err(p, "index") ELSE Ok(DelMacro(p, k))
    [] ev.op = "dels" -> Ok(DelMacros(p, Rng(PySlice(ev.sl, n))))
    [] ev.op = "clear" -> Ok(DelMacros(p, 1..n))
    [] ev.op = "delname" -> IF FindName(p, ev.n) = 0 THEN Err(p, "attr") ELSE Ok(DelMacro(p, FindName(p, ev.n)))
    [] ev.op = "ins" -> Ok([p EXCEPT !.es = InsAt(@, PyIns(ev.i, n), [NewPatch(-1, FALSE, <<>>) EXCEPT !.name = ev.n, !.o = NewOpts(ev.n, Tokenize(ev.s).toks)])])
    [] ev.op = "reopen" -> Ok(ParsePrep(RawPrep(p)))

-----------------------------------------------------------------------------
(* The property                                                              *)
\* everything that is not one of the macros: the lines in order
Other(p) == Flat([i \in 1..Len(p.es) |-> p.es[i].pre]) \o p.rem
Bare(es) == [i \in 1..Len(es) |-> [es[i] EXCEPT !.pre = <<>>]]
Without(q, S) == LET ix == Filt([i \in 1..Len(q) |-> i], LAMBDA i : i \notin S) IN Pick(q, ix)
Edited(p, q, k) == Without(q.es, {k}) = Without(p.es, {k}) /\ q.rem = p.rem
                   /\ q.es[k].pre = p.es[k].pre /\ q.es[k].pf = p.es[k].pf /\ q.es[k].sf = p.es[k].sf
Gone(p, q, S) == Bare(q.es) = Without(Bare(p.es), S) /\ Other(q) = Other(p)
Prop(p, ev, r) ==
  LET q == r.st
      n == Len(p.es)
      k == IF "i" \in DOMAIN ev THEN PyIdx(ev.i, n) ELSE 0
  IN CASE ev.op \in {"look", "slice", "in", "inkind", "byname"} -> q = p
       [] r.exp.err # "" -> q = p
       [] ev.op = "opt" -> /\ Edited(p, q, k)
                           /\ q.es[k].name = p.es[k].name
                           /\ \A c \in OptChars(p.es[k].o) \ {ev.n} : GetOpt(q.es[k].o, c) = GetOpt(p.es[k].o, c)
       [] ev.op = "delopt" -> Edited(p, q, k) /\ FindOpt(q.es[k].o, ev.n)[1] = 0
       [] ev.op = "pos" -> Edited(p, q, k) /\ q.es[k].name = p.es[k].name
       [] ev.op = "num" -> /\ Edited(p, q, k)
                           /\ PatchNo(q.es[k]) = ev.v
                           /\ \A c \in OptChars(p.es[k].o) \ {"P"} : GetOpt(q.es[k].o, c) = GetOpt(p.es[k].o, c)
       [] ev.op = "add" ->
            /\ Other(q) = Other(p)
            /\ \E at \in 1..(n + 1) :
                 LET m == q.es[at]
                     P == {i \in 1..n : IsPatch(p.es[i])}
                     D(x) == \A i \in P : Abs(PatchNo(x) - PatchNo(m)) <= Abs(PatchNo(p.es[i]) - PatchNo(m))
                 IN /\ DropAt(q.es, at) = p.es
                    /\ IsPatch(m)
                    /\ ev.number >= 0 => (PatchNo(m) = ev.number \/ (~ev.old /\ GetOpt(m.o, "P") = "!" \o ToString(PatchNo(m))))
                    /\ \/ P = {} /\ at = n + 1
                       \/ at > 1 /\ IsPatch(q.es[at - 1]) /\ PatchNo(q.es[at - 1]) <= PatchNo(m) /\ D(q.es[at - 1])
                       \/ at <= n /\ IsPatch(q.es[at + 1]) /\ PatchNo(q.es[at + 1]) > PatchNo(m) /\ D(q.es[at + 1])
       [] ev.op = "rm" -> IF FindNo(p, ev.number) = 0 THEN q = p ELSE Gone(p, q, {FindNo(p, ev.number)})
       [] ev.op \in {"del", "pop"} -> Gone(p, q, {k})
       [] ev.op = "dels" -> Gone(p, q, Rng(PySlice(ev.sl, n)))
       [] ev.op = "clear" -> Gone(p, q, 1..n)
       [] ev.op = "delname" -> Gone(p, q, {FindName(p, ev.n)})
       [] ev.op = "ins" -> DropAt(q.es, PyIns(ev.i, n)) = p.es /\ q.rem = p.rem
       [] ev.op = "reopen" -> RawPrep(q) = RawPrep(p) /\ Rows(q.es) = Rows(p.es)
=============================================================================
