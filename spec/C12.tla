-------------------------------- MODULE C12 ---------------------------------
(* Option strings as getopt mappings.                                        *)
EXTENDS Options

\* popt: arguments are maximal runs of adjacent non-space tokens
Argv(s) ==
  LET r == Tokenize(s)
      RECURSIVE f(_, _, _)
      f(i, cur, acc) ==
        IF i > Len(r.toks) THEN (IF cur = "" THEN acc ELSE Append(acc, cur))
        ELSE IF r.toks[i].t = "w" THEN f(i + 1, "", IF cur = "" THEN acc ELSE Append(acc, cur))
        ELSE f(i + 1, cur \o r.toks[i].v, acc)
  IN f(1, "", <<>>)

Start(init) ==
  IF init.k = "opts"
  THEN [toks |-> Tokenize(init.s).toks, optstring |-> init.optstring, defaults |-> init.defaults]
  ELSE [toks |-> <<>>, optstring |-> "", defaults |-> <<>>]

View(o, err) ==
  [err |-> err, text |-> Render(o.toks),
   values |-> [i \in 1..Len(OptSeq(o)) |-> GetOpt(o, OptSeq(o)[i])],
   keys |-> Keys(o), len |-> OptLen(o), positional |-> Positional(o)]
Ok(o) == [st |-> o, exp |-> View(o, "")]
Err(o, e) == [st |-> o, exp |-> View(o, e)]

RECURSIVE PosAppendAll(_, _)
PosAppendAll(o, vs) == IF vs = <<>> THEN o
                       ELSE PosAppendAll(PosIns(o, Len(PosIdx(o)) + 1, vs[1]), Tail(vs))

Step(o, ev) ==
  LET n == Len(PosIdx(o)) IN
  CASE ev.op = "tokenize" ->
         LET r == Tokenize(ev.s) IN
         [st |-> o, exp |-> [ok |-> r.ok, err |-> r.err, toks |-> r.toks, text |-> Render(r.toks),
                             again |-> LET q == Tokenize(Render(r.toks)) IN q.ok /\ q.toks = r.toks]]
    [] ev.op = "argv" -> [st |-> o, exp |-> [argv |-> Argv(ev.s)]]
    [] ev.op = "text" -> [st |-> o, exp |-> [text |-> ev.s]]
    [] ev.op = "look" -> Ok(o)
    [] ev.op = "set" -> IF ev.n \notin OptChars(o) THEN Err(o, "attr")
                        ELSE IF SetRefused(o, ev.n, ev.v) THEN Err(o, "refused") ELSE Ok(SetOpt(o, ev.n, ev.v))
    [] ev.op = "del" -> Ok(DelOpt(o, ev.n))
    [] ev.op = "pset" -> IF PyIdx(ev.i, n) = 0 THEN Err(o, "index") ELSE Ok(PosSet(o, PyIdx(ev.i, n), ev.v))
    [] ev.op = "pdel" -> IF PyIdx(ev.i, n) = 0 THEN Err(o, "index") ELSE Ok(PosDel(o, PyIdx(ev.i, n)))
    [] ev.op = "pdels" -> Ok(PosDelAll(o, Rng(PySlice(ev.sl, n))))
    [] ev.op = "pget" -> LET ix == PySlice(ev.sl, n) IN
                         [st |-> o, exp |-> [items |-> [k \in 1..Len(ix) |-> Positional(o)[ix[k]]]]]
    [] ev.op = "pins" -> Ok(PosIns(o, PyIns(ev.i, n), ev.v))
    [] ev.op = "passign" -> Ok(PosAppendAll(PosDelAll(o, 1..n), ev.vs))

-----------------------------------------------------------------------------
(* The property, on the abstract view: options map and positional list       *)
Same(o, p, except) ==
  /\ \A m \in OptChars(o) \ except : GetOpt(p, m) = GetOpt(o, m)
  /\ p.optstring = o.optstring /\ p.defaults = o.defaults
\* what the tokens of the other options and arguments look like, in order
Others(o, n) == Filt(o.toks, LAMBDA t : t.t # "w" /\ ~StartsWith(t.v, "-" \o n))
Shown(v) == IF IsIntV(v) THEN "!" \o StripZeros(From(v, 2)) ELSE IF IsBoolV(v) THEN v ELSE Show(v)
Subsequence(a, b) ==
  LET RECURSIVE f(_, _)
      f(i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
                 ELSE IF a[i] = b[j] THEN f(i + 1, j + 1) ELSE f(i, j + 1)
  IN f(1, 1)
Faithful12(o) == LET q == Tokenize(Render(o.toks)) IN q.ok /\ q.toks = o.toks
\* every option that requires an argument has one
WellFormed(o) ==
  \A i \in 1..Len(o.toks) :
    LET t == o.toks[i] IN
    (Len(t.v) = 2 /\ StartsWith(t.v, "-") /\ Ch(t.v, 2) \in OptChars(o) /\ NeedsArg(o, Ch(t.v, 2)))
    => LET j == IF i < Len(o.toks) /\ o.toks[i + 1].t = "w" THEN i + 2 ELSE i + 1
       IN j <= Len(o.toks) /\ ~StartsWith(o.toks[j].v, "-")
Prop(o, ev, r) ==
  LET p == r.st IN
  WellFormed(o) =>
  /\ Faithful12(p)
  /\ CASE ev.op \in {"tokenize", "argv", "text", "look", "pget"} -> p = o
       [] ev.op = "set" ->
            IF r.exp.err # "" THEN p = o
            ELSE /\ Same(o, p, {ev.n})
                 /\ Positional(p) = Positional(o)
                 /\ IF ev.v = "!None" \/ ev.v = "!False"
                    THEN GetOpt(p, ev.n) \in {"!False", Default(o, ev.n)} /\ FindOpt(p, ev.n)[1] = 0
                    ELSE GetOpt(p, ev.n) = Shown(ev.v)
       [] ev.op = "del" ->
            /\ Same(o, p, {ev.n})
            /\ Positional(p) = Positional(o)
            /\ FindOpt(p, ev.n)[1] = 0
            /\ Subsequence(Filt(p.toks, LAMBDA t : t.t # "w"), Filt(o.toks, LAMBDA t : t.t # "w"))
       [] OTHER ->
            LET a == Positional(o)
                b == Positional(p)
                n == Len(a)
            IN IF r.exp.err # "" THEN p = o
               ELSE /\ Same(o, p, {})
                    /\ CASE ev.op = "pset" -> b = [a EXCEPT ![PyIdx(ev.i, n)] = Shown(ev.v)]
                         [] ev.op = "pdel" -> b = DropAt(a, PyIdx(ev.i, n))
                         [] ev.op = "pdels" -> b = LET gone == Rng(PySlice(ev.sl, n))
                                                       keep == Filt([k \in 1..n |-> k], LAMBDA k : k \notin gone)
                                                   IN [k \in 1..Len(keep) |-> a[keep[k]]]
                         [] ev.op = "pins" -> b = InsAt(a, PyIns(ev.i, n), Shown(ev.v))
                         [] ev.op = "passign" -> b = [k \in 1..Len(ev.vs) |-> Shown(ev.vs[k])]
=============================================================================
