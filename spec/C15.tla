-------------------------------- MODULE C15 ---------------------------------
(* Version, release and the other tag properties; bumping the release;       *)
(* pre-release versions.                                                     *)
EXTENDS Update

Start(init) == [lines |-> init.lines, T0 |-> init.macros]
NoTagV == "!None"
Props == <<"name", "version", "release", "summary", "license", "epoch", "url">>

-----------------------------------------------------------------------------
(* [rel, dist]: a release string without the dist macro (and the number      *)
(* behind it) at its end                                                     *)
DistMacros == {"%dist", "%{dist}", "%{?dist}"}
SplitRelease(s) ==
  LET k == SpanBack(s, Len(s), Digit)
      \* a minor bump is a dot and digits
      t == IF k < Len(s) /\ k >= 1 /\ Ch(s, k) = "." THEN UpTo(s, k - 1) ELSE ""
      S == {d \in DistMacros : EndsWith(s, d)}
      B == {d \in DistMacros : t # "" /\ EndsWith(t, d)}
  IN IF S # {} THEN LET d == CHOOSE x \in S : TRUE IN [rel |-> UpTo(s, Len(s) - Len(d)), dist |-> d]
     ELSE IF B # {} THEN LET d == CHOOSE x \in B : TRUE IN [rel |-> UpTo(t, Len(t) - Len(d)), dist |-> d]
     ELSE [rel |-> s, dist |-> ""]

-----------------------------------------------------------------------------
(* rpmdev-bumpspec: the leading number, or the part behind "0.", unless what *)
(* follows is a pre-release; else the number behind the last dot; else ".1"  *)
PreMarks == {"alpha", "beta", "rc"}
Inc(s) == IncText(StripZeros(s))
BumpText(s) ==
  LET f == IF StartsWith(s, "%release_func") /\ Len(s) > 13 /\ Ch(s, 14) \in SpaceC THEN SpanEnd(s, 14, SpaceC) - 1 ELSE 0
      r == From(s, f + 1)
      zero == StartsWith(r, "0.") /\ Len(r) > 2 /\ Ch(r, 3) \in Digit
      at == IF zero THEN 3 ELSE 1
      e == SpanEnd(r, at, Digit)
      post == From(r, e)
      main == e > at /\ (zero \/ \A m \in PreMarks : ~HasSub(post, m))
      k == SpanBack(s, Len(s), Digit)
  IN IF main THEN UpTo(s, f) \o UpTo(r, at - 1) \o Inc(Sub(r, at, e - 1)) \o post
     ELSE IF k < Len(s) /\ k > 1 /\ Ch(s, k) = "." THEN UpTo(s, k) \o Inc(From(s, k + 1))
     ELSE s \o ".1"

-----------------------------------------------------------------------------
(* Pre-release patterns, by number: delimiters, words, whether digits must   *)
(* follow, whether the delimiter is captured                                 *)
Pat(p) ==
  CASE p = 1 -> [delim |-> {".", "-", "_", "~", "^"}, words |-> {"alpha", "beta", "rc", "pre"}, digits |-> "any", group |-> TRUE]
    [] p = 2 -> [delim |-> {"-"}, words |-> {"rc", "dev"}, digits |-> "some", group |-> TRUE]
    [] p = 3 -> [delim |-> {}, words |-> {"rc"}, digits |-> "any", group |-> FALSE]
\* [ok, base, suffix]: the longest suffix that matches, without its delimiter
Prerelease(v, p) ==
  LET q == Pat(p)
      suffix(x) == \E w \in q.words : /\ StartsWith(Lower(x), w)
                                      /\ AllIn(From(x, Len(w) + 1), Digit)
                                      /\ q.digits = "some" => Len(x) > Len(w)
      matches(i) == suffix(From(v, i)) \/ (Ch(v, i) \in q.delim /\ suffix(From(v, i + 1)))
      S == {i \in 1..Len(v) : matches(i)}
      i0 == CHOOSE i \in S : \A j \in S : i <= j
      d == Ch(v, i0) \in q.delim
  IN IF S = {} THEN [ok |-> FALSE, base |-> v, suffix |-> ""]
     ELSE [ok |-> TRUE, base |-> UpTo(v, i0 - 1), suffix |-> From(v, IF d THEN i0 + 1 ELSE i0)]
SetMacro(lines, T0, name, on, style) ==
  LET D == ParseDefs(lines, ValidIn(lines, T0))
      k == FindDef(D, name)
  IN IF k = 0 THEN lines
     ELSE RawDefs([D EXCEPT !.items[k] = [@ EXCEPT !.style = IF D.items[k].out THEN @ ELSE style, !.out = ~on]])

-----------------------------------------------------------------------------
Val(s, n) == TagValue(s.lines, s.T0, n)
AutoRel(s) == Uses(Val(s, "release"), "autorelease")
NoVals == [i \in 1..Len(Props) |-> ""]
Out(s, lines, err) == [st |-> [s EXCEPT !.lines = lines], exp |-> [err |-> err, text |-> lines]]
Put(s, n, v) == IF Val(s, n) = NoTagV THEN Out(s, s.lines, "attr") ELSE Out(s, SetTag(s.lines, s.T0, n, v), "")
Bumped(s) ==
  LET D == ParseDefs(s.lines, ValidIn(s.lines, s.T0))
      k == FirstIdx(D.items, LAMBDA d : Lower(d.name) \in {"release", "baserelease"} /\ d.valid /\ ~d.out)
  IN IF AutoRel(s) THEN s.lines
     ELSE IF k # 0 THEN RawDefs([D EXCEPT !.items[k].body = BumpText(@)])
     ELSE SetTag(s.lines, s.T0, "release", BumpText(Val(s, "release")))

Step(s, ev) ==
  LET sane == Sane(s.lines, s.T0) IN
  IF ~sane /\ (HasIf(s.lines) \/ ev.op = "ver") THEN [st |-> [s EXCEPT !.lines = ev.obs.text], exp |-> ev.obs]
  ELSE
  CASE ev.op = "get" ->
         LET T == Table(s.lines, s.T0)
             U == Table(s.lines, Append(s.T0, <<"dist", "">>))
             x(v) == IF v = NoTagV THEN v ELSE ExpandIn(T, v)
         IN [st |-> s,
             exp |-> [err |-> "", text |-> s.lines, raw |-> [i \in 1..Len(Props) |-> Val(s, Props[i])],
                      rel |-> SplitRelease(Val(s, "release")).rel, auto |-> AutoRel(s),
                      expanded |-> IF sane THEN [i \in 1..Len(Props) |-> x(Val(s, Props[i]))] ELSE ev.obs.expanded,
                      exprel |-> IF ~sane THEN ev.obs.exprel
                                 ELSE IF ~Sane(s.lines, Append(s.T0, <<"dist", "">>)) THEN "!RPMException"
                                 ELSE ExpandIn(U, SplitRelease(Val(s, "release")).rel)]]
    [] ev.op = "set" -> Put(s, ev.n, ev.v)
    [] ev.op = "rel" -> Put(s, "release", ev.v \o SplitRelease(Val(s, "release")).dist)
    [] ev.op = "both" ->
         LET a == Put(s, "version", ev.n) IN Put(a.st, "release", ev.v \o SplitRelease(Val(s, "release")).dist)
    [] ev.op = "bump" -> Out(s, Bumped(s), "")
    [] ev.op = "ver" ->
         LET m == Prerelease(ev.v, ev.pat)
             use == ev.pat # 0
             l1 == IF use /\ ev.mac # "" THEN SetMacro(s.lines, s.T0, ev.mac, m.ok, ev.style) ELSE s.lines
             v == IF use /\ m.ok THEN m.base \o "~" \o m.suffix ELSE ev.v
         IN IF use /\ m.ok /\ ~Pat(ev.pat).group THEN Out(s, s.lines, "pattern")
            ELSE IF ~Sane(l1, s.T0) \/ Derails(l1, s.T0, "version", v, Rng(ev.prot)) THEN [st |-> [s EXCEPT !.lines = ev.obs.text], exp |-> ev.obs]
            ELSE Out(s, UpdateTag(l1, s.T0, "version", v, Rng(ev.prot)), "")

-----------------------------------------------------------------------------
(* The property                                                              *)
Tags15(s) == LET G == ParseTags(s.lines, ValidIn(s.lines, s.T0)) IN [i \in 1..Len(G.items) |-> <<G.items[i].name, G.items[i].value>>]
Changed(a, b) == {i \in 1..Len(a) : a[i] # b[i]}
Prop(s, ev, r) ==
  LET a == s.lines
      b == r.st.lines
      ta == Tags15(s)
      tb == Tags15(r.st)
  IN \/ ~Sane(a, s.T0)
     \/ r.exp.err # "" /\ a = b
     \/ /\ r.exp.err = ""
        /\ Len(a) = Len(b)
        /\ CASE ev.op = "get" -> a = b
             [] ev.op = "set" -> /\ Val(r.st, ev.n) = ev.v
                                 /\ \A i \in Changed(ta, tb) : SameName(ta[i][1], ev.n)
             [] ev.op = "rel" -> /\ SplitRelease(ev.v).dist = "" => SplitRelease(Val(r.st, "release")).rel = ev.v \/ SplitRelease(Val(s, "release")).dist = ""
                                 /\ SplitRelease(Val(s, "release")).dist # "" => EndsWith(Val(r.st, "release"), SplitRelease(Val(s, "release")).dist)
                                 /\ \A i \in Changed(ta, tb) : SameName(ta[i][1], "release")
             [] ev.op = "both" -> \A i \in Changed(ta, tb) : Lower(ta[i][1]) \in {"version", "release"}
             [] ev.op = "bump" -> IF AutoRel(s) THEN a = b ELSE Cardinality(Changed(a, b)) = 1
             [] ev.op = "ver" ->
                  Sane(b, s.T0) =>
                    LET T == Table(b, s.T0)
                        m == Prerelease(ev.v, ev.pat)
                    IN ExpandIn(T, Val(r.st, "version")) = ExpandIn(T, IF ev.pat # 0 /\ m.ok THEN m.base \o "~" \o m.suffix ELSE ev.v)
=============================================================================
