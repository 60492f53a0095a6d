------------------------------- MODULE Update -------------------------------
(* Updating a value through the macros and tags it refers to                 *)
(* (ValueParser.construct_regex, Specfile.update_value / update_tag).        *)
(* The document is the preamble: a sequence of lines.                        *)
EXTENDS Tags

-----------------------------------------------------------------------------
(* What rpm's macro table is after reading the lines: definitions and tags   *)
(* in order (%global is expanded when it is met), T0 being defined before    *)
ValidIn(lines, T0) == ProcessConditions(lines, BodyLines(ParseDefs(lines, AllValid(lines))), [macros |-> T0, cpu |-> "x", os |-> "y"])
Allowed == AsciiLetter \cup Digit \cup {".", "_", "+", "~", "^", "%", "{", "}"}
\* what rpm accepts as the expanded value of a tag
Acceptable(n, v) ==
  /\ v # ""
  /\ n \in {"name", "version", "release"} => ~HasSub(v, "..")
  /\ n \in {"version", "release"} => AllIn(v, Allowed)
  /\ n = "name" => AllIn(v, (Allowed \cup {"-"}) \ {"~", "^"}) /\ Ch(v, 1) \notin {".", "-", "+"}
  /\ n = "epoch" => AllIn(v, Digit)
\* [T, ok]
ReadAll(lines, T0) ==
  LET ok == ValidIn(lines, T0)
      D == ParseDefs(lines, ok)
      G == ParseTags(lines, ok)
      dp == Force([i \in 1..Len(D.items) |-> DefPos(D, i) + 1])
      tp == Force([i \in 1..Len(G.items) |-> TagPos(G, i) + 1])
      RECURSIVE f(_, _, _)
      f(i, T, good) ==
        IF i > Len(lines) THEN [T |-> T, ok |-> good]
        ELSE LET d == FirstIdx(dp, LAMBDA p : p = i)
                 t == FirstIdx(tp, LAMBDA p : p = i)
             IN IF d # 0
                THEN LET m == D.items[d] IN
                     f(i + 1, IF m.out \/ ~m.valid THEN T
                              ELSE Append(T, <<m.name, IF m.glob THEN ExpandIn(T, m.body) ELSE m.body>>), good)
                ELSE IF t # 0
                THEN LET m == G.items[t]
                         v == Strip(ExpandIn(T, m.value))
                         n == Lower(m.name)
                     IN IF ~m.valid THEN f(i + 1, T, good)
                        ELSE f(i + 1, T \o <<<<n, v>>, <<Upper(m.name), v>>>>, good /\ Acceptable(n, v))
                ELSE f(i + 1, T, good)
  IN f(1, T0, TRUE)
Table(lines, T0) == ReadAll(lines, T0).T
\* rpm refuses the spec otherwise
Sane(lines, T0) == LET r == ReadAll(lines, T0) IN r.ok /\ \A n \in {"name", "version", "release", "summary", "license"} : Defined(r.T, n)

-----------------------------------------------------------------------------
(* Pattern of a value: pieces [k, t] with k = "c" constant, "g" entity       *)
(* (greedy, non-empty; the same text wherever it occurs again), "s" free     *)
(* part (lazy, non-empty)                                                    *)
Piece(k, t) == [k |-> k, t |-> t]
\* token: [k: "c" / "v" / "g", r: text in the value, t: text as written]
Tk(k, r, t) == [k |-> k, r |-> r, t |-> t]

\* conditional expansions dissolved: [toks, seen, flip]
RECURSIVE Dissolve(_, _, _, _, _)
Dissolve(T, nodes, mod, flippable, a0) ==
  FoldLeft(
    LAMBDA a, n :
      CASE n.k = "cond" ->
             LET neg == Bangs(n.prefix) % 2 = 1
                 holds == IF neg THEN ~Defined(T, n.name) ELSE Defined(T, n.name)
                 go == /\ n.name \in mod
                       /\ IF holds THEN n.name \notin a.flip
                          ELSE n.name \in flippable /\ (n.name \in a.seen => n.name \in a.flip)
                 b == [a EXCEPT !.seen = @ \cup {n.name}, !.flip = IF holds THEN @ ELSE @ \cup {n.name},
                                !.toks = Append(@, Tk("c", "", "%{" \o n.prefix \o n.name \o ":"))]
                 c == Dissolve(T, n.nodes, mod, flippable, b)
             IN IF go THEN [c EXCEPT !.toks = Append(@, Tk("c", "", "}"))]
                ELSE [a EXCEPT !.toks = Append(@, Tk("c", IF n.name \in a.flip THEN "" ELSE ExpandIn(T, Text(n)), Text(n)))]
        [] n.k = "lit" -> [a EXCEPT !.toks = Append(@, Tk("v", n.body, n.body))]
        [] n.k \in {"sub", "enc"} ->
             [a EXCEPT !.toks = Append(@,
               IF Bangs(n.prefix) % 2 = 0 /\ n.name \in mod /\ n.args = <<>> THEN Tk("g", n.name, Text(n))
               ELSE Tk("c", ExpandIn(T, Text(n)), Text(n)))]
        [] OTHER -> [a EXCEPT !.toks = Append(@, Tk("c", ExpandIn(T, Text(n)), Text(n)))],
    a0, nodes)

Squash(toks) ==
  FoldLeft(LAMBDA a, t : IF a # <<>> /\ t.k # "g" /\ a[Len(a)].k = t.k
                         THEN [a EXCEPT ![Len(a)] = Tk(@.k, @.r \o t.r, @.t \o t.t)] ELSE Append(a, t), <<>>, toks)
GroupBehind(ts, i) ==
  LET j == FirstIdx(SubSeq(ts, i + 1, Len(ts)), LAMBDA t : ~(t.k = "c" /\ t.r = ""))
  IN j # 0 /\ ts[i + j].k = "g"
GroupBefore(ts, i) ==
  LET j == LastIdx(SubSeq(ts, 1, i - 1), LAMBDA t : ~(t.k = "c" /\ t.r = "")) IN j # 0 /\ ts[j].k = "g"
\* a literal part: what must stay next to a group, and the free rest
VarPieces(s, before, after) ==
  LET p == IF before THEN SpanEnd(s, 1, Word) ELSE 0                   \* last position of the prefix
      q == IF after THEN SpanBack(s, Len(s), Word) ELSE Len(s) + 1     \* first position of the suffix
  IN IF p > Len(s) \/ q < 1 \/ p >= q THEN <<Piece("c", s)>>
     ELSE Filt(<<Piece("c", UpTo(s, p)), Piece("s", Sub(s, p + 1, q - 1)), Piece("c", From(s, q))>>, LAMBDA x : x.t # "")
\* [ok, pieces: <<matched piece, text written>>, flip]
Pattern(T, value, mod, flippable) ==
  LET f == Dissolve(T, Parse(value).nodes, mod, flippable, [toks |-> <<>>, seen |-> {}, flip |-> {}])
      ts == Squash(f.toks)
      adjacent == \E i \in 1..(Len(ts) - 1) : ts[i].k = "g" /\ ts[i + 1].k = "g"
  IN [ok |-> ~adjacent, flip |-> f.flip,
      pieces |-> Flat([i \in 1..Len(ts) |->
        CASE ts[i].k = "c" -> <<[p |-> Piece("c", ts[i].r), w |-> ts[i].t]>>
          [] ts[i].k = "g" -> <<[p |-> Piece("g", ts[i].r), w |-> ts[i].t]>>
          [] ts[i].k = "v" -> LET v == VarPieces(ts[i].r, GroupBefore(ts, i), GroupBehind(ts, i))
                              IN [j \in 1..Len(v) |-> [p |-> v[j], w |-> v[j].t]]])]

\* the first way (greedy entities, lazy free parts) to read s as the pieces: a
\* sequence of texts, or <<"fail">> of wrong length
NoMatch == [ok |-> FALSE, parts |-> <<>>]
MatchPieces(ps, s) ==
  LET RECURSIVE f(_, _, _), try(_, _, _, _, _)
      f(i, pos, parts) ==
        IF i > Len(ps) THEN (IF pos = Len(s) + 1 THEN [ok |-> TRUE, parts |-> parts] ELSE NoMatch)
        ELSE LET p == ps[i]
                 prev == FirstIdx(SubSeq(ps, 1, i - 1), LAMBDA x : x.k = "g" /\ x.t = p.t)
                 fixed == IF p.k = "c" THEN p.t ELSE parts[prev]
             IN IF p.k = "c" \/ (p.k = "g" /\ prev # 0)
                THEN (IF fixed = "" \/ StartsAt(s, pos, fixed) THEN f(i + 1, pos + Len(fixed), Append(parts, fixed)) ELSE NoMatch)
                ELSE IF p.k = "g" THEN try(i, pos, Len(s), -1, parts)
                ELSE try(i, pos, pos, 1, parts)
      try(i, pos, e, step, parts) ==
        IF e < pos \/ e > Len(s) THEN NoMatch
        ELSE LET r == f(i + 1, e + 1, Append(parts, Sub(s, pos, e)))
             IN IF r.ok THEN r ELSE try(i, pos, e + step, step, parts)
  IN f(1, 1, <<>>)

-----------------------------------------------------------------------------
(* Entities: [name, value, tag, pos, disabled, locked, updated, flip]        *)
Entities(lines, T0, T, prot) ==
  LET ok == ValidIn(lines, T0)
      D == ParseDefs(lines, ok)
      G == ParseTags(lines, ok)
      ds == Flat([i \in 1..Len(D.items) |->
              LET m == D.items[i] IN
              IF ~m.valid \/ m.name \in prot \/ LastChar(m.name) = ")" THEN <<>>
              ELSE <<[name |-> m.name, value |-> m.body, tag |-> FALSE, pos |-> DefPos(D, i),
                      disabled |-> m.out \/ ExpandIn(T, m.body) = "", locked |-> FALSE, updated |-> FALSE, flip |-> FALSE]>>])
      ts == Flat([i \in 1..Len(G.items) |->
              LET m == G.items[i] IN
              IF ~m.valid \/ m.name \in prot THEN <<>>
              ELSE <<[name |-> Lower(m.name), value |-> m.value, tag |-> TRUE, pos |-> TagPos(G, i),
                      disabled |-> FALSE, locked |-> FALSE, updated |-> FALSE, flip |-> FALSE]>>])
      all == ds \o ts
      \* in order of position
      RECURSIVE ins(_, _)
      ins(q, e) == IF q = <<>> \/ q[Len(q)].pos <= e.pos THEN Append(q, e) ELSE Append(ins(SubSeq(q, 1, Len(q) - 1), e), q[Len(q)])
  IN FoldLeft(LAMBDA q, e : ins(q, e), <<>>, all)

RECURSIVE Refers(_, _)
Refers(e, nodes) ==
  \E i \in 1..Len(nodes) :
    LET n == nodes[i] IN
    \/ n.k \in {"sub", "enc", "cond"} /\ (e.name = n.name \/ (e.tag /\ e.name = Lower(n.name)))
    \/ n.k = "cond" /\ Refers(e, n.nodes)

\* [es, res]
RECURSIVE UpdateV(_, _, _, _, _)
UpdateV(T, es, value, req, pos) ==
  LET before(e) == e.pos < pos
      mod == {e.name : e \in {x \in Rng(es) : before(x) /\ (~x.flip \/ x.disabled)}}
             \cup {Upper(e.name) : e \in {x \in Rng(es) : before(x) /\ x.tag}}
      flippable == {e.name : e \in {x \in Rng(es) : before(x) /\ ~x.tag /\ ~x.flip}}
      p1 == Pattern(T, value, mod, flippable)
      m1 == IF p1.ok THEN MatchPieces([i \in 1..Len(p1.pieces) |-> p1.pieces[i].p], req) ELSE NoMatch
      p2 == Pattern(T, value, mod, {})
      m2 == IF p2.ok THEN MatchPieces([i \in 1..Len(p2.pieces) |-> p2.pieces[i].p], req) ELSE NoMatch
      p == IF m1.ok THEN p1 ELSE p2
      m == IF m1.ok THEN m1 ELSE m2
      ps == p.pieces
      result == Cat([i \in 1..Len(ps) |-> IF ps[i].p.k = "s" THEN m.parts[i] ELSE ps[i].w])
      \* the entities of the pattern in order, each once
      RECURSIVE g(_, _)
      g(i, q) ==
        IF i > Len(ps)
        THEN [es |-> [k \in 1..Len(q) |-> IF before(q[k]) /\ q[k].name \in p.flip THEN [q[k] EXCEPT !.flip = TRUE] ELSE q[k]], res |-> result]
        ELSE IF ps[i].p.k # "g" \/ (\E j \in 1..(i - 1) : ps[j].p = ps[i].p) THEN g(i + 1, q)
        ELSE LET n == ps[i].p.t
                 k == LastIdx(q, LAMBDA e : before(e) /\ (IF e.tag THEN e.name = Lower(n) ELSE e.name = n))
                 val == m.parts[i]
             IN IF q[k].locked \/ Refers(q[k], Parse(val).nodes) THEN [es |-> q, res |-> req]
                ELSE LET u == UpdateV(T, [q EXCEPT ![k].locked = TRUE], q[k].value, val, q[k].pos)
                     IN g(i + 1, [u.es EXCEPT ![k] = [@ EXCEPT !.value = u.res, !.locked = FALSE, !.updated = TRUE]])
  IN IF value = req THEN [es |-> es, res |-> req]
     ELSE IF ~m1.ok /\ ~m2.ok THEN [es |-> es, res |-> req]
     \* a macro reference of the request must not be torn apart
     ELSE IF \E i \in 1..Len(ps) : ps[i].p.k # "c" /\ ~Parse(m.parts[i]).ok THEN [es |-> es, res |-> req]
     ELSE g(1, es)

\* entities written back into the lines
Sync(lines, T0, es) ==
  LET ok == ValidIn(lines, T0)
      D == ParseDefs(lines, ok)
      ent(i) == FirstIdx(es, LAMBDA e : ~e.tag /\ e.pos = DefPos(D, i))
      D2 == [D EXCEPT !.items = [i \in 1..Len(@) |->
              LET k == ent(i) IN
              IF k = 0 THEN @[i]
              ELSE IF es[k].updated THEN [@[i] EXCEPT !.body = es[k].value, !.out = FALSE]
              ELSE IF es[k].flip THEN [@[i] EXCEPT !.out = ~es[k].disabled] ELSE @[i]]]
      l2 == RawDefs(D2)
      G == ParseTags(l2, ValidIn(l2, T0))
      tent(i) == FirstIdx(es, LAMBDA e : e.tag /\ e.pos = TagPos(G, i))
      G2 == [G EXCEPT !.items = [i \in 1..Len(@) |->
              LET k == tent(i) IN IF k # 0 /\ es[k].updated THEN [@[i] EXCEPT !.value = es[k].value] ELSE @[i]]]
  IN RawTags(G2)

\* [lines, res]; prot: names of protected definitions and tags, as written
UpdateValue(lines, T0, value, req, pos, prot) ==
  LET T == Table(lines, T0)
      u == UpdateV(T, Entities(lines, T0, T, prot), value, req, pos)
  IN [lines |-> Sync(lines, T0, u.es), res |-> u.res]

SetTag(lines, T0, name, v) ==
  LET G == ParseTags(lines, ValidIn(lines, T0)) IN RawTags([G EXCEPT !.items[FindTag(G, name)].value = v])
HasIf(lines) == \E i \in 1..Len(lines) : HasSub(lines[i], "%if")
\* conditions mean nothing in a spec file rpm rejects: whether that happens on the way
Derails(lines, T0, name, req, prot) ==
  LET G == ParseTags(lines, ValidIn(lines, T0))
      k == FindTag(G, name)
      u == UpdateValue(lines, T0, G.items[k].value, req, TagPos(G, k), prot)
  IN HasIf(lines) /\ (~Sane(u.lines, T0) \/ ~Sane(SetTag(u.lines, T0, name, u.res), T0))
UpdateTag(lines, T0, name, req, prot) ==
  LET G == ParseTags(lines, ValidIn(lines, T0))
      k == FindTag(G, name)
      u == UpdateValue(lines, T0, G.items[k].value, req, TagPos(G, k), prot)
      l == SetTag(u.lines, T0, name, u.res)
      T == Table(l, T0)
  \* a value that does not work out is written literally
  IN IF Sane(l, T0) /\ ExpandIn(T, u.res) # ExpandIn(T, req) THEN SetTag(l, T0, name, req) ELSE l
TagValue(lines, T0, name) ==
  LET G == ParseTags(lines, ValidIn(lines, T0))
      k == FindTag(G, name)
  IN IF k = 0 THEN "!None" ELSE G.items[k].value
=============================================================================
