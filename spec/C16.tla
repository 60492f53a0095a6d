-------------------------------- MODULE C16 ---------------------------------
(* Nested editing contexts of two Specfile objects.                          *)
(* st: [sp: the two, stack: the handles the user holds, innermost last, each *)
(* [sp, key, opener]].                                                       *)
EXTENDS Views

Start(init) == [sp |-> <<NewSpec(init.docs[1], init.auto[1]), NewSpec(init.docs[2], init.auto[2])>>, stack |-> <<>>]
View(g, err) ==
  [err |-> err,
   text |-> [k \in 1..2 |-> g.sp[k].lines], disk |-> [k \in 1..2 |-> g.sp[k].disk],
   handles |-> [i \in 1..Len(g.stack) |->
     LET h == g.stack[i] IN
     [same |-> FirstIdx(g.stack, LAMBDA o : o.sp = h.sp /\ o.key = h.key),
      shown |-> Shown(g.sp[h.sp], h.key)]]]
Ok(g) == [st |-> g, exp |-> View(g, "")]
Err(g, e) == [st |-> g, exp |-> View(g, e)]
KeyOf(ev, id) == IF id = 0 THEN Key(ev.kind, ev.arg) ELSE SecKey(ev.kind, id)
\* the Section object meant by "the i-th section": needs the sections view to be held
SecId(s, i) == IF i < 0 \/ ~IsOpen(s, "sections()") THEN 0
               ELSE LET q == V(s, "sections()").secs IN IF i < Len(q) THEN q[i + 1] ELSE 0
Holds(g, k, key) == \E i \in 1..Len(g.stack) : g.stack[i].sp = k /\ g.stack[i].key = key
Step(g, ev) ==
  LET k == IF "sp" \in DOMAIN ev THEN ev.sp ELSE 1
      s == g.sp[k]
  IN
  CASE ev.op \in {"open", "content", "drop"} ->
         LET id == IF ev.i >= 0 /\ Holds(g, k, "sections()") THEN SecId(s, ev.i) ELSE 0
             r == Open(s, ev.kind, ev.arg, id)
             key == KeyOf(ev, id)
         IN IF ev.i >= 0 /\ id = 0 THEN Err(g, "nosection")
            ELSE IF r.err # "" THEN Err([g EXCEPT !.sp[k] = r.s], r.err)
            ELSE IF ev.op = "open" THEN Ok([g EXCEPT !.sp[k] = r.s, !.stack = Append(@, [sp |-> k, key |-> key, opener |-> r.opener])])
            ELSE LET q == Ok([g EXCEPT !.sp[k] = Close(r.s, key, r.opener)])
                 IN IF ev.op = "drop" \/ ev.kind \in {"sources", "patches"} THEN q
                    ELSE [st |-> q.st, exp |-> q.exp @@ [content |-> Shown(r.s, key)]]
    [] ev.op = "edit" ->
         LET h == g.stack[ev.h]
             r == Edit(g.sp[h.sp], h.key, ev.e, ev.v, ev.i)
         IN IF ev.h > Len(g.stack) THEN Err(g, "nohandle") ELSE [st |-> [g EXCEPT !.sp[h.sp] = r.s], exp |-> View([g EXCEPT !.sp[h.sp] = r.s], r.err)]
    [] ev.op = "close" ->
         LET n == Len(g.stack)
             h == g.stack[n]
         IN IF n = 0 THEN Err(g, "nohandle")
            ELSE Ok([g EXCEPT !.sp[h.sp] = Close(@, h.key, h.opener), !.stack = SubSeq(@, 1, n - 1)])
    [] ev.op = "setver" ->
         LET r == Open(s, "tags", "", 0)
             e == Edit(r.s, "tags()", "set", ev.v, 0)
         IN [st |-> [g EXCEPT !.sp[k] = Close(e.s, "tags()", r.opener)],
             exp |-> View([g EXCEPT !.sp[k] = Close(e.s, "tags()", r.opener)], e.err)]
    [] ev.op = "getver" ->
         LET r == Open(s, "tags", "", 0)
             d == V(r.s, "tags()").data
         IN Err([g EXCEPT !.sp[k] = Close(r.s, "tags()", r.opener)],
                IF Has(d, "Version: ") THEN From(d[FirstIdx(d, LAMBDA l : StartsWith(l, "Version: "))], 10) ELSE "!None")
    [] ev.op = "save" -> Ok([g EXCEPT !.sp[k].disk = s.lines])
    [] ev.op = "reload" -> IF s.views # <<>> THEN Err(g, "open") ELSE Ok([g EXCEPT !.sp[k].lines = s.disk])

-----------------------------------------------------------------------------
(* The property                                                              *)
Keys(s) == {s.views[i].key : i \in 1..Len(s.views)}
\* contexts the user entered himself or that were entered on the way
Consistent(g) ==
  \A k \in 1..2 :
    LET s == g.sp[k]
        held == {g.stack[i].key : i \in {j \in 1..Len(g.stack) : g.stack[j].sp = k}}
    IN /\ \A i, j \in 1..Len(s.views) : s.views[i].key = s.views[j].key => i = j        \* one object per view and arguments
       /\ held \subseteq Keys(s)
       /\ held = {} <=> s.views = <<>>
       /\ \A key \in held : Cardinality({i \in 1..Len(g.stack) : g.stack[i].sp = k /\ g.stack[i].key = key /\ g.stack[i].opener}) <= 1
Other(a, b, k) == b.sp[3 - k] = a.sp[3 - k]
\* the views that exist before and after show the same
Undisturbed(a, b, except) == \A key \in (Keys(a) \cap Keys(b)) \ except : Shown(b, key) = Shown(a, key)
Prop(g, ev, r) ==
  LET q == r.st
      k == IF "sp" \in DOMAIN ev THEN ev.sp ELSE IF g.stack = <<>> THEN 1 ELSE IF ev.op = "edit" THEN (IF ev.h <= Len(g.stack) THEN g.stack[ev.h].sp ELSE 1)
           ELSE g.stack[Len(g.stack)].sp
      a == g.sp[k]
      b == q.sp[k]
  IN /\ Consistent(q)
     /\ Other(g, q, k)
     /\ CASE ev.op = "open" ->
               /\ b.lines = a.lines /\ b.disk = a.disk /\ Undisturbed(a, b, {})
               /\ Keys(a) \subseteq Keys(b)
               \* a new view starts from the current state of what is around it
               /\ (r.exp.err = "" /\ Len(q.stack) > 0 /\ q.stack[Len(q.stack)].key \notin Keys(a)) =>
                    LET key == q.stack[Len(q.stack)].key IN
                    CASE ev.kind \in {"lines", "md"} -> Shown(b, key) = a.lines
                      [] ev.kind = "sections" -> Shown(b, key) = a.lines
                      [] OTHER -> TRUE
          [] ev.op \in {"content", "drop", "getver"} ->
               b.lines = a.lines /\ Undisturbed(a, b, {}) /\ Keys(b) = Keys(a)
          [] ev.op = "close" ->
               IF r.exp.err # "" THEN q = g
               ELSE LET h == g.stack[Len(g.stack)]
                        v == V(a, h.key)
                    IN IF ~h.opener THEN b = a        \* a reuse commits nothing
                       ELSE /\ h.key \notin Keys(b)
                            \* the edits are part of what encloses the view, once
                            /\ (v.kind \in {"tags", "changelog", "prep"} /\ v.sec # 0 /\ "sections()" \in Keys(b)) =>
                                 b.heap[v.sec].data = v.data
                            /\ (v.kind \in {"md", "sections"}) => b.lines = Shown(a, h.key)
                            /\ (v.kind \in {"tags", "changelog", "prep"} /\ v.sec # 0 /\ "sections()" \notin Keys(b)) =>
                                 \/ ~(v.sec \in Rng(V(a, "sections()").secs))
                                 \/ \E i \in 1..Len(b.lines) : v.data = SubSeq(b.lines, i, i + Len(v.data) - 1)
                                 \/ v.data = <<>>
                            /\ ("lines()" \notin Keys(b) /\ b.auto) => b.disk = b.lines
                            /\ ("lines()" \in Keys(b) \/ ~b.auto) => b.disk = a.disk
          [] ev.op = "edit" ->
               /\ Keys(b) = Keys(a) /\ b.disk = a.disk
               /\ r.exp.err # "" => q = g
               /\ r.exp.err = "" =>
                    LET v == V(a, g.stack[ev.h].key) IN
                    /\ v.kind # "lines" => b.lines = a.lines
                    /\ Undisturbed(a, b, {v.key} \cup (IF v.kind \in {"sources", "patches", "tags"}
                                                       THEN {x \in Keys(a) : V(a, x).kind \in {"tags", "sources", "patches"}} ELSE {}))
          [] ev.op = "setver" -> Keys(b) = Keys(a) /\ (a.views # <<>> => b.lines = a.lines \/ Keys(a) = {"lines()"} \/ "sections()" \notin Keys(a))
          [] ev.op = "save" -> b.lines = a.lines /\ b.views = a.views /\ b.disk = a.lines
          [] ev.op = "reload" -> b.disk = a.disk /\ b.views = a.views
=============================================================================
