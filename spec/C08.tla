-------------------------------- MODULE C08 ---------------------------------
(* Adding, removing and changing sources and patches.                        *)
EXTENDS Sources

Parse0(pre, lists, s) == [s EXCEPT !.v = ParseTagsIn(pre, Env0(<<>>)),
                                   !.lists = Force([k \in 1..Len(lists) |-> ParseList(lists[k], Env0(<<>>))])]
Start(init) ==
  Parse0(init.pre, init.lists,
         [kind |-> init.kind, v |-> [items |-> <<>>, rest |-> <<>>], lists |-> <<>>, macros |-> <<>>,
          dup |-> init.dup, impl |-> init.impl, digits |-> init.digits])
RawTagsOf(s) == RawTags(s.v)
RawLists(s) == [k \in 1..Len(s.lists) |-> RawList(s.lists[k])]
Row(s, e) == [num |-> e.num, loc |-> Loc(s, e), cs |-> CommentLines(Cs(s, e))]
View(s, err, ret) ==
  LET es == Entries(s) IN
  [err |-> err, ret |-> ret, items |-> [k \in 1..Len(es) |-> Row(s, es[k])], raw |-> RawTagsOf(s), lists |-> RawLists(s)]
Ok(s) == [st |-> s, exp |-> View(s, "", -1)]
Err(s, e) == [st |-> s, exp |-> View(s, e, -1)]
Refused(s, loc) == ~s.dup /\ \E k \in 1..Len(Locs(s)) : Locs(s)[k] = loc
C(t) == [p |-> "# ", t |-> t]

Step(s, ev) ==
  LET es == Entries(s)
      n == Len(es)
  IN CASE ev.op = "look" -> Ok(s)
       [] ev.op = "ins" -> IF Refused(s, ev.loc) THEN Err(s, "dup") ELSE Ok(Insert(s, PyIns(ev.i, n), ev.loc))
       [] ev.op = "app" -> IF Refused(s, ev.loc) THEN Err(s, "dup") ELSE Ok(Insert(s, n + 1, ev.loc))
       [] ev.op = "num" -> IF Refused(s, ev.loc) THEN Err(s, "dup")
                           ELSE LET q == InsertNumbered(s, ev.num, ev.loc) IN [st |-> q[1], exp |-> View(q[1], "", q[2] - 1)]
       [] ev.op = "add_patch" ->   \* a view of its own with 4 digits
            LET s0 == Parse0(RawTagsOf(s), RawLists(s), s)
                hi == FoldLeft(LAMBDA a, e : Max2(a, e.num), -1, es)
                num == IF ev.num >= 0 THEN ev.num ELSE Max2(hi + 1, ev.initial)
                s1 == [s0 EXCEPT !.digits = ev.digits, !.dup = FALSE, !.impl = FALSE]
                q == InsertNumbered(s1, num, ev.loc)
                s2 == [q[1] EXCEPT !.digits = s.digits, !.dup = s.dup, !.impl = s.impl]
            IN IF ev.num >= 0 /\ ev.num <= hi THEN Err(s0, "number")
               ELSE IF Refused(s1, ev.loc) THEN Err(s0, "dup")
               ELSE LET s3 == AddComments(s2, Entries(s2)[q[2]], [k \in 1..Len(ev.cs) |-> C(ev.cs[k])])
                    IN Ok(Parse0(RawTagsOf(s3), RawLists(s3), s3))
       [] ev.op = "del" -> IF PyIdx(ev.i, n) = 0 THEN Err(s, "index") ELSE Ok(DelEntries(s, {PyIdx(ev.i, n)}))
       [] ev.op = "dels" -> Ok(DelEntries(s, Rng(PySlice(ev.sl, n))))
       [] ev.op = "remove" -> Ok(DelEntries(s, {k \in 1..n : Loc(s, es[k]) = ev.loc}))
       [] ev.op = "removenum" -> LET k == FirstIdx(es, LAMBDA e : e.num = ev.num) IN
                                 IF k = 0 THEN Ok(s) ELSE Ok(DelEntries(s, {k}))
       [] ev.op = "set" -> IF PyIdx(ev.i, n) = 0 THEN Err(s, "index") ELSE Ok(SetLoc(s, es[PyIdx(ev.i, n)], ev.loc))
       [] ev.op = "com" -> IF PyIdx(ev.i, n) = 0 THEN Err(s, "index")
                           ELSE Ok(AddComments(s, es[PyIdx(ev.i, n)], <<C(ev.loc)>>))
       [] ev.op = "clear" -> Ok(DelEntries(s, 1..n))
       [] ev.op = "reopen" -> Ok(Parse0(RawTagsOf(s), RawLists(s), s))

-----------------------------------------------------------------------------
(* The property                                                              *)
LC(s) == LET es == Entries(s) IN [k \in 1..Len(es) |-> [loc |-> Loc(s, es[k]), cs |-> Cs(s, es[k])]]
Nums(s) == LET es == Entries(s) IN [k \in 1..Len(es) |-> es[k].num]
Keep(q, S) == LET keep == Filt([k \in 1..Len(q) |-> k], LAMBDA k : k \notin S) IN [k \in 1..Len(keep) |-> q[keep[k]]]
OtherTags(s) == Filt(s.v.items, LAMBDA t : ~IsKind(s.kind, t.name))
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : [a[k] EXCEPT !.pre = <<>>] = [b[k] EXCEPT !.pre = <<>>]
Increasing(q) == \A k \in 1..(Len(q) - 1) : q[k] < q[k + 1]
\* one entry added at p, everything else as before; only colliding followers renumbered
Added(a, b, p, loc) ==
  LET la == LC(a)
      lb == LC(b)
      na == Nums(a)
      nb == Nums(b)
  IN /\ Len(lb) = Len(la) + 1
     /\ lb[p].loc = loc
     /\ DropAt(lb, p) = la
     /\ Increasing(na) => Increasing(nb)
     /\ \A k \in 1..(p - 1) : nb[k] = na[k]
     \* an explicit number changes only if it would be the one above
     /\ \A k \in (p + 1)..Len(nb) :
          LET e == Entries(b)[k] IN
          (e.c = 0 /\ NumText(b.v.items[e.i].name) # "" /\ nb[k] # na[k - 1]) => nb[k - 1] = na[k - 1] /\ nb[k] = nb[k - 1] + 1
Prop(s, ev, r) ==
  LET t == r.st
      n == Len(LC(s))
  IN /\ Same(OtherTags(s), OtherTags(t))
     /\ CASE ev.op = "add_patch" /\ r.exp.err # "" ->
               LC(t) = LC(s) /\ RawTagsOf(t) = RawTagsOf(s) /\ RawLists(t) = RawLists(s)
          [] ev.op = "look" \/ r.exp.err # "" -> t = s
          [] ev.op = "ins" -> Added(s, t, PyIns(ev.i, n), ev.loc)
          [] ev.op = "app" -> Added(s, t, n + 1, ev.loc)
          [] ev.op = "num" -> Added(s, t, r.exp.ret + 1, ev.loc)
          [] ev.op = "add_patch" ->
               /\ Len(LC(t)) = n + 1
               /\ \E p \in 1..(n + 1) : LC(t)[p].loc = ev.loc /\ DropAt(LC(t), p) = LC(s)
                                        /\ (Increasing(Nums(s)) => Increasing(Nums(t)))
                                        /\ Len(LC(t)[p].cs) = Len(ev.cs)
          [] ev.op \in {"del"} -> LC(t) = DropAt(LC(s), PyIdx(ev.i, n))
          [] ev.op = "dels" -> LC(t) = Keep(LC(s), Rng(PySlice(ev.sl, n)))
          [] ev.op = "remove" -> LC(t) = Keep(LC(s), {k \in 1..n : LC(s)[k].loc = ev.loc})
          [] ev.op = "removenum" -> LC(t) = (IF \E k \in 1..n : Nums(s)[k] = ev.num
                                             THEN DropAt(LC(s), FirstIdx(Nums(s), LAMBDA x : x = ev.num)) ELSE LC(s))
          [] ev.op = "set" -> LC(t) = [LC(s) EXCEPT ![PyIdx(ev.i, n)].loc = ev.loc] /\ Nums(t) = Nums(s)
          [] ev.op = "com" -> Len(LC(t)) = n /\ \A k \in 1..n : LC(t)[k].loc = LC(s)[k].loc
          [] ev.op = "clear" -> LC(t) = <<>>
          [] ev.op = "reopen" -> LC(t) = LC(s) /\ Nums(t) = Nums(s) /\ RawTagsOf(t) = RawTagsOf(s) /\ RawLists(t) = RawLists(s)
=============================================================================
