-------------------------------- MODULE Views -------------------------------
(* The editing contexts of Specfile objects: which views are open, what they *)
(* hold, who writes back what and when (specfile.context_management and the  *)
(* context managers of specfile.specfile).                                   *)
(*                                                                           *)
(* A Specfile is [lines, disk, auto, heap, views].  lines: the text; disk:   *)
(* the file; heap: the Section objects of the open sections view (index is   *)
(* identity); views: one record per suspended context:                       *)
(*   [key, kind, secs: section ids (sections view), sec: the section viewed  *)
(*    (0: none), data: the view's own lines, lists: its source lists,        *)
(*    subs: the contexts it entered itself, as [key, opener]]                *)
(* Contents are kept simple on purpose: one line per item, C03-C11 decide    *)
(* what the views make of their lines.                                       *)
EXTENDS Text

Hdr == {"%description", "%prep", "%sourcelist", "%patchlist", "%changelog", "%package sub", "%check"}
Split(lines) ==
  LET hs == Filt([i \in 1..Len(lines) |-> i], LAMBDA i : lines[i] \in Hdr)
      n == Len(hs)
  IN <<[head |-> "", data |-> SubSeq(lines, 1, IF n = 0 THEN Len(lines) ELSE hs[1] - 1)]>>
     \o [k \in 1..n |-> [head |-> lines[hs[k]], data |-> SubSeq(lines, hs[k] + 1, IF k < n THEN hs[k + 1] - 1 ELSE Len(lines))]]
Join(secs) == Flat([i \in 1..Len(secs) |-> (IF secs[i].head = "" THEN <<>> ELSE <<secs[i].head>>) \o secs[i].data])

NewSpec(lines, auto) == [lines |-> lines, disk |-> lines, auto |-> auto, heap |-> <<>>, views |-> <<>>]
At(s, key) == FirstIdx(s.views, LAMBDA v : v.key = key)
IsOpen(s, key) == At(s, key) # 0
V(s, key) == s.views[At(s, key)]
Blank0(key, kind) == [key |-> key, kind |-> kind, secs |-> <<>>, sec |-> 0, data |-> <<>>, lists |-> <<>>, subs |-> <<>>]
Key(kind, arg) == kind \o "(" \o arg \o ")"
SecKey(kind, id) == Key(kind, "#" \o ToString(id))

\* ids of the sections with a given header, in order
Named(s, head) == LET ids == V(s, "sections()").secs IN Filt(ids, LAMBDA k : s.heap[k].head = head)

\* leaving: a reuse does nothing, the opener writes back and leaves what it entered
RECURSIVE Close(_, _, _)
Close(s, key, opener) ==
  IF ~opener THEN s
  ELSE LET v == V(s, key)
           w == CASE v.kind = "lines" -> IF s.auto THEN [s EXCEPT !.disk = s.lines] ELSE s
                  [] v.kind = "md" -> [s EXCEPT !.lines = v.data]
                  [] v.kind = "sections" -> [s EXCEPT !.lines = Join([i \in 1..Len(v.secs) |-> s.heap[v.secs[i]]]), !.heap = <<>>]
                  [] v.kind \in {"tags", "changelog", "prep"} -> IF v.sec = 0 THEN s ELSE [s EXCEPT !.heap[v.sec].data = v.data]
                  [] v.kind \in {"sources", "patches"} ->
                       [s EXCEPT !.heap = FoldLeft(LAMBDA h, l : [h EXCEPT ![l.id].data = l.data], @, v.lists)]
           gone == [w EXCEPT !.views = DropAt(@, At(s, key))]
           RECURSIVE leave(_, _)
           leave(x, i) == IF i = 0 THEN x ELSE leave(Close(x, v.subs[i].key, v.subs[i].opener), i - 1)
       IN leave(gone, Len(v.subs))

\* entering: [s, err, opener]
Res(s, err, opener) == [s |-> s, err |-> err, opener |-> opener]
Add(s, v) == Res([s EXCEPT !.views = Append(@, v)], "", TRUE)
RECURSIVE Open(_, _, _, _)
Open(s, kind, arg, id) ==
  LET key == IF id = 0 THEN Key(kind, arg) ELSE SecKey(kind, id)
      new == Blank0(key, kind)
      sub(r, k) == [key |-> k, opener |-> r.opener]
  IN
  IF IsOpen(s, key) THEN Res(s, "", FALSE)
  ELSE CASE kind = "lines" -> Add(s, new)
    [] kind = "md" -> LET r == Open(s, "lines", "", 0)
                      IN Add(r.s, [new EXCEPT !.data = r.s.lines, !.subs = <<sub(r, "lines()")>>])
    [] kind = "sections" -> LET r == Open(s, "lines", "", 0)
                                q == Split(r.s.lines)
                            IN Add([r.s EXCEPT !.heap = q], [new EXCEPT !.secs = [i \in 1..Len(q) |-> i], !.subs = <<sub(r, "lines()")>>])
    [] kind \in {"tags", "changelog", "prep"} ->
         LET r == Open(s, "sections", "", 0)
             nm == CASE kind = "tags" -> (IF arg \in {"", "package", "kw:package"} THEN "" ELSE "%" \o arg)
                     [] kind = "changelog" -> "%changelog"
                     [] kind = "prep" -> "%prep"
             c == Named(r.s, nm)
             k == IF id # 0 THEN id ELSE IF c = <<>> THEN 0 ELSE c[1]
         IN IF k = 0 /\ kind = "tags" THEN Res(Close(r.s, "sections()", r.opener), "attr", FALSE)
            ELSE Add(r.s, [new EXCEPT !.sec = k, !.data = IF k = 0 THEN <<>> ELSE r.s.heap[k].data, !.subs = <<sub(r, "sections()")>>])
    [] kind \in {"sources", "patches"} ->
         LET r == Open(s, "sections", "", 0)
             t == Open(r.s, "tags", "", 0)
             c == Named(t.s, IF kind = "sources" THEN "%sourcelist" ELSE "%patchlist")
         IN Add(t.s, [new EXCEPT !.lists = [i \in 1..Len(c) |-> [id |-> c[i], data |-> t.s.heap[c[i]].data]],
                                 !.subs = <<sub(r, "sections()"), sub(t, "tags()")>>])

-----------------------------------------------------------------------------
\* items of a sources or patches view: <<list (0: the tags), line>>
TagWord(kind) == IF kind = "sources" THEN "Source" ELSE "Patch"
IsSourceLine(kind, l) ==
  LET w == TagWord(kind)
      e == SpanEnd(l, Len(w) + 1, Digit)
  IN StartsWith(l, w) /\ StartsAt(l, e, ": ")
Items(s, v) ==
  LET t == V(s, "tags()").data
      ix(q, n, Test(_)) == LET f == Filt([i \in 1..Len(q) |-> i], LAMBDA i : Test(q[i])) IN [k \in 1..Len(f) |-> <<n, f[k]>>]
  IN ix(t, 0, LAMBDA l : IsSourceLine(v.kind, l))
     \o Flat([n \in 1..Len(v.lists) |-> ix(v.lists[n].data, n, LAMBDA l : Strip(l) # "" /\ Ch(l, 1) # "#")])
ItemLine(s, v, it) == IF it[1] = 0 THEN V(s, "tags()").data[it[2]] ELSE v.lists[it[1]].data[it[2]]
Location(s, v, it) == LET l == ItemLine(s, v, it) IN IF it[1] = 0 THEN From(l, IndexFrom(l, 1, ": ") + 2) ELSE l

\* what a view shows
Shown(s, key) ==
  LET v == V(s, key) IN
  CASE v.kind = "lines" -> s.lines
    [] v.kind = "md" -> v.data
    [] v.kind = "sections" -> Join([i \in 1..Len(v.secs) |-> s.heap[v.secs[i]]])
    [] v.kind \in {"tags", "changelog", "prep"} -> IF v.sec = 0 THEN <<"!None">> ELSE v.data
    [] v.kind \in {"sources", "patches"} -> LET its == Items(s, v) IN [i \in 1..Len(its) |-> Location(s, v, its[i])]

\* edits: [s, err]
SetFirst(q, p, t) == LET i == FirstIdx(q, LAMBDA l : StartsWith(l, p)) IN [q EXCEPT ![i] = t]
Has(q, p) == \E i \in 1..Len(q) : StartsWith(q[i], p)
With(s, key, v) == [s EXCEPT !.views[At(s, key)] = v]
E(s, err) == [s |-> s, err |-> err]
Edit(s, key, e, x, i) ==
  LET v == V(s, key) IN
  CASE v.kind = "lines" /\ e = "add" -> E([s EXCEPT !.lines = Append(@, x)], "")
    [] v.kind = "lines" -> E([s EXCEPT !.lines = <<x>> \o @], "")
    [] v.kind = "md" -> IF Has(v.data, "%global v ") THEN E(With(s, key, [v EXCEPT !.data = SetFirst(@, "%global v ", "%global v " \o x)]), "")
                        ELSE E(s, "attr")
    [] v.kind = "sections" /\ e = "add" ->
         IF PyIdx(i, Len(v.secs)) = 0 THEN E(s, "index") ELSE E([s EXCEPT !.heap[v.secs[PyIdx(i, Len(v.secs))]].data = Append(@, "# " \o x)], "")
    [] v.kind = "sections" /\ e = "del" ->
         IF PyIdx(i, Len(v.secs)) \in {0, 1} THEN E(s, "index") ELSE E(With(s, key, [v EXCEPT !.secs = DropAt(@, PyIdx(i, Len(v.secs)))]), "")
    [] v.kind = "sections" /\ e = "new" ->
         E(With([s EXCEPT !.heap = Append(@, [head |-> "%check", data |-> <<x>>])], key, [v EXCEPT !.secs = Append(@, Len(s.heap) + 1)]), "")
    [] v.kind = "tags" -> IF Has(v.data, "Version: ") THEN E(With(s, key, [v EXCEPT !.data = SetFirst(@, "Version: ", "Version: " \o x)]), "")
                          ELSE E(s, "attr")
    [] v.kind = "changelog" -> IF v.sec = 0 THEN E(s, "none") ELSE IF ~Has(v.data, "* ") THEN E(s, "index")
                               ELSE E(With(s, key, [v EXCEPT !.data = Append(@, "- " \o x)]), "")
    [] v.kind = "prep" -> IF v.sec = 0 THEN E(s, "none") ELSE IF ~Has(v.data, "%setup") THEN E(s, "attr")
                          ELSE E(With(s, key, [v EXCEPT !.data = SetFirst(@, "%setup", "%setup -n " \o x)]), "")
    [] v.kind \in {"sources", "patches"} ->
         LET its == Items(s, v)
             k == PyIdx(i, Len(its))
             l == ItemLine(s, v, its[k])
         IN IF k = 0 THEN E(s, "index")
            ELSE IF its[k][1] = 0
            THEN E(With(s, "tags()", [V(s, "tags()") EXCEPT !.data[its[k][2]] = UpTo(l, IndexFrom(l, 1, ": ") + 1) \o x]), "")
            ELSE E(With(s, key, [v EXCEPT !.lists[its[k][1]].data[its[k][2]] = x]), "")
=============================================================================
