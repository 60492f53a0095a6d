------------------------------ MODULE Sources -------------------------------
(* Sources and patches: Source/Patch tags of the preamble followed by the    *)
(* entries of the %sourcelist/%patchlist sections (specfile.sources).        *)
(* state: kind "Source"/"Patch", v (tags of the preamble), lists (sequence   *)
(* of [items: [pre, cs, loc, valid], rest]), macros (for expansion), and the *)
(* arguments of the view: dup, impl, digits                                  *)
EXTENDS Tags

Env0(T) == [macros |-> T, cpu |-> "x86_64", os |-> "linux"]
ParseList(lines, env) ==
  LET skip == BodyLines(ParseDefs(lines, AllValid(lines)))
      valid == ProcessConditions(lines, skip, env)
      isCond(i) == i \notin skip /\ MatchCond(lines[i]).kw # ""
      RECURSIVE f(_, _, _)
      f(i, items, buf) ==
        IF i > Len(lines) THEN [items |-> items, rest |-> buf]
        ELSE IF Strip(lines[i]) = "" \/ StartsWith(LStrip(lines[i]), "#") \/ isCond(i)
        THEN f(i + 1, items, Append(buf, lines[i]))
        ELSE LET c == SplitComments(buf)
             IN f(i + 1, Append(items, [pre |-> c.pre, cs |-> c.cs, loc |-> lines[i], valid |-> valid[i]]), <<>>)
  IN f(1, <<>>, <<>>)
RawList(l) == Flat([i \in 1..Len(l.items) |-> l.items[i].pre \o CommentLines(l.items[i].cs) \o <<l.items[i].loc>>]) \o l.rest

NumText(name) == From(name, SpanBack(name, Len(name), Digit) + 1)
IsKind(kind, name) == LET c == Capitalize(name) IN c = kind \/ (StartsWith(c, kind) /\ IsNumeric(From(c, Len(kind) + 1)))
\* digits: 0 implicit, 1 plain, else the width of the zero-padded number
DigitsOf(name) == LET t == NumText(name) IN IF t = "" THEN 0 ELSE IF StartsWith(t, "0") THEN Len(t) ELSE 1

\* indices of the tags, and their numbers
TagIdx(s) == Filt([i \in 1..Len(s.v.items) |-> i], LAMBDA i : IsKind(s.kind, s.v.items[i].name))
TagNums(s, ix) ==
  FoldLeft(LAMBDA a, i : Append(a, LET t == NumText(s.v.items[i].name) IN
                                   IF t # "" THEN ToNat(t) ELSE IF a = <<>> THEN 0 ELSE a[Len(a)] + 1), <<>>, ix)
\* all entries: [c: 0 tags / number of the list, i: index there, num]
Entries(s) ==
  LET ix == TagIdx(s)
      nums == TagNums(s, ix)
      n == Len(ix)
      base == IF n = 0 THEN -1 ELSE nums[n]
      le == Flat([k \in 1..Len(s.lists) |-> [j \in 1..Len(s.lists[k].items) |-> <<k, j>>]])
  IN [k \in 1..n |-> [c |-> 0, i |-> ix[k], num |-> nums[k]]]
     \o [k \in 1..Len(le) |-> [c |-> le[k][1], i |-> le[k][2], num |-> base + k]]
Loc(s, e) == IF e.c = 0 THEN s.v.items[e.i].value ELSE s.lists[e.c].items[e.i].loc
Cs(s, e) == IF e.c = 0 THEN s.v.items[e.i].cs ELSE s.lists[e.c].items[e.i].cs
Val(s, e) == IF e.c = 0 THEN s.v.items[e.i].valid ELSE s.lists[e.c].items[e.i].valid
Locs(s) == LET es == Entries(s) IN [k \in 1..Len(es) |-> Loc(s, es[k])]

\* rpm: the part behind the last slash, of it the part behind the last `='
FileName(loc) ==
  LET k == LastIndexOf(loc, "/")
      t == From(loc, k + 1)
  IN IF k = 0 THEN loc ELSE From(t, LastIndexOf(t, "=") + 1)
SchemeC == AsciiLetter \cup Digit \cup {"+", "-", "."}
Remote(loc0) ==
  LET loc == LStrip(loc0)
      k == SpanEnd(loc, 1, SchemeC)
  IN k > 1 /\ Ch(loc, 1) \in AsciiLetter /\ StartsAt(loc, k, "://") /\ k + 3 <= Len(loc)
     /\ Ch(loc, k + 3) \notin {"/", "?", "#"}

-----------------------------------------------------------------------------
Implicit(s) ==
  LET ix == TagIdx(s)
  IN IF \E k \in 1..Len(ix) : NumText(s.v.items[ix[k]].name) # "" THEN FALSE
     ELSE IF Len(ix) <= 1 THEN s.impl ELSE TRUE
\* name and separator of a tag next to a reference tag
TagFormat(s, ref, num, digits) ==
  LET name == s.kind \o (IF Implicit(s) \/ digits = 0 THEN "" ELSE ZeroPad(num, digits))
      diff == Len(ref.name) - Len(name)
      k == FindAny(ref.sep, 1, {":"})
      after == From(ref.sep, k + 1)
  IN [name |-> name,
      sep |-> IF diff >= 0 THEN ref.sep \o Repeat(" ", diff) ELSE UpTo(ref.sep, k) \o UpTo(after, Len(after) + diff)]
NewTag(name, sep, loc, valid) ==
  [pre |-> <<>>, cs |-> <<>>, name |-> name, sep |-> sep, value |-> loc, px |-> "", sx |-> "", valid |-> valid]
\* followers that would have the number of the entry above get the next one
Dedup(s, start) ==
  LET ix == TagIdx(s)
      RECURSIVE f(_, _, _)
      f(k, prev, t) ==
        IF k > Len(ix) THEN t
        ELSE LET tag == t.v.items[ix[k]]
                 explicit == NumText(tag.name) # ""
                 num == IF explicit THEN ToNat(NumText(tag.name)) ELSE prev + 1
             IN IF explicit /\ num = prev
                THEN LET fm == TagFormat(t, tag, prev + 1, DigitsOf(tag.name))
                     IN f(k + 1, prev + 1, [t EXCEPT !.v.items[ix[k]].name = fm.name, !.v.items[ix[k]].sep = fm.sep])
                ELSE f(k + 1, num, t)
  IN IF start >= Len(ix) THEN s ELSE f(start + 1, TagNums(s, ix)[start], s)

\* placement of the first tag
InitialSetup(s, num) ==
  LET src == LastIdx(s.v.items, LAMBDA t : StartsWith(Lower(t.name), "source"))
      n == Len(s.v.items)
  IN IF s.kind = "Patch" /\ src # 0
     THEN LET fm == TagFormat(s, s.v.items[src], num, s.digits) IN [at |-> src + 1, name |-> fm.name, sep |-> fm.sep]
     ELSE [at |-> n + 1, sep |-> ": ",
           name |-> s.kind \o (IF s.impl \/ s.digits = 0 THEN "" ELSE ZeroPad(num, s.digits))]
LastValid(s) == IF s.v.items = <<>> THEN TRUE ELSE s.v.items[Len(s.v.items)].valid

\* p: 1-based position among the entries
Insert(s, p, loc) ==
  LET es == Entries(s)
      n == Len(es)
      e == IF p > n THEN es[n] ELSE es[p]
      at == IF p > n THEN e.i + 1 ELSE e.i
      num == IF p > n THEN e.num + 1 ELSE e.num
      ref == s.v.items[e.i]
      fm == TagFormat(s, ref, num, DigitsOf(ref.name))
      ini == InitialSetup(s, 0)
      k == Len(s.lists)
  IN IF n > 0
     THEN IF e.c = 0
          THEN Dedup([s EXCEPT !.v = InsTag(@, at, NewTag(fm.name, fm.sep, loc, ref.valid))], p)
          ELSE [s EXCEPT !.lists[e.c].items = InsAt(@, at, [pre |-> <<>>, cs |-> <<>>, loc |-> loc, valid |-> TRUE])]
     ELSE IF k > 0
     THEN [s EXCEPT !.lists[k].items = Append(@, [pre |-> <<>>, cs |-> <<>>, loc |-> loc, valid |-> TRUE])]
     ELSE [s EXCEPT !.v = InsTag(@, ini.at, NewTag(ini.name, ini.sep, loc, LastValid(s)))]

\* <<new state, 1-based index of the new entry>>
InsertNumbered(s, num, loc) ==
  LET ix == TagIdx(s)
      nums == TagNums(s, ix)
      n == Len(ix)
      best == CHOOSE k \in 1..n : /\ \A j \in 1..n : Abs(nums[k] - num) <= Abs(nums[j] - num)
                                  /\ \A j \in 1..(k - 1) : Abs(nums[j] - num) # Abs(nums[k] - num)
      p == IF nums[best] < num THEN best + 1 ELSE best
      at == IF nums[best] < num THEN ix[best] + 1 ELSE ix[best]
      ref == s.v.items[ix[best]]
      fm == TagFormat(s, ref, num, DigitsOf(ref.name))
      ini == InitialSetup(s, num)
  IN IF n > 0
     THEN <<Dedup([s EXCEPT !.v = InsTag(@, at, NewTag(fm.name, fm.sep, loc, ref.valid))], p), p>>
     ELSE <<Dedup([s EXCEPT !.v = InsTag(@, ini.at, NewTag(ini.name, ini.sep, loc, LastValid(s)))], 1), 1>>

DelEntry(s, e) ==
  IF e.c = 0 THEN [s EXCEPT !.v = DelTag(@, e.i)] ELSE [s EXCEPT !.lists[e.c].items = DropAt(@, e.i)]
RECURSIVE DelEntries(_, _)
\* S: set of 1-based positions
DelEntries(s, S) == IF S = {} THEN s
                    ELSE LET k == CHOOSE x \in S : \A y \in S : y <= x IN DelEntries(DelEntry(s, Entries(s)[k]), S \ {k})
SetLoc(s, e, loc) == IF e.c = 0 THEN [s EXCEPT !.v.items[e.i].value = loc] ELSE [s EXCEPT !.lists[e.c].items[e.i].loc = loc]
AddComments(s, e, cs) == IF e.c = 0 THEN [s EXCEPT !.v.items[e.i].cs = @ \o cs]
                         ELSE [s EXCEPT !.lists[e.c].items[e.i].cs = @ \o cs]
=============================================================================
