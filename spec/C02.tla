-------------------------------- MODULE C02 ---------------------------------
(* Views without edits.  st: [lines, small: the document is short enough to  *)
(* be taken apart and put together here too].  An event opens a stack of     *)
(* views, outermost first, reads through them, and leaves them again; each   *)
(* view writes back what it makes of the lines it was opened on.             *)
EXTENDS Sources
Sec2 == INSTANCE Sections
Prep2 == INSTANCE Prep
Log2 == INSTANCE Changelog

\* what a view writes back
InSection(lines, f(_), pick(_)) ==
  LET v == Sec2!ParseSecs(lines, <<>>)
  IN Sec2!RawSecs([i \in 1..Len(v) |-> IF pick(v[i]) THEN [v[i] EXCEPT !.data = f(v[i].data)] ELSE v[i]])
Env2 == Env0(<<>>)
TagsBack(d) == RawTags(ParseTags(d, AllValid(d)))
ListBack(d) == RawList(ParseList(d, Env2))
LogBack(d) == Log2!RawLog(Log2!ParseLog(d))
PrepBack(d) == Prep2!RawPrep(Prep2!ParsePrep(d))
Back(kind, lines) ==
  CASE kind = "lines" -> lines
    [] kind = "md" -> RawDefs(ParseDefs(lines, AllValid(lines)))
    [] kind = "sections" -> Sec2!RawSecs(Sec2!ParseSecs(lines, <<>>))
    [] kind = "tags" -> InSection(lines, TagsBack, LAMBDA s : s.pre)
    [] kind = "secs" -> InSection(lines, TagsBack, LAMBDA s : TRUE)
    [] kind = "changelog" -> InSection(lines, LogBack, LAMBDA s : ~s.pre /\ Lower(s.name) = "changelog")
    [] kind = "logs" -> InSection(lines, LogBack, LAMBDA s : TRUE)
    [] kind = "prep" -> InSection(lines, PrepBack, LAMBDA s : ~s.pre /\ Lower(s.name) = "prep")
    [] kind = "sources" -> InSection(InSection(lines, TagsBack, LAMBDA s : s.pre), ListBack, LAMBDA s : ~s.pre /\ Lower(s.name) = "sourcelist")
    [] kind = "patches" -> InSection(InSection(lines, TagsBack, LAMBDA s : s.pre), ListBack, LAMBDA s : ~s.pre /\ Lower(s.name) = "patchlist")
    [] OTHER -> lines

Start(init) == [lines |-> init.lines, small |-> init.small]
RECURSIVE Through(_, _)
Through(kinds, lines) == IF kinds = <<>> THEN lines ELSE Back(kinds[1], Through(Tail(kinds), lines))
Step(s, ev) ==
  LET t == IF s.small THEN Through(ev.kinds, s.lines) ELSE s.lines
  IN [st |-> [s EXCEPT !.lines = t], exp |-> [lines |-> t, odd |-> ""]]

-----------------------------------------------------------------------------
(* The property                                                              *)
Prop(s, ev, r) == r.st.lines = s.lines
=============================================================================
