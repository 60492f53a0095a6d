-------------------------------- MODULE C01 ---------------------------------
(* A Specfile object and the files it may be pointed at.                     *)
(* st: files: content per path (Gone: no such file), places: whether the     *)
(* directory of the path exists; cur: the current path; ls, nl: the text as  *)
(* lines and whether it ends in a newline; auto; open: the lines context is  *)
(* held.                                                                     *)
EXTENDS Text

Gone == "!gone"
Text01(s) == JoinWith(s.ls, "\n") \o (IF s.nl THEN "\n" ELSE "")
LoadLs(c) == IF c = "" THEN <<>> ELSE IF LastChar(c) = "\n" THEN Lines(UpTo(c, Len(c) - 1)) ELSE Lines(c)
LoadNl(c) == LastChar(c) = "\n"
Start(init) == LET c == init.files[1] IN
  [files |-> init.files, places |-> init.places, cur |-> 1, ls |-> LoadLs(c), nl |-> LoadNl(c), auto |-> init.auto, open |-> FALSE]
\* rpm accepts the text when the required tags are there
PRE == <<"Name: test", "Version: 1", "Release: 1", "Summary: s">>
Fine(ls) == Len(ls) >= 7 /\ SubSeq(ls, 1, 4) = PRE /\ StartsWith(ls[5], "License: ") /\ Len(ls[5]) > 9 /\ ls[6] = "%description" /\ ls[7] = "%prep"
Obs01(s, err) == [err |-> err, text |-> Text01(s), files |-> s.files, extra |-> <<>>]
Res01(s, err) == [st |-> s, exp |-> Obs01(s, err)]
CanSave(s) == s.places[s.cur]
Saved(s) == [s EXCEPT !.files[s.cur] = Text01(s)]
Save(s) == IF CanSave(s) THEN Res01(Saved(s), "") ELSE Res01(s, "os")
\* the end of the outermost editing context
Ended(s) == IF s.auto THEN Save(s) ELSE Res01(s, "")
Load(s, k) == [s EXCEPT !.ls = LoadLs(s.files[k]), !.nl = LoadNl(s.files[k])]
Edited(ls, ev) ==
  CASE ev.e = "app" -> Append(ls, ev.v)
    [] ev.e = "ins" -> LET i == Min({7 + ev.i, Len(ls)}) IN SubSeq(ls, 1, i) \o <<ev.v>> \o SubSeq(ls, i + 1, Len(ls))
    [] ev.e = "set" -> IF 7 + ev.i < Len(ls) THEN [ls EXCEPT ![8 + ev.i] = ev.v] ELSE ls
    [] ev.e = "del" -> IF 7 + ev.i < Len(ls) THEN DropAt(ls, 8 + ev.i) ELSE ls
    [] ev.e = "clear" -> <<>>
    [] ev.e = "sections" -> Append(ls, ev.v)
    [] ev.e = "license" -> IF Fine(ls) THEN [ls EXCEPT ![5] = "License: " \o ev.v] ELSE ls
Step(s, ev) ==
  CASE ev.op = "load" ->
         IF s.open THEN Res01(s, "open") ELSE IF s.files[ev.p] = Gone THEN Res01(s, "os")
         ELSE IF ~Fine(LoadLs(s.files[ev.p])) THEN Res01(s, "rpm")
         ELSE Res01([Load(s, ev.p) EXCEPT !.cur = ev.p, !.auto = ev.auto], "")
    [] ev.op = "reload" ->
         IF s.open THEN Res01(s, "open") ELSE IF s.files[s.cur] = Gone THEN Res01(s, "os") ELSE Res01(Load(s, s.cur), "")
    [] ev.op = "save" -> Save(s)
    \* with spec: edit; possibly raising
    [] ev.op = "session" ->
         LET t == [s EXCEPT !.ls = Edited(@, ev)]
             a == IF s.open \/ ~s.auto THEN Res01(t, "") ELSE Save(t)
             b == Save(a.st)
         IN IF b.exp.err # "" THEN b ELSE Res01(b.st, IF ev.exc THEN "mine" ELSE "")
    [] ev.op = "edit" ->
         LET t == [s EXCEPT !.ls = Edited(@, ev)]
             a == IF s.open THEN Res01(t, "") ELSE Ended(t)
         IN IF a.exp.err # "" THEN a ELSE Res01(a.st, IF ev.exc THEN "mine" ELSE "")
    [] ev.op = "open" -> IF s.open THEN Res01(s, "open") ELSE Res01([s EXCEPT !.open = TRUE], "")
    [] ev.op = "close" -> IF ~s.open THEN Res01(s, "open") ELSE LET a == Ended([s EXCEPT !.open = FALSE])
                          IN IF a.exp.err # "" THEN a ELSE Res01(a.st, IF ev.exc THEN "mine" ELSE "")
    \* looking through a view is an editing context without edits
    [] ev.op = "view" -> IF s.open THEN Res01(s, "") ELSE Ended(s)
    [] ev.op = "parse" -> Res01(s, "")
    [] ev.op = "auto" -> Res01([s EXCEPT !.auto = ev.auto], "")
    [] ev.op = "path" -> Res01([s EXCEPT !.cur = ev.p], "")
    [] ev.op = "write" -> IF ~s.places[ev.p] THEN Res01(s, "") ELSE Res01([s EXCEPT !.files[ev.p] = ev.c], "")
    [] ev.op = "unlink" -> Res01([s EXCEPT !.files[ev.p] = Gone], "")

-----------------------------------------------------------------------------
(* The property                                                              *)
Prop(s, ev, r) ==
  LET t == r.st
      others == \A k \in 1..Len(s.files) : k # s.cur => s.files[k] = t.files[k]
      writes == ev.op \in {"save", "session"} \/ (s.auto /\ ev.op \in {"edit", "close", "view"})
  IN /\ ev.op \notin {"write", "unlink"} => others
     /\ ev.op \notin {"write", "unlink"} /\ ~writes => s.files = t.files
     /\ ev.op \in {"save", "session"} /\ CanSave(s) => t.files[s.cur] = Text01(t)
     /\ s.auto /\ ev.op \in {"edit", "close", "view"} /\ CanSave(s) /\ ~t.open /\ (ev.op = "close" => s.open) => t.files[s.cur] = Text01(t)
     /\ ev.op = "reload" /\ r.exp.err = "" => Text01(t) = s.files[s.cur]
     \* load and save without edits: the same bytes
     /\ ev.op = "load" /\ r.exp.err = "" => Saved(t).files = s.files
     /\ ev.op \notin {"load", "reload", "edit", "session"} => Text01(s) = Text01(t)
=============================================================================
