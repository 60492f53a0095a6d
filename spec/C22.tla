-------------------------------- MODULE C22 ---------------------------------
(* Guessing the packager, and changelog entries that need it.                *)
(* State: the value of the %packager macro of the process (NA: undefined),   *)
(* what a definition hides, and the entries added so far (newest first).     *)
(* Event env: variables and git configuration in several scopes; the         *)
(* effective one is determined here.                                         *)
EXTENDS Packager, Integers, TLC

Start(init) == [mac |-> <<>>, log |-> <<>>, k |-> init.k, specmac |-> init.mac]
Given(x) == x # NA
First3(a, b, c) == IF Given(a) THEN a ELSE IF Given(b) THEN b ELSE IF Given(c) THEN c ELSE ""
\* git configuration: environment over repository over user
Eff(s, ev) ==
  [rpmpackager |-> ev.env.rpmpackager,
   packager |-> IF s.mac = <<>> THEN NA ELSE s.mac[Len(s.mac)],
   git |-> ev.env.git,
   gitname |-> First3(ev.env.envname, ev.env.repname, ev.env.usrname),
   gitemail |-> First3(ev.env.envmail, ev.env.repmail, ev.env.usrmail),
   unix |-> IF ev.env.gecos # "" THEN ev.env.gecos ELSE ev.env.login]
Step(s, ev) ==
  CASE ev.op = "define" -> [st |-> [s EXCEPT !.mac = Append(@, ev.v)], exp |-> [ret |-> "", err |-> "", log |-> s.log]]
    [] ev.op = "undefine" -> [st |-> [s EXCEPT !.mac = <<>>], exp |-> [ret |-> "", err |-> "", log |-> s.log]]
    [] ev.op = "guess" -> [st |-> s, exp |-> [ret |-> Packager(Eff(s, ev)), err |-> "", log |-> s.log]]
    [] ev.op = "add" ->
         \* the macros are those of the spec file: what the process defined before does not count
         LET p == Packager(Eff([s EXCEPT !.mac = IF ev.specmac = NA THEN <<>> ELSE <<ev.specmac>>], ev))
             author == IF Given(ev.author) THEN ev.author \o (IF Given(ev.email) THEN " <" \o ev.email \o ">" ELSE "") ELSE p
             \* the spec file's own environment stays behind
             t == [s EXCEPT !.mac = IF ev.specmac = NA THEN <<>> ELSE <<ev.specmac>>]
         IN IF ~Given(ev.author) /\ p = "" THEN [st |-> t, exp |-> [ret |-> "", err |-> "author", log |-> s.log]]
            ELSE [st |-> [t EXCEPT !.log = <<author>> \o @], exp |-> [ret |-> "", err |-> "", log |-> <<author>> \o s.log]]

-----------------------------------------------------------------------------
(* The property, said once more as an order of preference                    *)
Prop(s, ev, r) ==
  LET e == Eff([s EXCEPT !.mac = IF ev.op = "add" THEN (IF ev.specmac = NA THEN <<>> ELSE <<ev.specmac>>) ELSE @], ev)
      got == IF ev.op = "guess" THEN r.exp.ret ELSE IF r.exp.err = "" THEN r.exp.log[1] ELSE ""
      person == IF e.git /\ e.gitname # "" THEN e.gitname ELSE e.unix
  IN IF ev.op \notin {"guess", "add"} \/ (ev.op = "add" /\ Given(ev.author)) THEN TRUE
     ELSE /\ Given(e.rpmpackager) => got = e.rpmpackager
          /\ ~Given(e.rpmpackager) /\ Given(e.packager) => got = e.packager
          /\ ~Given(e.rpmpackager) /\ ~Given(e.packager) =>
               IF e.git /\ e.gitemail # "" /\ person # "" THEN got = person \o " <" \o e.gitemail \o ">"
               ELSE IF e.git /\ e.gitemail # "" THEN got = e.gitemail ELSE got = person
          /\ (ev.op = "add" /\ got = "") <=> r.exp.err = "author"
          /\ r.exp.err # "" => r.exp.log = s.log
=============================================================================
