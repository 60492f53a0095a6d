------------------------------- MODULE MC_C22 -------------------------------
(* Every combination of the places the packager is looked up in.             *)
EXTENDS C22, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
E0 == [rpmpackager |-> NA, git |-> FALSE, envname |-> NA, envmail |-> NA, repname |-> NA, repmail |-> NA, usrname |-> NA, usrmail |-> NA,
       gecos |-> "@GECOS@", login |-> "@LOGIN@"]
Users == {<<"@GECOS@", "@LOGIN@">>, <<"", "@LOGIN2@">>, <<"", "nosuchuser">>, <<"", "">>}
Scopes == {<<NA, NA, NA>>, <<NA, NA, "U">>, <<NA, "R", "U">>, <<"E", "R", "U">>, <<NA, "", "U">>} \cup (IF Size > 1 THEN {<<"E", NA, "U">>, <<"", "R", NA>>} ELSE {})
Envs == {[E0 EXCEPT !.rpmpackager = p, !.gecos = u[1], !.login = u[2], !.git = g,
                    !.envname = n[1], !.repname = n[2], !.usrname = n[3], !.envmail = m[1], !.repmail = m[2], !.usrmail = m[3]] :
         p \in {NA, "", "R P <r@p>"}, u \in Users, g \in BOOLEAN, n \in Scopes, m \in {<<NA, NA, NA>>, <<NA, NA, "u@x">>, <<NA, "r@x", "u@x">>}}
\* git unavailable or overruled: its configuration does not matter
Wanted(e) == /\ ~e.git => e.envname = NA /\ e.repname = NA /\ e.usrname \in {NA, "U"} /\ e.repmail = NA
             /\ e.rpmpackager # NA => e.git /\ e.repname = NA
             \* somebody else's repository is not read
             /\ e.login = "" => e.repname = NA /\ e.repmail = NA /\ e.usrname = NA /\ e.usrmail = NA
Inits == {[k |-> "proc", mac |-> NA]} \cup {[k |-> "spec", mac |-> m] : m \in {NA, "", "M <m@m>"}}
Events(s) ==
  IF s.k = "proc"
  THEN {[op |-> "guess", env |-> e] : e \in {x \in Envs : Wanted(x)}}
       \cup {[op |-> "define", v |-> v, env |-> E0] : v \in {"", "M", "%{nil}x"} \ {"%{nil}x"}} \cup {[op |-> "undefine", env |-> E0]}
  ELSE {[op |-> "add", env |-> e, specmac |-> s.specmac, author |-> a, email |-> m] :
          e \in {x \in Envs : x.rpmpackager \in {NA, ""} /\ x.login = "@LOGIN@" /\ x.repname = NA /\ x.envname = NA /\ Wanted(x)}, a \in {NA, "A"}, m \in {NA, "a@b"}}
INSTANCE MC
=============================================================================
