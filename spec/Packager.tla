------------------------------ MODULE Packager ------------------------------
(* Where the packager is looked up (specfile.changelog.guess_packager).      *)
(* env: rpmpackager, packager (the macro), git (available), gitname,         *)
(* gitemail (effective configuration), unix (full name, or login name if     *)
(* there is none, or "")                                                     *)
EXTENDS Sequences
NA == "!none"
Packager(e) ==
  IF e.rpmpackager # NA THEN e.rpmpackager
  ELSE IF e.packager # NA THEN e.packager
  ELSE LET name == IF e.git /\ e.gitname # "" THEN e.gitname ELSE e.unix
           mail == IF e.git THEN e.gitemail ELSE ""
       IN IF mail = "" THEN name ELSE IF name = "" THEN mail ELSE name \o " <" \o mail \o ">"
=============================================================================
