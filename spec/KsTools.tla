------------------------------ MODULE KsTools ------------------------------
(***************************************************************************)
(* The command line tools as compositions of the document reader.          *)
(*                                                                          *)
(* ksvalidator: splice, read with warnings as errors; exit status.         *)
(* ksflatten:   read with everything fatal, write the handler.             *)
(* ksshell:     a parser that stays; typed lines, .clear, .show, .quit.    *)
(***************************************************************************)
EXTENDS KsDocument

BaseEnv(ver, new, files) ==
  [files |-> files, cwd |-> "/w", ver |-> ver, new |-> new, cmds |-> DOMAIN G.versions[ver],
   masked |-> {}, fatal |-> TRUE, follow |-> TRUE, missfatal |-> TRUE, unkfatal |-> TRUE, strict |-> FALSE]
ValEnv(ver, new, files, e, i) == [BaseEnv(ver, new, files) EXCEPT !.fatal = e, !.follow = i, !.strict = TRUE]
FlatEnv(ver, new, files)  == BaseEnv(ver, new, files)
ShellEnv(ver, new, files) == [BaseEnv(ver, new, files) EXCEPT !.fatal = FALSE]

(* The exit status of the validator for a readable file: what was read (D, s), or no reading at all. *)
ValStatus(expanded, D, s) == IF ~expanded \/ s.status = "error" THEN 1 ELSE D.d.errs

(* Completion: what may be offered for the word from begin to end of a line. *)
Words0(ver) == DOMAIN G.versions[ver] \cup {".clear", ".show", ".quit"}
Options(ver, cmd) == IF cmd \in DOMAIN G.versions[ver] THEN DOMAIN G.classes[G.versions[ver][cmd]].opt ELSE {}
Offered(ver, cmd, word) == {w \in (IF cmd = "" THEN Words0(ver) ELSE Options(ver, cmd)) : StartsWith(w, word)}
=============================================================================
