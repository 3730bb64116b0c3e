------------------------------- MODULE KsLoad -------------------------------
(***************************************************************************)
(* Loading kickstart text.  The world is a function from names to sources: *)
(* files, folders, or what a web server answers.  Contents are sequences   *)
(* of units; a unit says what its bytes mean in UTF-8 (u8; "BAD": nothing) *)
(* in ASCII (as) and in Latin-1 (l1, which is also how bytes are shown).   *)
(*                                                                         *)
(* source = [k |-> "file" | "locked" (may only be read) | "secret" (may not *)
(*   be read) | "dir" | "none" | "open" (anything) | "http",               *)
(*           units, and for http: status, to (redirection), cut (bytes     *)
(*           missing at the end), framing, cs (declared charset), enc]     *)
(* Results: [s |-> "ok" | "err" | "open", t |-> text]                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOk(t) == [s |-> "ok", t |-> t]
LErr   == [s |-> "err", t |-> ""]
LOpen  == [s |-> "open", t |-> ""]

UnitText(u, cs) == CASE cs = "latin-1" -> u.l1 [] cs = "ascii" -> u.as [] OTHER -> u.u8
RECURSIVE Join(_, _)
Join(us, cs) == IF us = <<>> THEN "" ELSE UnitText(Head(us), cs) \o Join(Tail(us), cs)
Bytes(us) == Join(us, "latin-1")
Decode(us, cs) == IF \E j \in 1..Len(us) : UnitText(us[j], cs) = "BAD" THEN LErr ELSE LOk(Join(us, cs))
Plain(us) == \A j \in 1..Len(us) : us[j].as # "BAD"

(* Can the receiver tell that the answer is complete? *)
Announced(src) == src.framing \in {"length", "chunked"}
Complete(src) == src.cut = 0
Redirect(src) == src.status \in {301, 302, 303, 307, 308} /\ src.to # ""

RECURSIVE Answer(_, _, _)
Answer(world, name, hops) ==
  IF name \notin DOMAIN world THEN LErr
  ELSE LET src == world[name] IN
  CASE src.k # "http" -> LErr                              \* no server there, or not a web address
    [] Redirect(src) -> IF hops = 0 THEN LErr ELSE Answer(world, src.to, hops - 1)
    [] src.status = 203 -> LOpen                           \* success, but not the source's own answer
    [] src.status # 200 -> LErr
    [] ~Complete(src) -> IF Announced(src) THEN LErr ELSE LOpen
    [] src.enc = "broken" -> LErr
    [] src.cs = "unknown" -> IF Plain(src.units) THEN LOk(Join(src.units, "utf-8")) ELSE LOpen
    [] OTHER -> Decode(src.units, src.cs)

(* loc = [url |-> BOOLEAN, name]: how the harness spells it is not of interest here *)
Load(world, loc) ==
  IF loc.url THEN Answer(world, loc.name, 5)
  ELSE IF loc.name \notin DOMAIN world THEN LErr
  ELSE LET src == world[loc.name] IN IF src.k \in {"file", "locked"} THEN Decode(src.units, "utf-8")
                                     ELSE IF src.k = "open" THEN LOpen ELSE LErr

(***************************************************************************)
(* Into a file.  A folder, a name in a missing folder or a full disk       *)
(* cannot be written; what a failed writing leaves behind is not kickstart *)
(* text anyone was promised, but a failed reading leaves everything as it  *)
(* was.                                                                    *)
(***************************************************************************)
Source(world, loc) == IF loc.name \in DOMAIN world THEN world[loc.name] ELSE [k |-> "none"]
Readable(world, loc) == LET l == Load(world, loc) IN
  IF ~loc.url /\ Source(world, loc).k \in {"file", "locked"} THEN (IF l.s = "ok" THEN "ok" ELSE "either") ELSE l.s
RawOf(us) == [k |-> "file", units |-> us]
(* what the destination may be afterwards, if the call succeeds *)
Written(world, loc) == IF loc.url THEN Load(world, loc).t ELSE Bytes(Source(world, loc).units)

Writable(world, dest, full) == /\ dest.parent = "there"
                               /\ (dest.name \in DOMAIN world => world[dest.name].k \in {"file", "open", "none"})
                               /\ ~full
=============================================================================
