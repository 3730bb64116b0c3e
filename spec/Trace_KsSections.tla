-------------------------- MODULE Trace_KsSections --------------------------
(***************************************************************************)
(* Trace validation for section headers and package selection.  A session  *)
(* is a sequence of operations on one handler: read a document of sections *)
(* ("doc"), add package lines by program ("add"), write the handler and    *)
(* read that back with a new handler ("rt").                                *)
(***************************************************************************)
EXTENDS KsHeaders, KsPackages, TLC, Json

Sessions == ndJsonDeserialize("sessions.ndjson")

VARIABLES sid, op, st, verdict
vars == <<sid, op, st, verdict>>

Range(sq) == {sq[j] : j \in 1..Len(sq)}
Ses == Sessions[sid]
Op  == Ses.ops[op]
New == AtLeast(Ses.ver, "F8")

Start == [scripts |-> <<>>, po |-> DefaultPackages, sel |-> NoPackages, dep |-> FALSE, exc |-> "none", ln |-> 0,
          mud |-> FALSE]   \* mud: what a refused %packages header has set is left open

(* ------------------------------------------------------- reading sections *)
RECURSIVE AddLines(_, _, _)
AddLines(s, ls, parse) ==
  IF ls = <<>> \/ s.exc # "none" THEN s
  ELSE LET L == Head(ls)
       IN AddLines(IF L.k = "bad" THEN [s EXCEPT !.exc = "parse", !.ln = IF parse THEN L.ln ELSE 0, !.mud = @ \/ ~parse]
                   ELSE [s EXCEPT !.sel = AddLine(@, L)], Tail(ls), parse)

ReadItem(v, s, it) ==
  IF s.exc # "none" THEN s
  ELSE IF ~Accepted(v, it.h, s.po.default) THEN [s EXCEPT !.exc = "parse", !.ln = it.ln, !.mud = @ \/ it.h.tag = "%packages"]
  ELSE LET s1 == [s EXCEPT !.dep = @ \/ Deprecated(v, it.h)]
       IN IF it.h.tag = "%packages"
          THEN AddLines([s1 EXCEPT !.po = PackagesFrom(v, @, it.h)], it.lines, TRUE)
          ELSE IF it.bl THEN s1                    \* a script without a line is no script
          ELSE [s1 EXCEPT !.scripts = Append(@, ScriptFrom(v, it.h) @@ [body |-> it.body, ln |-> it.ln])]

RECURSIVE ReadAll(_, _, _)
ReadAll(v, s, items) == IF items = <<>> THEN s ELSE ReadAll(v, ReadItem(v, s, Head(items)), Tail(items))

(* ---------------------------------------------------------- what was seen *)
SelSeen(o) == [pk |-> Range(o.pk), xpk |-> Range(o.xpk), grp |-> {<<g.n, g.lv>> : g \in Range(o.grp)},
               xgrp |-> Range(o.xgrp), env |-> o.env]
SelClause(want, o) ==
  LET got == SelSeen(o) IN
  CASE got.pk # want.pk     -> "selected packages: expected " \o ToString(want.pk)
    [] Len(o.pk) # Cardinality(want.pk) -> "a package is listed twice"
    [] got.xpk # want.xpk   -> "excluded packages: expected " \o ToString(want.xpk)
    [] got.grp # want.grp   -> "selected groups: expected " \o ToString(want.grp)
    [] Len(o.grp) # Cardinality(want.grp) -> "a group is listed twice"
    [] got.xgrp # want.xgrp -> "excluded groups: expected " \o ToString(want.xgrp)
    [] got.env # want.env   -> "environment: expected " \o want.env
    [] OTHER -> "ok"

PoClause(want, o) ==
  LET diff == {f \in DOMAIN want : o[f] # want[f]}
  IN  IF diff = {} THEN "ok" ELSE LET f == CHOOSE x \in diff : TRUE IN "package option " \o f \o ": expected " \o ToString(want[f])

DocClause(s, o) ==
  CASE o.exc # s.exc -> "exception: expected " \o s.exc
    [] s.exc = "parse" /\ o.ln # s.ln -> "error line: expected " \o ToString(s.ln)
    [] s.exc = "none" /\ o.dep # s.dep -> "deprecation warning: expected " \o ToString(s.dep)
    [] o.scripts # s.scripts -> "scripts: expected " \o ToString(s.scripts)
    [] s.exc = "none" /\ PoClause(s.po, o.po) # "ok" -> PoClause(s.po, o.po)
    [] OTHER -> SelClause(s.sel, o.sel)

AddClause(s, o) ==
  CASE o.exc # s.exc -> "exception: expected " \o s.exc
    [] s.exc # "none" -> "ok"
    [] OTHER -> SelClause(s.sel, o.sel)

RECURSIVE RStrip(_)
RStrip(t) == IF t # "" /\ SubSeq(t, Len(t), Len(t)) \in {" ", "\n", "\t"}
             THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Norm(t) == IF ~New THEN RStrip(t)      \* no end marker: blank lines at the end do not count
           ELSE IF t = "" \/ SubSeq(t, Len(t), Len(t)) = "\n" THEN t ELSE t \o "\n"
Effective(x) == [type |-> x.type, body |-> Norm(x.body), interp |-> IF x.interp = "" THEN "/bin/sh" ELSE x.interp,
                 log |-> x.log, err |-> x.err, chroot |-> x.chroot]
EffScripts(xs) == [j \in 1..Len(xs) |-> Effective(xs[j])]

RtClause(s, o) ==
  LET sel == IF s.po.default THEN [s.sel EXCEPT !.env = ""] ELSE s.sel   \* the default selection includes the default environment
  IN
  CASE o.fail # "" -> "written document cannot be read: " \o o.fail
    [] EffScripts(o.scripts) # EffScripts(s.scripts) -> "reread scripts: expected " \o ToString(s.scripts)
    [] (s.po.seen \/ s.sel # NoPackages) /\ ~o.po.seen -> "reread %packages"
    [] PoClause([s.po EXCEPT !.seen = o.po.seen], o.po) # "ok" -> "reread " \o PoClause([s.po EXCEPT !.seen = o.po.seen], o.po)
    [] SelClause(sel, o.sel) # "ok" -> "reread " \o SelClause(sel, o.sel)
    [] ~o.again -> "writing the reread document gives different text"
    [] o.ver # Ses.ver /\ {o.ver, Ses.ver} # {"F34", "DEVEL"} -> "version found in the written document"
    [] OTHER -> "ok"

(* ---------------------------------------------------------------- behaviour *)
Init == sid \in 1..Len(Sessions) /\ op = 1 /\ st = Start /\ verdict = "run"
Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)
Advance(v) ==
  IF v # "ok" THEN verdict' = v /\ Say(v) /\ op' = op
  ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op
  ELSE verdict' = "run" /\ op' = op + 1

Fresh(s) == [s EXCEPT !.exc = "none", !.ln = 0, !.dep = FALSE]
Doc == /\ Op.op = "doc"
       /\ st' = ReadAll(Ses.ver, Fresh(st), Op.items)
       /\ Advance(IF st.mud THEN "unspec" ELSE DocClause(st', Op.obs))
Add == /\ Op.op = "add"
       /\ st' = AddLines(Fresh(st), Op.lines, FALSE)
       /\ Advance(IF st.mud THEN "unspec" ELSE AddClause(st', Op.obs))
Rt  == /\ Op.op = "rt" /\ st' = st
       /\ Advance(IF st.mud THEN "unspec" ELSE RtClause(st, Op.obs))

Next == \/ verdict = "run" /\ sid' = sid /\ (Doc \/ Add \/ Rt)
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
NeverBoth == st.sel.pk \cap st.sel.xpk = {} /\ Names(st.sel.grp) \cap st.sel.xgrp = {}
=============================================================================
