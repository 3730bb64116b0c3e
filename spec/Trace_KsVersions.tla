------------------------- MODULE Trace_KsVersions ---------------------------
(* Trace validation for version names: sequences of questions to one        *)
(* process, whose answers must not depend on what was asked before.         *)
EXTENDS KsVersions, Json
Sessions == ndJsonDeserialize("sessions.ndjson")
VARIABLES sid, op, verdict
vars == <<sid, op, verdict>>
Ses == Sessions[sid]
Op == Ses.ops[op]
O == Op.obs
(* constants observed: one row per release, in release order, and DEVEL *)
Const(v) == IF v = "" THEN "error" ELSE Ses.consts[v]

Want(v, o) == CASE v = "?" -> "unspec"
                [] v = "" -> IF o.exc = "version" THEN "ok" ELSE "must be refused with a version error"
                [] o.exc # "none" -> "refused, expected " \o v
                [] o.v # Ses.consts[v] -> "another version than " \o v
                [] OTHER -> "ok"
Increasing == \A j \in 1..(Len(Releases) - 1) : Ses.order[j] < Ses.order[j + 1]
Judge ==
  CASE Op.op = "consts" -> IF DOMAIN Ses.consts # NamesOf THEN "version names: expected " \o ToString(NamesOf)
                           ELSE IF ~Increasing THEN "constants not in release order"
                           ELSE IF Ses.consts["DEVEL"] # Ses.consts[LastRel] THEN "DEVEL is not the last release" ELSE "ok"
    [] Op.op = "s2v"  -> Want(VersionNamed(Op.s), O)
    [] Op.op = "v2s"  -> LET w == IF Op.v = "" THEN "" ELSE IF Canon(Op.v) = LastRel THEN (IF Op.skip THEN LastRel ELSE "DEVEL") ELSE Op.v
                         IN IF w = "" THEN (IF O.exc = "version" THEN "ok" ELSE "an unknown constant must be refused")
                            ELSE IF O.exc # "none" \/ O.s # w THEN "expected the name " \o w ELSE "ok"
    [] Op.op = "long" -> IF O.exc # "none" \/ O.s # LongName(Op.v) THEN "expected the long name " \o LongName(Op.v) ELSE "ok"
    [] Op.op = "make" -> LET v == CASE Op.by = "name" -> VersionNamed(Op.s)
                                    [] Op.by = "default" -> LastRel
                                    [] OTHER -> Op.s                \* by constant; "" an unknown one
                         IN IF v \notin {"?", ""} /\ O.exc = "none" /\ O.of # v THEN "a handler class of " \o O.of \o ", expected " \o v
                            ELSE Want(v, O)
    [] Op.op = "file" -> IF Op.lines = <<"(missing)">> THEN (IF O.exc = "ks" THEN "ok" ELSE "a missing file must be a kickstart error")
                         ELSE Want(VersionOfLines(Op.lines), O)
Init == sid \in 1..Len(Sessions) /\ op = 1 /\ verdict = "run"
Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)
Advance(v) == LET x == IF v = "unspec" THEN "ok" ELSE v IN
  IF x # "ok" THEN verdict' = x /\ Say(x) /\ op' = op
  ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op
  ELSE verdict' = "run" /\ op' = op + 1
Next == \/ verdict = "run" /\ sid' = sid /\ Advance(Judge)
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
