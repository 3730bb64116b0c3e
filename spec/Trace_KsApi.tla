---------------------------- MODULE Trace_KsApi ----------------------------
(* Trace validation for programmatic use: a sequence of operations on objects of one family; after each one all objects are observed. *)
EXTENDS KsApi

Sessions == ndJsonDeserialize("sessions.ndjson")
VARIABLES sid, op, objs, verdict
vars == <<sid, op, objs, verdict>>
Ses == Sessions[sid]
Op  == Ses.ops[op]
KwOf(o) == IF o.kw = <<>> THEN <<>> ELSE o.kw
Silent == {"telnet", "scsiid", "scsilun"}       \* whether these give a warning is left open

FullOr(dflt, diff) == IF diff = <<>> THEN dflt ELSE Full(dflt, diff)
ObjClause(x, o) ==
  LET diff == DiffAttrs(x.attrs, FullOr(Dflt(x.key, x.what), o.a)) IN
  CASE diff # {} -> LET d == CHOOSE y \in diff : TRUE IN d \o ": expected " \o ToString(x.attrs[d])
    [] x.what = "cmd" /\ o.seen # x.seen -> "seen: expected " \o ToString(x.seen)
    [] o.more # <<>> -> "has attributes of other releases: " \o ToString(o.more)
    [] OTHER -> "ok"
RECURSIVE FirstBad(_, _, _)
FirstBad(os, seen, j) ==
  IF j > Len(os) THEN "ok"
  ELSE LET v == ObjClause(os[j], seen[j]) IN IF v # "ok" THEN "object " \o ToString(j) \o ", " \o v ELSE FirstBad(os, seen, j + 1)

WarnClause(w, o) ==
  CASE ~(w \subseteq Range(o.warned)) -> "no warning for a removed keyword"
    [] ~(Range(o.warned) \subseteq w \cup Silent) -> "warning without reason: " \o ToString(o.warned)
    [] OTHER -> "ok"

Apply ==
  CASE Op.op = "create" -> LET r == Create(objs, Op.key, Op.what, KwOf(Op)) IN [objs |-> r.objs, v |-> WarnClause(r.warned \ Silent, Op.obs)]
    [] Op.op = "call"   -> [objs |-> Call(objs, Op.i, KwOf(Op)), v |-> "ok"]
    [] Op.op = "append" -> [objs |-> AppendTo(objs, Op.i, Op.a, Op.x), v |-> "ok"]
    [] Op.op = "equal"  -> [objs |-> objs, v |-> CASE Op.obs.eq # Equal(objs, Op.i, Op.j) -> "equality: expected " \o ToString(Equal(objs, Op.i, Op.j))
                                                   [] Op.obs.ne = Op.obs.eq -> "equal and different at once"
                                                   [] Op.obs.none -> "equal to None"
                                                   [] OTHER -> "ok"]
Clause(r, o) ==
  CASE o.exc # "" -> "exception"
    [] r.v # "ok" -> r.v
    [] OTHER -> FirstBad(r.objs, o.objs, 1)

Init == sid \in 1..Len(Sessions) /\ op = 1 /\ objs = <<>> /\ verdict = "run"
Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)
Advance(v) ==
  IF v # "ok" THEN verdict' = v /\ Say(v) /\ op' = op
  ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op
  ELSE verdict' = "run" /\ op' = op + 1
Do == LET r == Apply IN objs' = r.objs /\ Advance(Clause(r, Op.obs))
Next == \/ verdict = "run" /\ sid' = sid /\ Do
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
