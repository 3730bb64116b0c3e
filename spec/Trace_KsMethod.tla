--------------------------- MODULE Trace_KsMethod ---------------------------
(* Trace validation for handler.method: operations through the proxy, on the commands themselves and by lines; after each everything is observed. *)
EXTENDS KsMethod

Sessions == ndJsonDeserialize("sessions.ndjson")
VARIABLES sid, op, S, ln, verdict
vars == <<sid, op, S, ln, verdict>>
Ses == Sessions[sid]
Ver == Ses.ver
Op  == Ses.ops[op]
O   == Op.obs

Same0 == [S |-> S, v |-> "ok"]
With(r, v) == [S |-> r, v |-> v]
Exc(want) == IF O.exc = want THEN "ok" ELSE "exception: expected " \o (IF want = "" THEN "none" ELSE want)

(* O.before: what the proxy's "method" answered just before the operation. *)
Apply ==
  CASE O.before \notin Answers(S, Ver) -> With(S, "method: expected one of " \o ToString(Answers(S, Ver)))
    [] Op.op = "line" -> LET r == Line(S, Ver, Op.l) IN
         IF r.res = "unspec" THEN With(S, "unspec") ELSE With(r.S, Exc(IF r.res = "ok" THEN "" ELSE "parse"))
    [] Op.op = "setm" -> LET r == SetMethod(S, Ver, Op.m) IN With(r.S, Exc(r.exc))
    [] Op.op = "get" -> LET d == Attrs(S, Ver, O.before) IN
         With(S, IF Op.a \notin DOMAIN d THEN Exc("attr") ELSE IF O.exc # "" THEN Exc("") ELSE IF O.val # d[Op.a] THEN "value: expected " \o ToString(d[Op.a]) ELSE "ok")
    [] Op.op = "set" -> LET r == SetAttr(S, Ver, O.before, Op.a, Op.x) IN With(r.S, Exc(r.exc))
    [] Op.op = "reset" -> With(Reset(S, Ver, Op.m), Exc(""))
    [] Op.op = "mark" -> With(Mark(S, Ver, Op.m, Op.b), Exc(""))
    [] Op.op = "repo" -> LET r == ToRepo(S, Ver, O.before) IN
         With(S, IF O.exc # r.exc THEN Exc(r.exc) ELSE IF r.exc = "" /\ (O.val # r.url \/ O.name # "ks-method-url") THEN "repository: expected " \o ToString(r.url) ELSE "ok")
    [] OTHER -> With(S, Exc(""))                  \* setln, str
Line1 == IF Op.op = "setln" THEN Op.n ELSE IF Op.op = "line" /\ Op.l.cmd = "method" /\ Old(Ver) THEN Op.l.ln ELSE ln

ObjClause(m, x, o) ==
  LET diff == DiffAttrs(x.attrs, IF DOMAIN x.attrs = {} THEN x.attrs ELSE Full(x.attrs0, o.a)) IN
  CASE o.seen # x.seen -> m \o ": seen: expected " \o ToString(x.seen)
    [] o.ln # x.ln -> m \o ": line number: expected " \o ToString(x.ln)
    [] diff # {} -> LET d == CHOOSE y \in diff : TRUE IN m \o ": " \o d \o ": expected " \o ToString(x.attrs[d])
    [] OTHER -> "ok"
Want(T, m) == [attrs |-> Obj(T, Ver, m).attrs, attrs0 |-> G.classes[KeyOf(Ver, m)].attrs, seen |-> Obj(T, Ver, m).seen, ln |-> Obj(T, Ver, m).ln]
BadOnes(T) == {m \in Known(Ver) : ObjClause(m, Want(T, m), O.objs[m]) # "ok"}

(* Written: a source that was given, and no other one (a url that says nothing need not be). *)
MayWrite(T) == {m \in Known(Ver) : Obj(T, Ver, m).seen}
MustWrite(T) == {m \in MayWrite(T) : m # "url" \/ Truthy(Obj(T, Ver, "url").attrs["url"])}

Clause(r) ==
  CASE r.v # "ok" -> r.v
    [] BadOnes(r.S) # {} -> LET m == CHOOSE x \in BadOnes(r.S) : TRUE IN ObjClause(m, Want(r.S, m), O.objs[m])
    [] O.after \notin Answers(r.S, Ver) -> "afterwards, method: expected one of " \o ToString(Answers(r.S, Ver))
    [] O.ln # Line1 -> "line number of the proxy: expected " \o ToString(Line1)
    [] O.more # <<>> -> "something else changed: " \o ToString(O.more)
    [] O.twin # "none" -> "another handler changed"
    [] Op.op = "str" /\ ~(MustWrite(r.S) \subseteq Range(O.written) /\ Range(O.written) \subseteq MayWrite(r.S)) -> "written: expected " \o ToString(MustWrite(r.S))
    [] OTHER -> "ok"

Init == sid \in 1..Len(Sessions) /\ op = 1 /\ S = <<>> /\ ln = 0 /\ verdict = "run"
Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)
Advance(v) ==
  IF v # "ok" THEN verdict' = v /\ Say(v) /\ op' = op
  ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op
  ELSE verdict' = "run" /\ op' = op + 1
Do == LET r == Apply IN S' = r.S /\ ln' = Line1 /\ Advance(Clause(r))
Next == \/ verdict = "run" /\ sid' = sid /\ Do
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
