------------------------- MODULE Trace_KsCommands -------------------------
(***************************************************************************)
(* Trace validation for commands.  A session is a syntax version and a     *)
(* sequence of command lines given to one handler, each with what the      *)
(* implementation was observed to do, then possibly the written file read  *)
(* back.                                                                    *)
(***************************************************************************)
EXTENDS KsLines

Sessions == ndJsonDeserialize("sessions.ndjson")

VARIABLES sid, op, st, verdict
vars == <<sid, op, st, verdict>>

Ses == Sessions[sid]
Step0 == Ses.ops[op]


LineClause(r, ver, L, o) ==
  LET known == L.cmd \in DOMAIN G.versions[ver]
      key == G.versions[ver][L.cmd]
      c == G.classes[key]
      obj == ObjOf(r.S, key)
      oattrs == Full(c.attrs, o.attrs)
      olist == [j \in 1..Len(o.list) |-> [attrs |-> Full(c.data, o.list[j].a), ln |-> o.list[j].ln]]
  IN
  CASE r.res = "unspec" -> "unspec"
    [] r.res = "rej" /\ o.exc = "none" -> "accepted, but: " \o r.why
    [] r.res = "ok" /\ o.exc # "none" -> "rejected, but the line is valid"
    [] r.res = "rej" /\ o.exc # "parse" -> "rejection is not a kickstart parse error"
    [] r.res = "rej" /\ o.ln # L.ln -> "rejection names the wrong line"
    [] r.res = "rej" /\ ~o.msg -> "the error message does not name the line"
    [] \E j \in 1..Len(o.wl) : o.wl[j] # L.ln -> "a warning names another line"
    [] o.other # <<>> -> "another command changed: " \o ToString(o.other)
    [] ~known -> IF o.deprs > 0 \/ o.warns > 0 THEN "warning for an unknown command" ELSE "ok"
    [] c.kind # "active" ->
         IF r.res = "ok" /\ o.deprs = 0 THEN "no deprecation warning" ELSE
         IF r.res = "ok" /\ o.text THEN "a deprecated command has an effect" ELSE "ok"
    [] c.fam = "Method" -> "ok"
    [] r.res = "ok" /\ ~(r.depr \subseteq Range(o.dopts)) -> "no warning for a deprecated option"
    [] r.res = "ok" /\ r.anydepr /\ o.deprs = 0 -> "no deprecation warning"
    [] r.res = "ok" /\ ~r.anydepr /\ o.deprs > 0 -> "deprecation warning without reason"
    [] r.res = "ok" /\ r.dup /\ o.warns = 0 -> "no warning for a duplicate"
    [] r.res = "ok" /\ ~r.dup /\ o.warns > 0 -> "warning without reason"
    [] c.list # "" /\ Len(o.list) # Len(obj.list) -> "entries: expected " \o ToString(Len(obj.list))
    [] c.list # "" /\ \E j \in 1..Len(obj.list) : DiffAttrs(obj.list[j].attrs, olist[j].attrs) # {} ->
         LET j == CHOOSE i \in 1..Len(obj.list) : DiffAttrs(obj.list[i].attrs, olist[i].attrs) # {}
             d == CHOOSE x \in DiffAttrs(obj.list[j].attrs, olist[j].attrs) : TRUE
         IN "entry " \o ToString(j) \o ", " \o d \o ": expected " \o ToString(obj.list[j].attrs[d])
    [] c.list # "" /\ \E j \in 1..Len(obj.list) : o.list[j].ln # obj.list[j].ln -> "line number of an entry"
    [] obj.sure /\ DiffAttrs(obj.attrs, oattrs) # {} ->
         LET d == CHOOSE x \in DiffAttrs(obj.attrs, oattrs) : TRUE
         IN d \o ": expected " \o ToString(obj.attrs[d])
    [] o.objln # obj.ln -> "line number of the command"
    [] o.seen # obj.seen -> IF obj.seen THEN "not marked as seen" ELSE "a refused line counts as seen"
    [] OTHER -> "ok"

(* Reading back what was written.  o.back: for each command that changed, what it was and what it is after reading. *)
BackOne(b) ==
  LET c == G.classes[b.key] IN
  CASE Len(b.l1) # Len(b.l2) -> "read back: number of " \o b.cmd \o " entries"
    [] \E j \in 1..Len(b.l1) : EffDiff(c, Full(c.data, b.l1[j]), Full(c.data, b.l2[j])) # {} ->
         LET j == CHOOSE i \in 1..Len(b.l1) : EffDiff(c, Full(c.data, b.l1[i]), Full(c.data, b.l2[i])) # {}
         IN "read back: " \o b.cmd \o " entry " \o ToString(j) \o ": " \o ToString(EffDiff(c, Full(c.data, b.l1[j]), Full(c.data, b.l2[j])))
    [] EffDiff(c, Full(c.attrs, b.a1), Full(c.attrs, b.a2)) # {} -> "read back: " \o b.cmd \o ": " \o ToString(EffDiff(c, Full(c.attrs, b.a1), Full(c.attrs, b.a2)))
    [] OTHER -> "ok"
StrClause(S, o) ==
  CASE \E key \in DOMAIN S : ~S[key].sure -> "unspec"
    [] \E j \in 1..Len(Ses.ops) : Ses.ops[j].op = "line" /\ Ses.ops[j].l.cmd \in DOMAIN G.versions[Ses.ver]
                                 /\ ~LineSurvives(Class(Ses.ver, Ses.ops[j].l.cmd), Ses.ops[j].l) -> "unspec"
    [] o.fail # "" -> "written file: " \o o.fail
    [] \E j \in 1..Len(o.back) : BackOne(o.back[j]) # "ok" ->
         BackOne(o.back[CHOOSE j \in 1..Len(o.back) : BackOne(o.back[j]) # "ok"])
    [] ~o.again -> "writing again gives different text"
    [] ~o.order -> "commands out of order"
    [] OTHER -> "ok"

Init == sid \in 1..Len(Sessions) /\ op = 1 /\ st = <<>> /\ verdict = "run"

Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)

Advance(v) ==
  IF v # "ok" THEN verdict' = v /\ Say(v) /\ op' = op
  ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op
  ELSE verdict' = "run" /\ op' = op + 1

DoLine == /\ Step0.op = "line"
          /\ LET r == Line(st, Ses.ver, Step0.l)
             IN  st' = r.S /\ Advance(LineClause(r, Ses.ver, Step0.l, Step0.obs))
          /\ UNCHANGED sid

DoStr == /\ Step0.op = "str"
         /\ Advance(StrClause(st, Step0.obs))
         /\ UNCHANGED <<sid, st>>

Next == \/ verdict = "run" /\ (DoLine \/ DoStr)
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
