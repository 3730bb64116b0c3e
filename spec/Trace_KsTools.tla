--------------------------- MODULE Trace_KsTools ---------------------------
(***************************************************************************)
(* Trace validation for the tools: each operation is a run of ksvalidator  *)
(* or ksflatten, or something typed at a ksshell, with what was observed.  *)
(***************************************************************************)
EXTENDS KsTools, KsWritten

Sessions  == ndJsonDeserialize("sessions.ndjson")
LineTable == ndJsonDeserialize("lines.ndjson")

VARIABLES sid, op, D, s, verdict
vars == <<sid, op, D, s, verdict>>

Ses == Sessions[sid]
Op  == Ses.ops[op]
Idle == [status |-> "idle"]

Files == [f \in DOMAIN Ses.files |-> [dir |-> Ses.files[f].dir, lines |-> [j \in 1..Len(Ses.files[f].li) |-> LineTable[Ses.files[f].li[j]]]]]
Env == CASE Op.op = "val" -> ValEnv(Ses.ver, Ses.new, Files, Op.e, Op.i)
         [] Op.op = "flat" -> FlatEnv(Ses.ver, Ses.new, Files)
         [] OTHER -> ShellEnv(Ses.ver, Ses.new, Files)

Reads == Op.op \in {"val", "flat", "seed", "type"}
Splices == Op.op \in {"val", "seed"}
There == Op.top \in DOMAIN Files
Readable == There /\ (Splices => Expanded(Env, Op.top).ok)
TopName == IF Splices THEN "(spliced)" ELSE Op.top
REnv == IF Splices THEN Spliced(Env, Op.top) ELSE Env

(***************************************************************************)
(* ksvalidator                                                              *)
(***************************************************************************)
Named(o) == Range(o.lines)
ValClause(o) ==
  LET rc == ValStatus(Readable, D, s)
      parse == Readable /\ s.status = "error" /\ s.err.kind = "parse"
  IN
  CASE o.exc # "" -> "ended in an exception"
    [] s.status = "unspec" -> "unspec"
    [] o.left -> "temporary files left behind"
    [] o.changed -> "the input was changed"
    [] o.rc # rc -> "status: expected " \o ToString(rc)
    [] rc # 0 /\ ~o.said -> "a problem is not reported"
    [] rc = 0 /\ o.said -> "something is reported about a good file"
    [] parse /\ s.err.ln \notin Named(o) /\ ~D.warned -> "the line at fault is not named: " \o ToString(s.err.ln)
    [] Readable /\ ~(Range(D.named) \subseteq Named(o)) -> "a line at fault is not named: " \o ToString(D.named)
    [] OTHER -> "ok"

(* Runs that read nothing. *)
ArgClause(o) ==
  CASE o.exc # "" -> "ended in an exception"
    [] o.left -> "temporary files left behind"
    [] Op.want = "zero" /\ o.rc # 0 -> "status: expected 0"
    [] Op.want = "fail" /\ o.rc = 0 -> "succeeded"
    [] ~o.said -> "nothing is said"
    [] Op.names # <<>> /\ Range(o.words) # Range(Op.names) -> "listed versions"
    [] ~o.kept -> "an existing output file was changed"
    [] OTHER -> "ok"

(***************************************************************************)
(* ksflatten                                                                *)
(***************************************************************************)
FlatClause(o) ==
  LET good == There /\ s.status = "done" IN
  CASE s.status = "unspec" -> "unspec"
    [] o.exc # "" -> "ended in an exception"
    [] o.left -> "temporary files left behind"
    [] o.changed -> "the input was changed"
    [] good /\ o.rc # 0 -> "failed on a good file"
    [] ~good /\ o.rc = 0 -> "succeeded on a bad file"
    [] ~good /\ ~o.said -> "failed without a message"
    [] ~good /\ ~o.kept -> "an existing output file was changed by a failing run"
    [] ~good -> "ok"
    [] TextClause(D, Ses.new, o) # "ok" -> TextClause(D, Ses.new, o)
    [] ~o.again -> "flattening the result gives something else"
    [] OTHER -> "ok"

(***************************************************************************)
(* ksshell                                                                  *)
(***************************************************************************)
LastBad(ds) == s.status = "error" \/ D.d.errs > ds
TypeClause(o) ==
  CASE s.status = "unspec" -> "unspec"
    [] (s.status = "error" \/ ~Readable \/ D.bad # <<>>) /\ ~o.said -> "a wrong line is not reported"
    [] Readable /\ s.status = "done" /\ D.bad = <<>> /\ ~D.warned /\ o.said -> "something is reported about a good line"
    [] OTHER -> "ok"
EndClause(o) ==
  CASE o.exc # "" -> "ended in an exception"
    [] o.rc # 0 -> "status: expected 0"
    [] o.left -> "temporary files left behind"
    [] TextClause(D, Ses.new, o) # "ok" -> "result: " \o TextClause(D, Ses.new, o)
    [] OTHER -> "ok"
CompClause(o) ==
  CASE Op.cmd # "" /\ Op.cmd \in DOMAIN G.versions[Ses.ver] /\ G.classes[G.versions[Ses.ver][Op.cmd]].kind # "active" -> "ok"
    [] Op.cmd \in DOMAIN G.versions[Ses.ver] /\ G.classes[G.versions[Ses.ver][Op.cmd]].fam = "Method" -> "ok"
    [] Range(o.offered) # Offered(Ses.ver, Op.cmd, Op.word) -> "completion: expected " \o ToString(Offered(Ses.ver, Op.cmd, Op.word))
    [] OTHER -> "ok"

Init == sid \in 1..Len(Sessions) /\ op = 1 /\ D = Empty /\ s = Idle /\ verdict = "run"

Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)
Advance(v) ==
  /\ s' = Idle
  /\ IF v # "ok" THEN verdict' = v /\ Say(v) /\ op' = op
     ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op
     ELSE verdict' = "run" /\ op' = op + 1

(* What is remembered between operations: a shell keeps its handler, a tool run does not. *)
Kept == IF Op.op \in {"seed", "type"} THEN [D EXCEPT !.bad = <<>>, !.named = <<>>, !.warned = FALSE] ELSE Empty

Begin == /\ Reads /\ s.status = "idle"
         /\ s' = IF Readable THEN InitRead(TopName) ELSE [status |-> "nothing"]
         /\ D' = Kept
         /\ UNCHANGED <<sid, op, verdict>>
ReadStep == /\ Reads /\ s.status = "run"
            /\ LET r == DStep(REnv, D, s) IN D' = r.D /\ s' = r.s
            /\ UNCHANGED <<sid, op, verdict>>
EndRead == /\ Reads /\ s.status \notin {"idle", "run"}
           /\ Advance(CASE Op.op = "val" -> ValClause(Op.obs) [] Op.op = "flat" -> FlatClause(Op.obs) [] OTHER -> TypeClause(Op.obs))
           /\ UNCHANGED <<sid, D>>
Simple == /\ ~Reads
          /\ CASE Op.op = "arg" -> Advance(ArgClause(Op.obs)) /\ UNCHANGED D
               [] Op.op = "clear" -> D' = Empty /\ Advance(IF Op.obs.said THEN "something is reported about .clear" ELSE "ok")
               [] Op.op = "show" -> Advance(LET v == TextClause(D, Ses.new, Op.obs) IN IF v = "ok" THEN v ELSE "shown: " \o v) /\ UNCHANGED D
               [] Op.op = "bogus" -> Advance(IF Op.obs.said THEN "ok" ELSE "a wrong internal command is not reported") /\ UNCHANGED D
               [] Op.op = "comp" -> Advance(CompClause(Op.obs)) /\ UNCHANGED D
               [] OTHER -> Advance(EndClause(Op.obs)) /\ UNCHANGED D
          /\ UNCHANGED sid

Next == \/ verdict = "run" /\ (Begin \/ ReadStep \/ EndRead \/ Simple)
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
