-------------------------- MODULE Trace_KsParser --------------------------
(***************************************************************************)
(* Trace validation for KsParser.  A session is a sequence of operations   *)
(* on a few parsers (create, read a document, write the handler out), each *)
(* with what the implementation was observed to do.  Every session is      *)
(* replayed through the actions of KsParser; each ends in a verdict "ok",  *)
(* "unspec" or the name of the first clause that the observation breaks.   *)
(***************************************************************************)
EXTENDS KsParser, TLC, Json

Sessions  == ndJsonDeserialize("sessions.ndjson")
LineTable == ndJsonDeserialize("lines.ndjson")

VARIABLES sid, op, ps, rd, verdict
vars == <<sid, op, ps, rd, verdict>>

Range(sq) == {sq[j] : j \in 1..Len(sq)}
Ses == Sessions[sid]
Op  == Ses.ops[op]
Idle == [p |-> 0]

FilesOf(ses) == [f \in DOMAIN ses.files |->
                   [dir |-> ses.files[f].dir,
                    lines |-> [j \in 1..Len(ses.files[f].li) |-> LineTable[ses.files[f].li[j]]]]]

EnvFor(ses, c) == [files |-> FilesOf(ses), cwd |-> "/w", cmds |-> {"cmda", "cmdb", "lang2"},
                   new |-> c.new, fatal |-> c.fatal, follow |-> c.follow,
                   missfatal |-> c.missfatal, unkfatal |-> c.unkfatal]

(* What a read must have shown. *)
ReadClause(d, s, o) ==
  CASE s.status = "unspec" -> "unspec"
    [] o.exc # s.err.kind -> "exception: expected " \o s.err.kind
    [] s.err.kind = "parse" /\ o.ln # s.err.ln -> "error line: expected " \o ToString(s.err.ln)
    [] s.err.kind = "parse" /\ ~o.msg -> "error message does not name the line"
    [] o.log # d.log -> "commands dispatched: expected " \o ToString(d.log)
    [] o.scripts # d.scripts -> "scripts: expected " \o ToString(d.scripts)
    [] o.recs # d.recs -> "user section: expected " \o ToString(d.recs)
    [] Range(o.pkgs) # d.pkgs -> "packages: expected " \o ToString(d.pkgs)
    [] o.pkgseen # d.pkgseen -> "packages seen"
    [] o.platform # d.platform -> "platform: expected " \o d.platform
    [] o.errs # d.errs -> "error count: expected " \o ToString(d.errs)
    [] ~o.quiet /\ d.errs = 0 -> "message on stderr without an error"
    [] o.rej # d.rej -> "errors reported on stderr: expected " \o ToString(d.rej)
    [] o.warns # d.warns -> "unknown section warnings: expected " \o ToString(d.warns)
    [] OTHER -> "ok"

(* What the written document must contain (user sections and error counts are not written). *)
WrittenScript(x) == [type |-> x.type,
                     body |-> x.body, interp |-> x.interp, log |-> x.log, err |-> x.err, chroot |-> x.chroot]
RECURSIVE RStrip(_)
RStrip(t) == IF t # "" /\ SubSeq(t, Len(t), Len(t)) \in {" ", "\n", "\t"}
             THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Norm(t, new) == IF ~new THEN RStrip(t)      \* no end marker: blank lines at the end do not count
                ELSE IF t = "" \/ SubSeq(t, Len(t), Len(t)) = "\n" THEN t ELSE t \o "\n"
NormAll(xs, new) == [j \in 1..Len(xs) |-> [xs[j] EXCEPT !.body = Norm(@, new)]]

StrClause(d, new, o) ==
  CASE d.extra # {} /\ (~new \/ "%end" \in d.extra \/ \E x \in d.pkgs : SubSeq(x, 1, 1) = "%") ->
         "unspec"                    \* no way to tell where such a section starts
    [] o.fail # "" -> "written document not readable: " \o o.fail
    [] o.log # [j \in 1..Len(d.log) |-> [n |-> d.log[j].n, a |-> d.log[j].a]] -> "written commands: expected " \o ToString(d.log)
    [] NormAll(o.scripts, new) # NormAll([j \in 1..Len(d.scripts) |-> WrittenScript(d.scripts[j])], new) ->
         "written scripts: expected " \o ToString(d.scripts)
    [] NormAll(o.nulls, new) # NormAll(d.nulls, new) -> "written pass-through sections: expected " \o ToString(d.nulls)
    [] Range(o.pkgs) # d.pkgs -> "written packages: expected " \o ToString(d.pkgs)
    [] o.platform # d.platform -> "written platform: expected " \o d.platform
    [] ~o.ends -> "end tags of the written document do not fit the syntax version"
    [] ~o.again -> "writing the reread document gives different text"
    [] ~o.ver -> "written version comment"
    [] OTHER -> "ok"

Init == /\ sid \in 1..Len(Sessions) /\ op = 1 /\ ps = <<>> /\ rd = Idle /\ verdict = "run"

Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)

Advance(v) ==      \* after the current operation was judged v
  /\ IF v # "ok" THEN verdict' = v /\ Say(v) /\ op' = op
     ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op
     ELSE verdict' = "run" /\ op' = op + 1

DoNew == /\ rd.p = 0 /\ Op.op = "new"
         /\ ps' = Append(ps, [d |-> EmptyData, c |-> Op])
         /\ Advance("ok") /\ UNCHANGED <<sid, rd>>

BeginRead == /\ rd.p = 0 /\ Op.op = "read"
             /\ rd' = [p |-> Op.p, s |-> InitRead(Op.top)]
             /\ UNCHANGED <<sid, op, ps, verdict>>

ReadStep == /\ rd.p # 0 /\ rd.s.status = "run"
            /\ LET r == Step(EnvFor(Ses, ps[rd.p].c), ps[rd.p].d, rd.s)
               IN  ps' = [ps EXCEPT ![rd.p].d = r.d] /\ rd' = [rd EXCEPT !.s = r.s]
            /\ UNCHANGED <<sid, op, verdict>>

EndRead == /\ rd.p # 0 /\ rd.s.status # "run"
           /\ Advance(ReadClause(ps[rd.p].d, rd.s, Op.obs))
           /\ rd' = Idle /\ UNCHANGED <<sid, ps>>

DoStr == /\ rd.p = 0 /\ Op.op = "str"
         /\ Advance(StrClause(ps[Op.p].d, ps[Op.p].c.new, Op.obs))
         /\ UNCHANGED <<sid, ps, rd>>

Next == \/ verdict = "run" /\ (DoNew \/ BeginRead \/ ReadStep \/ EndRead \/ DoStr)
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* The design invariants hold along every validated behaviour, too. *)
LnIsPosition == rd.p # 0 => \A j \in 1..Len(rd.s.stack) : rd.s.stack[j].ln = rd.s.stack[j].i - 1
NothingOpen  == (rd.p # 0 /\ rd.s.status = "done") => rd.s.sec = NoSec
=============================================================================
