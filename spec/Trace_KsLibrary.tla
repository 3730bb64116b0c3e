-------------------------- MODULE Trace_KsLibrary --------------------------
(***************************************************************************)
(* Trace validation for the library with all its real commands: several    *)
(* handlers of any versions, each with a parser; documents are read,        *)
(* commands reset or masked, handlers written out, in any order.            *)
(***************************************************************************)
EXTENDS KsWritten

Sessions  == ndJsonDeserialize("sessions.ndjson")
LineTable == ndJsonDeserialize("lines.ndjson")

VARIABLES sid, op, hs, s, verdict
vars == <<sid, op, hs, s, verdict>>

Ses == Sessions[sid]
Op  == Ses.ops[op]
Idle == [status |-> "idle"]
Files == [f \in DOMAIN Ses.files |-> [dir |-> Ses.files[f].dir, lines |-> [j \in 1..Len(Ses.files[f].li) |-> LineTable[Ses.files[f].li[j]]]]]
EnvOf(h) == [files |-> Files, cwd |-> "/w", ver |-> h.c.ver, new |-> h.c.new, cmds |-> DOMAIN G.versions[h.c.ver], masked |-> h.masked,
             fatal |-> h.c.fatal, follow |-> h.c.follow, missfatal |-> h.c.missfatal, unkfatal |-> h.c.unkfatal, strict |-> FALSE]

(* The state of a handler, as its attributes show it. *)
Shown(o, key) == LET js == {j \in 1..Len(o.set) : o.set[j].key = key} IN
  IF js = {} THEN [key |-> key, seen |-> FALSE, ln |-> 0, a |-> <<>>, l |-> <<>>, lns |-> <<>>] ELSE o.set[CHOOSE j \in js : TRUE]
CmdClause(D, o, key) ==
  LET c == G.classes[key]  b == Shown(o, key)  x == ObjOf(D.S, key) IN
  CASE c.fam = "Method" \/ ~x.sure -> "ok"
    [] b.seen # x.seen -> "seen: expected " \o ToString(x.seen)
    [] b.ln # x.ln -> "line: expected " \o ToString(x.ln)
    [] c.kind # "active" -> "ok"
    [] Len(b.l) # Len(x.list) -> "expected " \o ToString(Len(x.list)) \o " entries"
    [] b.lns # [j \in 1..Len(x.list) |-> x.list[j].ln] -> "lines of the entries: expected " \o ToString([j \in 1..Len(x.list) |-> x.list[j].ln])
    [] \E j \in 1..Len(b.l) : DiffAttrs(x.list[j].attrs, FullOr(c.data, b.l[j])) # {} -> "entry: expected " \o ToString([j \in 1..Len(x.list) |-> x.list[j].attrs])
    [] DiffAttrs(x.attrs, FullOr(c.attrs, b.a)) # {} -> ToString(DiffAttrs(x.attrs, FullOr(c.attrs, b.a)))
    [] OTHER -> "ok"
Live(h) == {G.versions[h.c.ver][n] : n \in DOMAIN G.versions[h.c.ver] \ h.masked}
BadKeys(h, o) == {key \in (DOMAIN h.D.S \cup {o.set[j].key : j \in 1..Len(o.set)}) \cap Live(h) : CmdClause(h.D, o, key) # "ok"}
StateClause(h, o) ==
  CASE o.broken # "" -> "state cannot be observed: " \o o.broken
    [] BadKeys(h, o) # {} -> LET key == CHOOSE x \in BadKeys(h, o) : TRUE IN key \o ": " \o CmdClause(h.D, o, key)
    [] o.scripts # h.D.d.scripts -> "scripts: expected " \o ToString(h.D.d.scripts)
    [] Range(o.pkgs) # h.D.d.pkgs -> "packages: expected " \o ToString(h.D.d.pkgs)
    [] o.pkgseen # h.D.d.pkgseen -> "packages seen"
    [] o.platform # h.D.d.platform -> "platform: expected " \o h.D.d.platform
    [] o.errs # h.D.d.errs -> "error count: expected " \o ToString(h.D.d.errs)
    [] OTHER -> "ok"

ReadClause(h, st, o) ==
  CASE st.status = "unspec" -> "unspec"
    [] o.exc # st.err.kind -> "exception: expected " \o st.err.kind
    [] st.err.kind = "parse" /\ o.ln # st.err.ln -> "error line: expected " \o ToString(st.err.ln)
    [] st.err.kind = "parse" /\ ~o.msg -> "error message does not name the line"
    [] o.others # <<>> -> "another handler changed: " \o ToString(o.others)
    [] StateClause(h, o) # "ok" -> StateClause(h, o)
    [] o.bad # (IF h.c.fatal THEN <<>> ELSE h.D.bad) -> "errors reported: expected " \o ToString(h.D.bad)
    [] h.D.bad = <<>> /\ st.status = "done" /\ o.warned # h.D.warned -> IF o.warned THEN "warning without reason" ELSE "no warning"
    [] OTHER -> "ok"
(* Where unknown sections of an old document end cannot be told. *)
StrClause(h, o) ==
  CASE o.others # <<>> -> "another handler changed: " \o ToString(o.others)
    [] h.masked # {} \/ (h.D.d.extra # {} /\ (~h.c.new \/ "%end" \in h.D.d.extra \/ \E x \in h.D.d.pkgs : SubSeq(x, 1, 1) = "%")) -> "ok"
    [] TextClause(h.D, h.c.new, o) # "ok" -> "written: " \o TextClause(h.D, h.c.new, o)
    [] ~o.same -> "writing twice gives different text"
    [] ~o.again -> "writing the reread document gives different text"
    [] StateClause(h, o.st) # "ok" -> "after writing: " \o StateClause(h, o.st)
    [] OTHER -> "ok"
(* A handler built by a program from the settings of this one: the same settings, no lines, and a file that says so. *)
CloneClause(h, o) ==
  LET noln == [h EXCEPT !.D.d = EmptyData,
                        !.D.S = [k \in DOMAIN @ |-> [@[k] EXCEPT !.ln = 0, !.seen = (@ /\ G.classes[k].kind = "active"), !.list = [j \in 1..Len(@) |-> [@[j] EXCEPT !.ln = 0]]]]]
  IN
  CASE o.exc # "none" -> "a program cannot make these settings"
    [] o.others # <<>> -> "another handler changed: " \o ToString(o.others)
    [] StateClause(noln, o.st) # "ok" -> "set by a program: " \o StateClause(noln, o.st)
    [] TextClause(noln.D, h.c.new, o) # "ok" -> "set by a program, written: " \o TextClause(noln.D, h.c.new, o)
    [] OTHER -> "ok"
OpClause(h, o) ==
  CASE o.exc # "none" -> "exception"
    [] o.others # <<>> -> "another handler changed: " \o ToString(o.others)
    [] OTHER -> StateClause(h, o)

Init == sid \in 1..Len(Sessions) /\ op = 1 /\ hs = <<>> /\ s = Idle /\ verdict = "run"
Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)
Advance(v) ==
  /\ s' = Idle
  /\ IF v # "ok" THEN verdict' = v /\ Say(v) /\ op' = op
     ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op
     ELSE verdict' = "run" /\ op' = op + 1

DoNew == /\ Op.op = "new"
         /\ LET h == [c |-> Op, D |-> Empty, masked |-> {}]
            IN  hs' = Append(hs, h) /\ Advance(OpClause(h, Op.obs))
         /\ UNCHANGED sid
Begin == /\ Op.op = "read" /\ s.status = "idle"
         /\ s' = InitRead(Op.top)
         /\ hs' = [hs EXCEPT ![Op.h].D = [@ EXCEPT !.bad = <<>>, !.named = <<>>, !.warned = FALSE]]
         /\ UNCHANGED <<sid, op, verdict>>
ReadStep == /\ Op.op = "read" /\ s.status = "run"
            /\ LET r == DStep(EnvOf(hs[Op.h]), hs[Op.h].D, s) IN hs' = [hs EXCEPT ![Op.h].D = r.D] /\ s' = r.s
            /\ UNCHANGED <<sid, op, verdict>>
EndRead == /\ Op.op = "read" /\ s.status \notin {"idle", "run"}
           /\ Advance(ReadClause(hs[Op.h], s, Op.obs))
           /\ UNCHANGED <<sid, hs>>
DoStr == /\ Op.op = "str"
         /\ Advance(StrClause(hs[Op.h], Op.obs))
         /\ UNCHANGED <<sid, hs>>
DoClone == /\ Op.op = "clone"
           /\ Advance(CloneClause(hs[Op.h], Op.obs))
           /\ UNCHANGED <<sid, hs>>
DoReset == /\ Op.op = "reset"
           /\ LET key == G.versions[hs[Op.h].c.ver][Op.n]
                  h == [hs[Op.h] EXCEPT !.D.S = [k \in DOMAIN @ \ {key} |-> @[k]]]
              IN  hs' = [hs EXCEPT ![Op.h] = h] /\ Advance(OpClause(h, Op.obs))
           /\ UNCHANGED sid
DoMask == /\ Op.op = "mask"
          /\ LET gone == DOMAIN G.versions[hs[Op.h].c.ver] \ Range(Op.keep)
                 h == [hs[Op.h] EXCEPT !.masked = @ \cup gone]
             IN  hs' = [hs EXCEPT ![Op.h] = h] /\ Advance(OpClause(h, Op.obs))
          /\ UNCHANGED sid
Next == \/ verdict = "run" /\ (DoNew \/ Begin \/ ReadStep \/ EndRead \/ DoStr \/ DoClone \/ DoReset \/ DoMask)
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
