----------------------------- MODULE Trace_KsLoad ---------------------------
(* Trace validation for loading and preprocessing: a session changes the    *)
(* world (put) and calls the real code in between.                          *)
EXTENDS KsPreprocess, Json
Sessions == ndJsonDeserialize("sessions.ndjson")
VARIABLES sid, op, verdict, world
vars == <<sid, op, verdict, world>>
Ses == Sessions[sid]
Op == Ses.ops[op]
O == Op.obs

Untouched == O.extra = <<>> /\ O.changed = <<>>

(* --- into a string *)
JudgeStr ==
  LET w == Load(world, Op.loc) IN
  CASE ~Untouched -> "loading into a string changed files"
    [] w.s = "open" -> "ok"
    [] w.s = "err" -> IF O.exc = "ks" THEN "ok" ELSE IF O.exc = "none" THEN "a source that cannot be read gave text" ELSE "not a kickstart error"
    [] O.exc # "none" -> "a readable source was refused"
    [] O.t # w.t -> "not the complete content"
    [] OTHER -> "ok"

(* --- into a file *)
Same == ~Op.loc.url /\ Op.loc.name = Op.dest.name
JudgeFile ==
  LET rd == Readable(world, Op.loc)
      wr == Writable(world, Op.dest, Op.full)
      src == Source(world, Op.loc)
      good == IF Op.loc.url THEN O.text = Written(world, Op.loc) ELSE O.bytes = Written(world, Op.loc)
  IN
  CASE ~Untouched -> "loading into a file changed other files"
    [] O.exc = "other" -> "not a kickstart error"
    [] Same -> IF O.dest = "same" THEN "ok" ELSE "copying a file onto itself changed it"
    [] rd = "open" -> "ok"
    [] rd = "err" -> IF O.exc = "none" THEN "a source that cannot be read was loaded"
                     ELSE IF O.dest # "same" THEN "the destination was touched although the source cannot be read" ELSE "ok"
    [] ~wr -> IF O.exc = "none" THEN "a destination that cannot be written was accepted" ELSE "ok"
    [] O.exc = "ks" /\ rd = "either" -> "ok"
    [] O.exc # "none" -> "a readable source was refused"
    [] ~good -> "the destination does not hold the complete content"
    [] ~O.ret -> "the destination is not the one returned"
    [] OTHER -> "ok"
AfterFile ==
  LET n == Op.dest.name IN
  IF Op.dest.parent # "there" \/ Same \/ (n \in DOMAIN world /\ world[n].k \in {"dir", "locked"}) THEN world
  ELSE IF O.exc = "none" /\ Readable(world, Op.loc) \in {"ok", "either"} /\ (~Op.loc.url \/ Source(world, Op.loc).k # "http" \/ (Source(world, Op.loc).cs # "latin-1" /\ Source(world, Op.loc).to = ""))
       THEN (n :> RawOf(Source(world, Op.loc).units)) @@ world
  ELSE IF O.dest = "same" THEN world
  ELSE (n :> [k |-> "open"]) @@ world

(* --- preprocessing *)
ToFile == Op.entry \in {"s2f", "f2f"}
FromFile == Op.entry \in {"f2s", "f2f"}
JudgePre ==
  LET main == IF FromFile THEN Load(world, Op.loc) ELSE LOk("")
      us == IF FromFile THEN Source(world, Op.loc).units ELSE <<>>
      lines == IF FromFile THEN [j \in 1..Len(us) |-> UnitText(us[j], IF Op.loc.url THEN Source(world, Op.loc).cs ELSE "utf-8")] ELSE Op.lines
      w == IF main.s # "ok" THEN [s |-> main.s, t |-> "", ln |-> 0] ELSE Preprocess(world, Op.refs, lines)
  IN
  CASE O.changed # <<>> -> "preprocessing changed files"
    [] w.s = "open" -> "ok"
    [] w.s = "err" -> IF O.exc = "none" THEN "text although something cannot be read"
                      ELSE IF O.exc # "ks" THEN "not a kickstart error"
                      ELSE IF O.extra # <<>> \/ O.temp # 0 THEN "output was left behind"
                      ELSE IF O.ln # w.ln THEN "the error names line " \o ToString(O.ln) \o ", not " \o ToString(w.ln) ELSE "ok"
    [] Op.full -> IF O.exc = "none" THEN "a file that cannot be written was accepted"
                  ELSE IF O.exc # "ks" THEN "not a kickstart error"
                  ELSE IF O.extra # <<>> \/ O.temp # 0 THEN "output was left behind" ELSE "ok"
    [] O.exc # "none" -> "refused, though everything can be read"
    [] O.extra # <<>> -> "files appeared"
    [] O.t # w.t -> "not the spliced text"
    [] O.temp # (IF ToFile THEN 1 ELSE 0) -> "expected " \o (IF ToFile THEN "one" ELSE "no") \o " new file"
    [] ToFile /\ ~O.ret -> "the new file is not the one returned"
    [] OTHER -> "ok"

Judge == CASE Op.op = "str" -> JudgeStr [] Op.op = "file" -> JudgeFile [] Op.op = "pre" -> JudgePre [] OTHER -> "ok"
After == CASE Op.op = "put" -> (Op.name :> Op.src) @@ world [] Op.op = "file" -> AfterFile [] OTHER -> world

Init == sid \in 1..Len(Sessions) /\ op = 1 /\ verdict = "run" /\ world = ("(none)" :> [k |-> "none"])
Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)
Advance(v) ==
  IF v # "ok" THEN verdict' = v /\ Say(v) /\ op' = op /\ UNCHANGED world
  ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op /\ UNCHANGED world
  ELSE verdict' = "run" /\ op' = op + 1 /\ world' = After
Next == \/ verdict = "run" /\ sid' = sid /\ Advance(Judge)
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
