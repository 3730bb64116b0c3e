-------------------------- MODULE Trace_KsHandler ---------------------------
(* Trace validation for handlers: several handlers, operations interleaved;  *)
(* after each operation every handler is observed.                           *)
EXTENDS KsHandler, TLC, Json

Sessions == ndJsonDeserialize("sessions.ndjson")
VARIABLES sid, op, hs, verdict
vars == <<sid, op, hs, verdict>>
Range(sq) == {sq[j] : j \in 1..Len(sq)}
Ses == Sessions[sid]
Op  == Ses.ops[op]

(* The recorder classes of the harness in writing order: priority, then name. RecN has no priority: it is never written. *)
WriteOrder == <<"RecZ", "RecA", "RecB", "RecM">>
RecClasses == Range(WriteOrder) \cup {"RecN"}

Live(h, watch) == {n \in watch : h.reg[n] # 0}
ObjOf(h, n) == h.objs[h.reg[n]]
Parts(h, watch) == {{m \in Live(h, watch) : h.reg[m] = h.reg[n]} : n \in Live(h, watch)}

StateClause(h, d, w, o) ==
  LET watch == Range(w)
      live == Live(h, watch)
  IN
  CASE o.names # Cardinality(DOMAIN h.reg) -> "number of names in the registry"
    [] Range(o.masked) # watch \ live -> "masked names: expected " \o ToString(watch \ live)
    [] {Range(o.parts[j]) : j \in 1..Len(o.parts)} # Parts(h, watch) -> "aliases: expected " \o ToString(Parts(h, watch))
    [] Range(o.seen) # {n \in live : ObjOf(h, n).seen} -> "seen: expected " \o ToString({n \in live : ObjOf(h, n).seen})
    [] Range(o.dirty) \cap {n \in live : ~ObjOf(h, n).seen} # {} ->
         "not in its initial state: " \o ToString(Range(o.dirty) \cap {n \in live : ~ObjOf(h, n).seen})
    [] \E n \in live : ObjOf(h, n).cls \in RecClasses /\ o.used[n] # [j \in 1..Len(ObjOf(h, n).used) |-> ObjOf(h, n).used[j]] ->
         "lines a command got"
    [] {n \in live : h.attr[ObjOf(h, n).cls] = h.reg[n]} \ Range(o.amb) # Range(o.attr) -> "attribute of the handler is not the registered object"
    [] o.data # d -> "data classes: expected " \o ToString(d)
    [] OTHER -> "ok"

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
ObjsOf(h, c) == {h.reg[n] : n \in {m \in DOMAIN h.reg : h.reg[m] # 0 /\ h.objs[h.reg[m]].cls = c}}
LinesOf(h, c) == IF ObjsOf(h, c) = {} THEN <<>>
                 ELSE LET u == h.objs[CHOOSE x \in ObjsOf(h, c) : TRUE].used IN [j \in 1..Len(u) |-> c \o " " \o u[j]]
WrittenRecs(h) == Flat([j \in 1..Len(WriteOrder) |-> LinesOf(h, WriteOrder[j])])
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

WriteClause(h, o) ==
  CASE h.masked -> "ok"                       \* what is written after masking is left open
    [] (\A c \in DOMAIN h.attr : c \in RecClasses) /\ o.rec # WrittenRecs(h) -> "written lines: expected " \o ToString(WrittenRecs(h))
    [] {x \in Range(o.rec) : TRUE} # Range(WrittenRecs(h)) \/ Len(o.rec) # Len(WrittenRecs(h)) -> "written lines: expected " \o ToString(WrittenRecs(h))
    [] o.left # <<>> -> "commands not written: " \o ToString(o.left)
    [] o.rest # "" -> "text of no command: " \o o.rest
    [] \E j \in 1..(Len(o.segs) - 1) : ~Before(o.segs[j], o.segs[j + 1]) -> "commands not in the order of priority and name"
    [] OTHER -> "ok"

Joined(a) == IF Len(a) = 1 THEN a[1] ELSE IF Len(a) = 0 THEN "" ELSE a[1] \o " " \o a[2]

Apply(hh) ==      \* result of the current operation: handlers, exception
  CASE Op.op = "new"   -> [hs |-> Append(hh, [h |-> NewHandler(Op.map), d |-> Op.data, w |-> Op.watch]), exc |-> "none"]
    [] Op.op = "write" -> [hs |-> hh, exc |-> "none"]
    [] Op.op = "mask"  -> [hs |-> [hh EXCEPT ![Op.h].h = Mask(@, Range(Op.keep))], exc |-> "none"]
    [] Op.op = "line"  -> LET r == Dispatch(hh[Op.h].h, Op.n, Joined(Op.a), Op.r) IN [hs |-> [hh EXCEPT ![Op.h].h = r.h], exc |-> r.exc]
    [] Op.op = "reset" -> LET r == Reset(hh[Op.h].h, Op.n) IN [hs |-> [hh EXCEPT ![Op.h].h = r.h], exc |-> r.exc]

Open == Op.op = "reset" /\ Op.n \in DOMAIN hs[Op.h].h.reg /\ hs[Op.h].h.reg[Op.n] = 0    \* resetting a masked command

RECURSIVE FirstBad(_, _, _)
FirstBad(hh, o, j) ==
  IF j > Len(hh) THEN "ok"
  ELSE LET c == StateClause(hh[j].h, hh[j].d, hh[j].w, o[j]) IN IF c # "ok" THEN "handler " \o ToString(j) \o ": " \o c ELSE FirstBad(hh, o, j + 1)

Judge(r, o) ==
  CASE o.exc # r.exc -> "exception: expected " \o r.exc
    [] Len(o.hs) # Len(r.hs) -> "handlers cannot be observed"
    [] Op.op = "write" /\ WriteClause(r.hs[Op.h].h, o.w) # "ok" -> WriteClause(r.hs[Op.h].h, o.w)
    [] OTHER -> FirstBad(r.hs, o.hs, 1)

Init == sid \in 1..Len(Sessions) /\ op = 1 /\ hs = <<>> /\ verdict = "run"
Say(v) == PrintT("V|" \o ToString(sid) \o "|" \o ToString(op) \o "|" \o v)
Advance(v) ==
  IF v # "ok" THEN verdict' = v /\ Say(v) /\ op' = op
  ELSE IF op = Len(Ses.ops) THEN verdict' = "ok" /\ Say("ok") /\ op' = op
  ELSE verdict' = "run" /\ op' = op + 1
Do == IF Open THEN hs' = hs /\ Advance("unspec")
      ELSE LET r == Apply(hs) IN hs' = r.hs /\ Advance(Judge(r, Op.obs))
Next == \/ verdict = "run" /\ sid' = sid /\ Do
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
