------------------------------ MODULE KsParser ------------------------------
(***************************************************************************)
(* The kickstart reader as a state machine: one step per input line (or    *)
(* end of a file), a stack of files for %include, one section open at a    *)
(* time.                                                                    *)
(*                                                                          *)
(* A line is a record; the text is kept only for delivery, everything the  *)
(* reader decides on is explicit:                                           *)
(*   k   kind: "blank" | "comment" | "cmd" | "tag" | "end" | "inc" | "ksa"  *)
(*   t   the text of the line, with its line end                            *)
(*   n   first word (command name or %tag)                                  *)
(*   a   the words after it                                                 *)
(*   q   TRUE iff quoting on the line is unbalanced                         *)
(*   bl  TRUE iff the line is white space only                              *)
(*   r   "ok" | "bad" | "boom": what a registered command (or the header    *)
(*       of a known section) does with these words: accept, reject with a   *)
(*       kickstart parse error, fail with some other exception              *)
(*   o   for a section header: the options as they must be recorded         *)
(*   p   for a comment: platform value or ""                                *)
(*   pk  the package this line names when it stands in %packages ("": none) *)
(*   ref for an include: path as written, "" if absent                      *)
(*   ab  for an include: TRUE iff the path is absolute                      *)
(*                                                                          *)
(* env (fixed during a read): files (path -> [dir, lines]), cwd, new (TRUE  *)
(* iff syntax >= F8), fatal, follow, missfatal, unkfatal, cmds (registered  *)
(* commands).                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

ScriptTags == {"%pre", "%pre-install", "%post", "%onerror", "%traceback"}
NullTags0  == {"%addon", "%anaconda"}
RecTags    == {"%rec"}          \* a user-defined section that wants no blank or comment lines
RecAllTags == {"%recall"}       \* a user-defined section that wants all lines
KnownTags  == ScriptTags \cup NullTags0 \cup RecTags \cup RecAllTags \cup {"%packages"}

NoSec  == [tag |-> "", args |-> <<>>, body |-> <<>>, ln |-> 0, o |-> <<>>, good |-> FALSE]
NoErr  == [kind |-> "none", ln |-> 0]
EmptyData == [log |-> <<>>, scripts |-> <<>>, nulls |-> <<>>, recs |-> <<>>,
              pkgs |-> {}, pkgseen |-> FALSE, platform |-> "", errs |-> 0, rej |-> 0,
              warns |-> <<>>, extra |-> {}]

DefaultOpts == [interp |-> "/bin/sh", log |-> "", err |-> FALSE, nochroot |-> FALSE]

(* Which lines does a section want? *)
AllLines(tag, extra) == tag \in ScriptTags \cup NullTags0 \cup RecAllTags \cup extra
Registered(d, tag) == tag \in KnownTags \cup d.extra

InitRead(top) ==
  [stack |-> <<[f |-> top, i |-> 1, ln |-> 0, ctx |-> "cmd", opened |-> FALSE]>>,
   sec |-> NoSec, status |-> "run", err |-> NoErr]

Top(s)      == s.stack[Len(s.stack)]
Depth(s)    == Len(s.stack) - 1
SetTop(s,fr) == [s EXCEPT !.stack = [@ EXCEPT ![Len(@)] = fr]]
Pop(s)      == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
CurTag(s)   == s.sec.tag

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))

Body(lines) == Concat([j \in 1..Len(lines) |-> lines[j].t])
SomeText(lines) == \E j \in 1..Len(lines) : ~lines[j].bl

(***************************************************************************)
(* Raising: a kickstart error inside an included file is swallowed by the  *)
(* innermost include if missing includes are not fatal; the including      *)
(* file then goes on in the context it was in.                              *)
(***************************************************************************)

Raise(env, d, s, kind, ln) ==
  IF ~env.missfatal /\ kind \in {"parse", "kserr"} /\ Depth(s) > 0
  THEN LET par == Pop(s)
       IN  [d |-> d, s |-> [par EXCEPT !.sec = IF Top(par).ctx = "sec" THEN @ ELSE NoSec]]
  ELSE [d |-> d, s |-> [s EXCEPT !.status = "error", !.err = [kind |-> kind, ln |-> ln]]]

(* A failing command or header: counted; raised only if errors are fatal. *)
Failed(env, d, s, kind, ln, lenient) ==
  LET d1 == [d EXCEPT !.errs = @ + 1]
  IN  IF env.fatal THEN Raise(env, d1, s, kind, ln) ELSE [d |-> d1, s |-> lenient]

(* A rejecting command is also reported in its own words. *)
Rejected(env, d, s, kind, ln) ==
  Failed(env, IF env.fatal THEN d ELSE [d EXCEPT !.rej = @ + 1], s, kind, ln, s)

(***************************************************************************)
(* Closing a section hands over what was collected.                         *)
(***************************************************************************)
ScriptOf(sec) ==
  LET o == IF sec.good THEN sec.o ELSE DefaultOpts
  IN [type |-> sec.tag, body |-> Body(sec.body), ln |-> IF sec.good THEN sec.ln ELSE 0,
      interp |-> o.interp, log |-> o.log, err |-> o.err,
      chroot |-> (sec.tag = "%post" /\ ~o.nochroot)]

Finalize(d, sec) ==
  CASE sec.tag \in ScriptTags ->
         IF SomeText(sec.body) THEN [d EXCEPT !.scripts = Append(@, ScriptOf(sec))] ELSE d
    [] sec.tag \in RecTags \cup RecAllTags ->
         [d EXCEPT !.recs = Append(@, [tag |-> sec.tag, ln |-> sec.ln, args |-> sec.args, body |-> Body(sec.body)])]
    [] sec.tag = "%packages" -> d
    [] OTHER ->
         [d EXCEPT !.nulls = Append(@, [args |-> <<sec.tag>> \o sec.args, body |-> Body(sec.body)])]

Deliver(env, d, s, L, ln) ==
  IF CurTag(s) = "%packages"
  THEN IF L.pk = "" THEN Raise(env, d, s, "parse", ln)
       ELSE [d |-> [d EXCEPT !.pkgs = @ \cup {L.pk}], s |-> s]
  ELSE [d |-> d, s |-> [s EXCEPT !.sec.body = Append(@, L)]]

(***************************************************************************)
(* %include                                                                 *)
(***************************************************************************)
Resolve(env, fr, L) ==
  LET asgiven == IF L.ab THEN L.ref ELSE env.cwd \o "/" \o L.ref
      sibling == env.files[fr.f].dir \o "/" \o L.ref
  IN  IF asgiven \in DOMAIN env.files THEN asgiven
      ELSE IF ~L.ab /\ env.files[fr.f].dir # "" /\ sibling \in DOMAIN env.files THEN sibling
      ELSE ""

Include(env, d, s, fr, L) ==       \* fr: top frame after consuming the line
  LET s1 == SetTop(s, fr)
      target == Resolve(env, fr, L)
  IN  IF L.ref = "" THEN Raise(env, d, s1, "parse", fr.ln)
      ELSE IF ~env.follow THEN [d |-> d, s |-> s1]
      ELSE IF target = ""
           THEN IF env.missfatal THEN Raise(env, d, s1, "kserr", 0) ELSE [d |-> d, s |-> s1]
      ELSE [d |-> d,
            s |-> [s1 EXCEPT !.stack = Append(@, [f |-> target, i |-> 1, ln |-> 0,
                     ctx |-> IF CurTag(s) = "" THEN "cmd" ELSE "sec", opened |-> FALSE])]]

(***************************************************************************)
(* One step.                                                                *)
(***************************************************************************)
StepEof(env, d, s, fr) ==
  IF fr.ctx = "cmd"
  THEN IF Depth(s) = 0 THEN [d |-> d, s |-> [s EXCEPT !.status = "done"]]
                       ELSE [d |-> d, s |-> Pop(s)]
  ELSE IF Depth(s) = 0 \/ fr.opened
       THEN IF env.new THEN Raise(env, d, s, "parse", fr.ln)
            ELSE [d |-> Finalize(d, s.sec),
                  s |-> SetTop([s EXCEPT !.sec = NoSec], [fr EXCEPT !.ctx = "cmd"])]
       ELSE [d |-> d, s |-> Pop(s)]       \* body lines for a section of an outer file

StepCommand(env, d, s, fr, L) ==          \* fr: after consuming L
  LET s1 == SetTop(s, fr) IN
  CASE L.k \in {"blank", "comment"} ->
         [d |-> IF L.p # "" THEN [d EXCEPT !.platform = L.p] ELSE d, s |-> s1]
    [] L.q -> Raise(env, d, s1, "other", fr.ln)      \* unbalanced quotes: not a line at all
    [] L.k = "inc" -> Include(env, d, s, fr, L)
    [] L.k = "ksa" -> [d |-> d, s |-> s1]
    [] L.k = "cmd" ->
         IF L.n \notin env.cmds THEN Failed(env, d, s1, "parse", fr.ln, s1)
         ELSE IF L.r = "bad"  THEN Rejected(env, d, s1, "parse", fr.ln)
         ELSE IF L.r = "boom" THEN Rejected(env, d, s1, "other", fr.ln)
         ELSE [d |-> [d EXCEPT !.log = Append(@, [n |-> L.n, a |-> L.a, ln |-> fr.ln])], s |-> s1]
    [] OTHER ->                            \* a %tag (also a stray %end)
         LET known == Registered(d, L.n)
             d1 == IF known THEN d
                   ELSE [d EXCEPT !.warns = Append(@, L.n), !.extra = @ \cup {L.n}]
             good == L.r = "ok" \/ L.n \notin ScriptTags \cup {"%packages"}
             d2 == IF L.n = "%packages" /\ good THEN [d1 EXCEPT !.pkgseen = TRUE] ELSE d1
             s2 == SetTop([s EXCEPT !.sec = [tag |-> L.n, args |-> L.a, body |-> <<>>,
                                             ln |-> fr.ln, o |-> L.o, good |-> good]],
                          [fr EXCEPT !.ctx = "sec", !.opened = TRUE])
         IN  IF ~known /\ env.unkfatal THEN Raise(env, d, s1, "parse", fr.ln)
             ELSE IF ~good THEN Failed(env, d2, s1, "parse", fr.ln, s2)
             ELSE [d |-> d2, s |-> s2]

OnlyBlank(ls, n) == \A j \in 1..n : ls[j].bl

StepSection(env, d, s, fr0, fr, L) ==      \* fr0: before, fr: after consuming L
  LET s1 == SetTop(s, fr) IN
  CASE L.k \in {"blank", "comment"} /\ ~AllLines(CurTag(s), d.extra) -> [d |-> d, s |-> s1]
    [] L.bl /\ ~fr.opened /\ OnlyBlank(env.files[fr.f].lines, fr.ln) ->
         [d |-> d, s |-> s1]      \* blank lines at the start of a file included in a section
    [] L.q /\ (L.k \in {"end", "inc"} \/ (L.k = "tag" /\ Registered(d, L.n))) ->
         Raise(env, d, s1, "other", fr.ln)
    [] ~fr.opened /\ Depth(s) > 0 /\ (L.k = "end" \/ (L.k = "tag" /\ Registered(d, L.n))) ->
         \* an included file closing a section its parent opened: left unspecified
         [d |-> d, s |-> [s1 EXCEPT !.status = "unspec"]]
    [] L.k = "end" ->
         [d |-> Finalize(d, s.sec),
          s |-> SetTop([s EXCEPT !.sec = NoSec], [fr EXCEPT !.ctx = "cmd", !.opened = FALSE])]
    [] L.k = "inc" -> Include(env, d, s, fr, L)
    [] L.k = "tag" /\ Registered(d, L.n) ->
         IF env.new THEN Raise(env, d, s1, "parse", fr.ln)
         ELSE [d |-> Finalize(d, s.sec),    \* closes the section; the header is read again
               s |-> SetTop([s EXCEPT !.sec = NoSec], [fr0 EXCEPT !.ctx = "cmd", !.opened = FALSE])]
    [] OTHER -> Deliver(env, d, s1, L, fr.ln)

Step(env, d, s) ==
  LET fr0 == Top(s)
      lines == env.files[fr0.f].lines
  IN  IF fr0.i > Len(lines) THEN StepEof(env, d, s, fr0)
      ELSE LET fr == [fr0 EXCEPT !.i = @ + 1, !.ln = @ + 1]
               L  == lines[fr0.i]
           IN  IF fr0.ctx = "cmd" THEN StepCommand(env, d, s, fr, L)
               ELSE StepSection(env, d, s, fr0, fr, L)

(* Run to the end; used to state relations between whole documents. *)
RECURSIVE RunFrom(_,_,_)
RunFrom(env, d, s) ==
  IF s.status # "run" THEN [d |-> d, s |-> s]
  ELSE LET r == Step(env, d, s) IN RunFrom(env, r.d, r.s)

RunDoc(env, d, top) == RunFrom(env, d, InitRead(top))
=============================================================================
