---------------------------- MODULE MC_KsParser ----------------------------
(* Exhaustive check of the reader over all small documents and all flags.  *)
EXTENDS KsParser, TLC
CONSTANTS MainMax, IncMax, FlagSets

L0 == [k |-> "cmd", t |-> "", n |-> "", a |-> <<>>, q |-> FALSE, bl |-> FALSE, r |-> "ok",
       o |-> DefaultOpts, p |-> "", pk |-> "", ref |-> "", ab |-> FALSE]
Blank   == [L0 EXCEPT !.k = "blank", !.t = "_", !.bl = TRUE]
Comment == [L0 EXCEPT !.k = "comment", !.t = "#", !.p = "x86"]
CmdOk   == [L0 EXCEPT !.n = "cmda", !.t = "a", !.pk = "a"]
CmdBad  == [L0 EXCEPT !.n = "cmda", !.t = "b", !.pk = "b", !.r = "bad"]
CmdBoom == [L0 EXCEPT !.n = "cmda", !.t = "c", !.pk = "c", !.r = "boom"]
Text    == [L0 EXCEPT !.n = "word", !.t = "w", !.pk = "w"]
Quote   == [L0 EXCEPT !.n = "cmda", !.t = "q", !.pk = "q", !.q = TRUE]
Pre     == [L0 EXCEPT !.k = "tag", !.n = "%pre", !.t = "%pre", !.pk = "%pre"]
PreBad  == [Pre EXCEPT !.r = "bad"]
Pkgs    == [L0 EXCEPT !.k = "tag", !.n = "%packages", !.t = "%packages"]
Addon   == [L0 EXCEPT !.k = "tag", !.n = "%addon", !.t = "%addon"]
Zzz     == [L0 EXCEPT !.k = "tag", !.n = "%zzz", !.t = "%zzz", !.pk = "%zzz"]
End     == [L0 EXCEPT !.k = "end", !.n = "%end", !.t = "%end"]
Inc     == [L0 EXCEPT !.k = "inc", !.n = "%include", !.t = "i", !.ref = "f1"]
IncMiss == [Inc EXCEPT !.ref = "nope"]
IncNone == [Inc EXCEPT !.ref = ""]

MainAlpha == {Blank, Comment, CmdOk, CmdBad, CmdBoom, Text, Quote, Pre, PreBad, Pkgs, Addon,
              Zzz, End, Inc, IncMiss, IncNone}
IncAlpha  == {Blank, Comment, CmdOk, CmdBad, Text, Pre, End}

Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
BodyOnly(ls) == \A j \in 1..Len(ls) : ls[j].k \notin {"tag", "end"}

VARIABLES env, d, s, fails
vars == <<env, d, s, fails>>

Files(m, i) == ("/m" :> [dir |-> "/", lines |-> m]) @@ ("//f1" :> [dir |-> "/", lines |-> i])

Flags == [new : BOOLEAN, fatal : BOOLEAN, follow : BOOLEAN, missfatal : BOOLEAN, unkfatal : BOOLEAN]
ChosenFlags == IF FlagSets = "all" THEN Flags
               ELSE {f \in Flags : Cardinality({x \in {"fatal", "follow", "missfatal", "unkfatal"} : ~f[x]}) <= 1}

UsesInc(m) == \E j \in 1..Len(m) : m[j] = Inc

Env(m, i, fl) == [files |-> Files(m, i), cwd |-> "/", cmds |-> {"cmda"}, new |-> fl.new,
                  fatal |-> fl.fatal, follow |-> fl.follow, missfatal |-> fl.missfatal,
                  unkfatal |-> fl.unkfatal]

Init ==
  /\ \E m \in Seqs(MainAlpha, MainMax) :
       \E i \in (IF UsesInc(m) THEN Seqs(IncAlpha, IncMax) ELSE {<<>>}) :
         \E fl \in ChosenFlags : env = Env(m, i, fl)
  /\ d = EmptyData /\ s = InitRead("/m") /\ fails = {}

Next ==
  \/ /\ s.status = "run"
     /\ LET r == Step(env, d, s) IN
          /\ d' = r.d /\ s' = r.s
          /\ fails' = IF r.d.errs > d.errs /\ Top(s).ctx = "cmd" /\ env.files[Top(s).f].lines[Top(s).i].k # "tag"
                      THEN fails \cup {<<Top(s).f, Top(s).i>>} ELSE fails
     /\ UNCHANGED env
  \/ s.status # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Main == env.files["/m"].lines
Final == s.status # "run"

(* The line counter is the position in the file, at every frame, always (C03). *)
LnIsPosition == \A j \in 1..Len(s.stack) : s.stack[j].ln = s.stack[j].i - 1
ErrorHasLine == (s.status = "error" /\ s.err.kind = "parse") =>
                   \E f \in DOMAIN env.files : s.err.ln \in 1..Len(env.files[f].lines)
LogHasLine   == \A j \in 1..Len(d.log) : \E f \in DOMAIN env.files :
                   d.log[j].ln \in 1..Len(env.files[f].lines) /\ env.files[f].lines[d.log[j].ln].n = d.log[j].n

(* At the end nothing is left open; at most the sections opened are delivered (C01). *)
NothingOpen == s.status = "done" => s.sec = NoSec /\ Len(s.stack) = 1
OpenIffCtx  == \A j \in 1..Len(s.stack) : s.stack[j].ctx = "sec" => CurTag(s) # ""

(* Strict mode: at most one error; what came before it has taken effect, nothing else (C04). *)
Strict == env.fatal /\ env.missfatal => d.errs <= 1
Prefix(ls, n) == SubSeq(ls, 1, n)
StrictPrefix ==
  (s.status = "error" /\ env.fatal /\ env.missfatal /\ d.errs = 1 /\ Len(s.stack) = 1) =>
     LET e2  == [env EXCEPT !.files = Files(Prefix(Main, s.err.ln - 1), env.files["//f1"].lines)]
         pre == RunDoc(e2, EmptyData, "/m")
     IN  pre.s.status = "done" /\ [d EXCEPT !.errs = 0, !.warns = pre.d.warns, !.extra = pre.d.extra, !.pkgseen = pre.d.pkgseen] = pre.d

NoLn(x) == [j \in 1..Len(x) |-> [x[j] EXCEPT !.ln = 0]]
Content(x) == [x EXCEPT !.log = NoLn(@), !.scripts = NoLn(@), !.recs = NoLn(@)]

(* Lenient mode: same as if the failing command lines were not there (C04). *)
RECURSIVE Without(_,_,_,_)
Without(f, ls, j, bad) == IF j > Len(ls) THEN <<>>
                       ELSE (IF <<f, j>> \in bad THEN <<>> ELSE <<ls[j]>>) \o Without(f, ls, j + 1, bad)
LenientSkip ==
  (Final /\ ~env.fatal /\ (\A x \in fails : x[1] = "/m")) =>
     LET e2  == [env EXCEPT !.files = Files(Without("/m", Main, 1, fails), env.files["//f1"].lines)]
         oth == RunDoc(e2, EmptyData, "/m")
     IN  /\ oth.s.status = s.status
         /\ [Content(oth.d) EXCEPT !.errs = 0, !.rej = 0] = [Content(d) EXCEPT !.errs = 0, !.rej = 0]
         /\ d.errs = oth.d.errs + Cardinality(fails)

(* Includes are textual (C02). *)
RECURSIVE NoLead(_)
NoLead(ls) == IF ls # <<>> /\ Head(ls).bl THEN NoLead(Tail(ls)) ELSE ls
RECURSIVE Inline(_,_)
Inline(ls, by) == IF ls = <<>> THEN <<>>
                  ELSE (IF Head(ls) = Inc THEN by ELSE <<Head(ls)>>) \o Inline(Tail(ls), by)
IncludeTextual ==
  (Final /\ env.follow /\ UsesInc(Main) /\ s.status = "done" /\ env.missfatal
         /\ BodyOnly(env.files["//f1"].lines)) =>
     LET e2  == [env EXCEPT !.files = Files(Inline(Main, NoLead(env.files["//f1"].lines)), <<>>)]
         oth == RunDoc(e2, EmptyData, "/m")
     IN  oth.s.status = "done" /\ Content(oth.d) = Content(d)
=============================================================================
