----------------------------- MODULE KsDocument -----------------------------
(***************************************************************************)
(* A whole kickstart document with real commands: the reader of KsParser,  *)
(* with every command line decided by KsLines.  Lines carry, besides what  *)
(* KsParser needs, their command as a record of KsLines (c).               *)
(*                                                                          *)
(* A section header may have r = "warn": accepted with a warning.            *)
(*                                                                          *)
(* env is that of KsParser plus ver (the syntax version), masked (commands *)
(* that are ignored) and strict (TRUE iff warnings count as errors).  A document state D has d (the data of   *)
(* KsParser), S (the commands, KsLines), bad (the lines at fault, in       *)
(* order), warned (TRUE iff something was warned about), nul (pass-through *)
(* sections by name).                                                       *)
(***************************************************************************)
EXTENDS KsParser, KsLines

Empty == [d |-> EmptyData, S |-> <<>>, bad |-> <<>>, named |-> <<>>, warned |-> FALSE]

Pending(env, s) ==
  LET fr == Top(s)  ls == env.files[fr.f].lines
  IN  fr.i <= Len(ls) /\ fr.ctx = "cmd" /\ ls[fr.i].k = "cmd" /\ ~ls[fr.i].q

Header(env, s) ==
  LET fr == Top(s)  ls == env.files[fr.f].lines
  IN  fr.i <= Len(ls) /\ fr.ctx = "cmd" /\ ls[fr.i].k = "tag" /\ ~ls[fr.i].q

DStep(env, D, s) ==
  LET fr == Top(s) IN
  IF Pending(env, s)
  THEN LET L == env.files[fr.f].lines[fr.i]
           r == IF L.c.cmd \in env.masked THEN [res |-> "ok", why |-> "", S |-> D.S, depr |-> {}, anydepr |-> FALSE, dup |-> FALSE]
                ELSE Line(D.S, env.ver, [L.c EXCEPT !.ln = fr.ln + 1])
           warns == r.res = "ok" /\ (r.dup \/ r.anydepr)
           bad == r.res = "rej" \/ (env.strict /\ warns)
           x == StepCommand(env, D.d, s, [fr EXCEPT !.i = @ + 1, !.ln = @ + 1], [L EXCEPT !.r = IF bad THEN "bad" ELSE "ok"])
       IN  IF r.res = "unspec" THEN [D |-> D, s |-> [s EXCEPT !.status = "unspec"]]
           ELSE [D |-> [d |-> x.d, S |-> IF bad THEN D.S ELSE r.S,
                        bad |-> IF bad THEN Append(D.bad, fr.ln + 1) ELSE D.bad,
                        named |-> IF r.res = "rej" /\ ~r.dup THEN Append(D.named, fr.ln + 1) ELSE D.named,
                        warned |-> D.warned \/ warns \/ r.dup],
                 s |-> x.s]
  ELSE IF Header(env, s)
  THEN LET L == env.files[fr.f].lines[fr.i]
           warns == L.r = "warn"
           x == StepCommand(env, D.d, s, [fr EXCEPT !.i = @ + 1, !.ln = @ + 1],
                            IF warns THEN [L EXCEPT !.r = IF env.strict THEN "bad" ELSE "ok"] ELSE L)
       IN  [D |-> [D EXCEPT !.d = x.d, !.bad = IF x.d.errs > D.d.errs THEN Append(@, fr.ln + 1) ELSE @,
                            !.named = IF x.d.errs > D.d.errs /\ ~warns THEN Append(@, fr.ln + 1) ELSE @,
                            !.warned = @ \/ warns \/ x.d.warns # D.d.warns],
            s |-> x.s]
  ELSE LET x == Step(env, D.d, s)
           failed == x.d.errs > D.d.errs
       IN  [D |-> [D EXCEPT !.d = x.d, !.bad = IF failed THEN Append(@, fr.ln + 1) ELSE @,
                            !.warned = @ \/ x.d.warns # D.d.warns],
            s |-> x.s]

RECURSIVE DRunFrom(_, _, _)
DRunFrom(env, D, s) == IF s.status # "run" THEN [D |-> D, s |-> s] ELSE LET r == DStep(env, D, s) IN DRunFrom(env, r.D, r.s)
DRun(env, D, top) == DRunFrom(env, D, InitRead(top))

(***************************************************************************)
(* %ksappend: spliced in before anything is read; what is spliced is not   *)
(* looked at again.                                                         *)
(***************************************************************************)
AppendTarget(env, L) == IF L.ab THEN L.ref ELSE env.cwd \o "/" \o L.ref
RECURSIVE Expand(_, _, _)
Expand(env, lines, acc) ==       \* acc: [ok, ln, lines]
  IF lines = <<>> \/ ~acc.ok THEN acc
  ELSE LET L == Head(lines)  t == AppendTarget(env, L) IN
       Expand(env, Tail(lines),
         IF L.k # "ksa" THEN [acc EXCEPT !.lines = Append(@, L), !.ln = @ + 1]
         ELSE IF L.ref = "" \/ t \notin DOMAIN env.files THEN [acc EXCEPT !.ok = FALSE, !.ln = @ + 1]
         ELSE [acc EXCEPT !.lines = @ \o env.files[t].lines, !.ln = @ + 1])
Expanded(env, top) == Expand(env, env.files[top].lines, [ok |-> TRUE, ln |-> 0, lines |-> <<>>])
(* The file a tool reads after splicing: it lies elsewhere, alone. *)
Spliced(env, top) == [env EXCEPT !.files = ("(spliced)" :> [dir |-> "", lines |-> Expanded(env, top).lines]) @@ @]
=============================================================================
