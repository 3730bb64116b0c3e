---------------------------- MODULE KsPreprocess ----------------------------
(***************************************************************************)
(* %ksappend: one pass over the lines, each of which is copied or replaced *)
(* by the text it refers to.                                               *)
(***************************************************************************)
EXTENDS KsLoad

PCh(s, j) == SubSeq(s, j, j)
Blank(ch) == ch \in {" ", "\t", "\n", "\r"}
RECURSIVE Words(_)
Words(s) ==
  IF s = "" THEN <<>>
  ELSE IF Blank(PCh(s, 1)) THEN Words(SubSeq(s, 2, Len(s)))
  ELSE LET e == IF \E j \in 1..Len(s) : Blank(PCh(s, j))
                THEN CHOOSE j \in 1..Len(s) : Blank(PCh(s, j)) /\ \A i \in 1..(j - 1) : ~Blank(PCh(s, i))
                ELSE Len(s) + 1
       IN <<SubSeq(s, 1, e - 1)>> \o Words(SubSeq(s, e, Len(s)))
EndsNl(s) == s # "" /\ PCh(s, Len(s)) = "\n"
RECURSIVE Unindent(_)
Unindent(s) == IF s # "" /\ Blank(PCh(s, 1)) THEN Unindent(SubSeq(s, 2, Len(s))) ELSE s
IsAppend(line) == LET u == Unindent(line) IN
  Len(u) >= 9 /\ SubSeq(u, 1, 9) = "%ksappend" /\ (Len(u) = 9 \/ Blank(PCh(u, 10)))      \* the first word

(* refs: target word -> location *)
Splice(line, text) == IF text # "" /\ EndsNl(line) /\ ~EndsNl(text) THEN text \o "\n" ELSE text
StepLine(world, refs, line) ==
  IF ~IsAppend(line) THEN LOk(line)
  ELSE LET w == Words(line) IN
       IF Len(w) < 2 THEN LErr
       ELSE LET l == Load(world, refs[w[2]]) IN IF l.s = "ok" THEN LOk(Splice(line, l.t)) ELSE l

(* [s, t, ln]: ln the line at fault *)
RECURSIVE Pass(_, _, _, _, _)
Pass(world, refs, lines, n, acc) ==
  IF n > Len(lines) THEN [s |-> "ok", t |-> acc, ln |-> 0]
  ELSE LET x == StepLine(world, refs, lines[n]) IN
       IF x.s = "ok" THEN Pass(world, refs, lines, n + 1, acc \o x.t)
       ELSE [s |-> x.s, t |-> "", ln |-> n]
Preprocess(world, refs, lines) == Pass(world, refs, lines, 1, "")
=============================================================================
