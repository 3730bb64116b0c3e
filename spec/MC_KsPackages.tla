--------------------------- MODULE MC_KsPackages ---------------------------
(* All sequences of package lines up to MaxLen: the state machine selects   *)
(* what the history asks for; writing the selection as lines (in the order  *)
(* the writer uses) and adding those to an empty selection gives it back.   *)
EXTENDS KsPackages
CONSTANT MaxLen

Line(k, n, lv) == [k |-> k, n |-> n, lv |-> lv]
Lines == {Line("pkg", "a", ""), Line("xpkg", "a", ""), Line("pkg", "b", ""), Line("xpkg", "b", ""),
          Line("grp", "g", "default"), Line("grp", "g", "required"), Line("grp", "g", "all"), Line("xgrp", "g", ""),
          Line("grp", "h", "default"), Line("xgrp", "h", ""),
          Line("env", "e", ""), Line("env", "f", ""), Line("xenv", "e", ""), Line("none", "", "")}

VARIABLES s, h
Init == s = NoPackages /\ h = <<>>
Next == \E L \in Lines : Len(h) < MaxLen /\ s' = AddLine(s, L) /\ h' = Append(h, L)
Spec == Init /\ [][Next]_<<s, h>>

Agrees    == s = Wanted(h)
NeverBoth == s.pk \cap s.xpk = {} /\ Names(s.grp) \cap s.xgrp = {}
OneLevel  == \A a, b \in s.grp : a[1] = b[1] => a = b

(* What a writer has to write: any order of these lines reads back as s. *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Written == SetSeq({Line("pkg", n, "") : n \in s.pk} \cup {Line("xpkg", n, "") : n \in s.xpk}
                  \cup {Line("grp", g[1], g[2]) : g \in s.grp} \cup {Line("xgrp", n, "") : n \in s.xgrp}
                  \cup (IF s.env = "" THEN {} ELSE {Line("env", s.env, "")}))
RECURSIVE AddAll(_, _)
AddAll(t, ls) == IF ls = <<>> THEN t ELSE AddAll(AddLine(t, Head(ls)), Tail(ls))
ReadsBack == AddAll(NoPackages, Written) = s
=============================================================================
