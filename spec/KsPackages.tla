----------------------------- MODULE KsPackages -----------------------------
(***************************************************************************)
(* The package selection of %packages as a state machine: one step per     *)
(* line.  A line is a record                                                *)
(*   k   "pkg" | "xpkg" | "grp" | "xgrp" | "env" | "xenv" | "none" | "bad"  *)
(*       (x...: with a leading minus; "none": blank or comment; "bad":      *)
(*       names nothing or contradicts itself)                               *)
(*   n   the name                                                           *)
(*   lv  for a group: "default" | "required" | "all"                        *)
(* The state keeps what is selected and what is excluded.  The same is      *)
(* stated over the history of lines below (Wanted...); MC_KsPackages        *)
(* checks that the two agree.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

NoPackages == [pk |-> {}, xpk |-> {}, grp |-> {}, xgrp |-> {}, env |-> ""]

Names(groups) == {g[1] : g \in groups}

AddLine(s, L) ==
  CASE L.k = "pkg"  -> [s EXCEPT !.pk = @ \cup {L.n}, !.xpk = @ \ {L.n}]
    [] L.k = "xpkg" -> [s EXCEPT !.pk = @ \ {L.n}, !.xpk = @ \cup {L.n}]
    [] L.k = "grp"  -> [s EXCEPT !.grp = IF L.n \in Names(@) THEN @ ELSE @ \cup {<<L.n, L.lv>>},
                                 !.xgrp = @ \ {L.n}]
    [] L.k = "xgrp" -> [s EXCEPT !.grp = {g \in @ : g[1] # L.n}, !.xgrp = @ \cup {L.n}]
    [] L.k = "env"  -> [s EXCEPT !.env = L.n]
    [] L.k = "xenv" -> [s EXCEPT !.env = IF @ = L.n THEN "" ELSE @]
    [] OTHER        -> s

(***************************************************************************)
(* The same, said over the whole history h of accepted lines.               *)
(***************************************************************************)
Mentions(h, pos, neg, n) == {j \in 1..Len(h) : h[j].k \in {pos, neg} /\ h[j].n = n}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
LastIs(h, pos, neg, which, n) ==
  LET m == Mentions(h, pos, neg, n) IN m # {} /\ h[MaxOf(m)].k = which

NamesIn(h, ks) == {h[j].n : j \in {i \in 1..Len(h) : h[i].k \in ks}}

WantedPk(h)   == {n \in NamesIn(h, {"pkg", "xpkg"}) : LastIs(h, "pkg", "xpkg", "pkg", n)}
WantedXpk(h)  == {n \in NamesIn(h, {"pkg", "xpkg"}) : LastIs(h, "pkg", "xpkg", "xpkg", n)}
(* level: of the first positive mention after the last exclusion *)
LevelOf(h, n) ==
  LET x == {j \in 1..Len(h) : h[j].k = "xgrp" /\ h[j].n = n}
      from == IF x = {} THEN 0 ELSE MaxOf(x)
  IN  h[MinOf({j \in 1..Len(h) : j > from /\ h[j].k = "grp" /\ h[j].n = n})].lv
WantedGrp(h)  == {<<n, LevelOf(h, n)>> : n \in {m \in NamesIn(h, {"grp", "xgrp"}) : LastIs(h, "grp", "xgrp", "grp", m)}}
WantedXgrp(h) == {n \in NamesIn(h, {"grp", "xgrp"}) : LastIs(h, "grp", "xgrp", "xgrp", n)}
WantedEnv(h)  ==
  LET e == {j \in 1..Len(h) : h[j].k = "env"}
      last == MaxOf(e)
  IN  IF e = {} THEN ""
      ELSE IF \E j \in (last + 1)..Len(h) : h[j].k = "xenv" /\ h[j].n = h[last].n THEN "" ELSE h[last].n

Wanted(h) == [pk |-> WantedPk(h), xpk |-> WantedXpk(h), grp |-> WantedGrp(h), xgrp |-> WantedXgrp(h), env |-> WantedEnv(h)]
=============================================================================
