------------------------------ MODULE KsLines ------------------------------
(***************************************************************************)
(* What one command line does to the commands of a handler: accepted or    *)
(* not, the settings and entries afterwards, and what is warned about.     *)
(* S: class -> [seen, attrs, list, sure, ln], classes not in it are untouched.  *)
(* A refused line has no effect at all.  sure = FALSE: nothing is said.      *)
(***************************************************************************)
EXTENDS KsRules

Fresh(c) == [seen |-> FALSE, attrs |-> c.attrs, list |-> <<>>, sure |-> TRUE, ln |-> 0]
ObjOf(S, key) == IF key \in DOMAIN S THEN S[key] ELSE Fresh(G.classes[key])
SeenFam(S, fam) == \E key \in DOMAIN S : G.classes[key].fam = fam /\ S[key].seen

(* The transition: what a line does to the state. *)
Line(S, ver, L) ==
  IF L.cmd \notin DOMAIN G.versions[ver] THEN [res |-> "rej", why |-> "unknown command", S |-> S, depr |-> {}, anydepr |-> FALSE, dup |-> FALSE]
  ELSE
  LET key == G.versions[ver][L.cmd]
      c == G.classes[key]
      obj == ObjOf(S, key)
      seen == [obj EXCEPT !.seen = TRUE, !.ln = L.ln]
      With(o) == (key :> o) @@ S
      p == IF FreeForm(c) THEN [err |-> "", ns |-> c.dflt, extra |-> <<>>] ELSE Parse(c, L)
      isdata == c.list # ""
      base == IF isdata THEN c.data ELSE obj.attrs
      a0 == Merge(base, p.ns)
      a == Post(c, L, p.ns, a0, p.extra)
      surplus == p.extra # <<>> /\ ~TakesExtra(c)
      why == IF p.err # "" THEN p.err ELSE IF surplus THEN "surplus argument" ELSE 
             Err(c, L, p.ns, a, a0, p.extra, [x \in {G.classes[kk].fam : kk \in DOMAIN S} |-> SeenFam(S, x)], obj.list)
      deprs == {L.opts[j].n : j \in {i \in 1..Len(L.opts) : L.opts[i].n \in DOMAIN c.opt /\ c.opt[L.opts[i].n].depr}}
      e == [attrs |-> a, ln |-> L.ln]
      dup == isdata /\ \E j \in 1..Len(obj.list) : Same(c, a, obj.list[j].attrs)
  IN  IF c.kind = "removed" THEN [res |-> "rej", why |-> "removed command", S |-> S, depr |-> {}, anydepr |-> FALSE, dup |-> FALSE]
      ELSE IF c.kind = "deprecated" THEN [res |-> "ok", why |-> "", S |-> With(seen), depr |-> {}, anydepr |-> TRUE, dup |-> FALSE]
      ELSE IF why = "unspec" \/ ~(isdata \/ obj.sure) THEN
           [res |-> "unspec", why |-> why, S |-> With([seen EXCEPT !.sure = FALSE]), depr |-> {}, anydepr |-> FALSE, dup |-> FALSE]
      ELSE IF why # "" THEN [res |-> "rej", why |-> why, S |-> S, depr |-> deprs, anydepr |-> FALSE, dup |-> dup]
      ELSE [res |-> "ok", why |-> "",
            S |-> With(IF isdata THEN [seen EXCEPT !.list = Place(c, @, e)] ELSE [seen EXCEPT !.attrs = a]),
            depr |-> deprs, anydepr |-> deprs # {} \/ ExtraDepr(c, L, a, p.extra), dup |-> dup]

(* Observed settings come as differences from the defaults of the tables. *)
Full(dflt, diff) == [d \in DOMAIN dflt |-> IF d \in DOMAIN diff THEN diff[d] ELSE dflt[d]]
(* Settings whose difference has an effect. *)
EffDiff(c, x, y) == LET p == Eff(c, x)  q == Eff(c, y) IN {d \in DOMAIN p \cup DOMAIN q : d \notin DOMAIN p \/ d \notin DOMAIN q \/ p[d] # q[d]}
(* Nothing and an empty list are the same for these. *)
Loose == {"partition", "timezone"}
DiffAttrs(want, got) == {d \in DOMAIN want \ {"keyboard0"} : got[d] # want[d] /\ ~(d \in Loose /\ ~Truthy(got[d]) /\ ~Truthy(want[d]))}
=============================================================================
