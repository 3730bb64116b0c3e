----------------------------- MODULE KsWritten ------------------------------
(***************************************************************************)
(* What a written file holds, against the document state it was written    *)
(* from.                                                                    *)
(***************************************************************************)
EXTENDS KsDocument

RECURSIVE RStrip(_)
RStrip(t) == IF t # "" /\ SubSeq(t, Len(t), Len(t)) \in {" ", "\n", "\t"} THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Norm(t, new) == IF ~new THEN RStrip(t) ELSE IF t = "" \/ SubSeq(t, Len(t), Len(t)) = "\n" THEN t ELSE t \o "\n"
NormAll(xs, new) == [j \in 1..Len(xs) |-> [xs[j] EXCEPT !.body = Norm(@, new)]]
WrittenScript(x) == [type |-> x.type, body |-> x.body, interp |-> x.interp, log |-> x.log, err |-> x.err, chroot |-> x.chroot]

Back(o, key) == LET js == {j \in 1..Len(o.set) : o.set[j].key = key} IN
  IF js = {} THEN [key |-> key, a |-> <<>>, l |-> <<>>] ELSE o.set[CHOOSE j \in js : TRUE]
FullOr(dflt, diff) == IF diff = <<>> THEN dflt ELSE Full(dflt, diff)
KeyClause(D, o, key) ==
  LET c == G.classes[key]  b == Back(o, key)  x == ObjOf(D.S, key) IN
  CASE c.kind # "active" \/ c.fam = "Method" \/ ~x.sure -> "ok"
    [] Len(b.l) # Len(x.list) -> key \o ": expected " \o ToString(Len(x.list)) \o " entries"
    [] \E j \in 1..Len(b.l) : EffDiff(c, x.list[j].attrs, FullOr(c.data, b.l[j])) # {} ->
         LET j == CHOOSE i \in 1..Len(b.l) : EffDiff(c, x.list[i].attrs, FullOr(c.data, b.l[i])) # {}
         IN key \o " entry " \o ToString(j) \o ": " \o ToString(EffDiff(c, x.list[j].attrs, FullOr(c.data, b.l[j])))
    [] EffDiff(c, x.attrs, FullOr(c.attrs, b.a)) # {} -> key \o ": " \o ToString(EffDiff(c, x.attrs, FullOr(c.attrs, b.a)))
    [] OTHER -> "ok"
Keys(D, o) == DOMAIN D.S \cup {o.set[j].key : j \in 1..Len(o.set)}
TextClause(D, new, o) ==       \* o: a written file, read independently
  CASE o.fail # "" -> "the file is not readable: " \o o.fail
    [] o.inc -> "an include line is left"
    [] o.sfail # "" -> "the file cannot be read: " \o o.sfail
    [] \E key \in Keys(D, o) : KeyClause(D, o, key) # "ok" -> KeyClause(D, o, CHOOSE key \in Keys(D, o) : KeyClause(D, o, key) # "ok")
    [] NormAll(o.scripts, new) # NormAll([j \in 1..Len(D.d.scripts) |-> WrittenScript(D.d.scripts[j])], new) -> "scripts: expected " \o ToString(D.d.scripts)
    [] NormAll(o.nulls, new) # NormAll(D.d.nulls, new) -> "pass-through sections: expected " \o ToString(D.d.nulls)
    [] Range(o.pkgs) # D.d.pkgs -> "packages: expected " \o ToString(D.d.pkgs)
    [] o.platform # D.d.platform -> "platform: expected " \o D.d.platform
    [] OTHER -> "ok"
=============================================================================
