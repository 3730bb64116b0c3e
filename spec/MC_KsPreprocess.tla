-------------------------- MODULE MC_KsPreprocess ---------------------------
(* All short documents: a pass over them line by line, compared with what   *)
(* can be said of the whole.                                                *)
EXTENDS KsPreprocess
CONSTANT MaxLines
U(t) == [u8 |-> t, as |-> t, l1 |-> t]
F(us) == [k |-> "file", units |-> us]
World == [p |-> F(<<U("one\n")>>), q |-> F(<<U("two"), U("three")>>), e |-> F(<<>>), n |-> F(<<U("%ksappend p\n")>>), b |-> F(<<[u8 |-> "BAD", as |-> "BAD", l1 |-> "x"]>>)]
Refs == [w \in {"p", "q", "e", "n", "b", "nosuch"} |-> [url |-> FALSE, name |-> w]]
Kinds == {"x\n", "x", "# %ksappend p\n", "%ksappend p\n", "%ksappend q\n", "%ksappend q", "  %ksappend\te \n", "%ksappend n\n", "%ksappend\n", "%ksappend b\n", "%ksappend nosuch\n", "%ksappendq p\n"}
VARIABLES doc, out
Init == doc = <<>> /\ out = [s |-> "ok", t |-> "", ln |-> 0]
Next == /\ Len(doc) < MaxLines
        /\ (doc # <<>> => EndsNl(doc[Len(doc)]))           \* only the last line may lack a newline
        /\ \E l \in Kinds : doc' = Append(doc, l) /\ out' = Preprocess(World, Refs, doc')
Spec == Init /\ [][Next]_<<doc, out>>
Pre(d) == Preprocess(World, Refs, d)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
OrdinaryUnchanged == (\A j \in 1..Len(doc) : ~IsAppend(doc[j])) => out.s = "ok" /\ out.t = Cat(doc)
Concatenates == \A k \in 0..Len(doc) : LET a == Pre(SubSeq(doc, 1, k)) b == Pre(SubSeq(doc, k + 1, Len(doc))) IN
                  IF out.s = "ok" THEN a.s = "ok" /\ b.s = "ok" /\ out.t = a.t \o b.t
                  ELSE IF a.s = "ok" THEN b.s = "err" /\ out.ln = b.ln + k ELSE out.ln = a.ln
ErrorMeansNoText == out.s = "err" <=> \E j \in 1..Len(doc) : StepLine(World, Refs, doc[j]).s = "err"
FirstBadLine == out.s = "err" => /\ StepLine(World, Refs, doc[out.ln]).s = "err"
                                 /\ \A j \in 1..(out.ln - 1) : StepLine(World, Refs, doc[j]).s = "ok"
NotAgain == out.s = "ok" /\ doc # <<>> /\ doc[Len(doc)] = "%ksappend n\n" => SubSeq(out.t, Len(out.t) - 11, Len(out.t)) = "%ksappend p\n"
(* a line stays a line *)
LinesKept == out.s = "ok" /\ doc # <<>> /\ EndsNl(doc[Len(doc)]) /\ out.t # "" => EndsNl(out.t)
=============================================================================
