------------------------------ MODULE MC_KsLoad ------------------------------
(* A transfer, piece by piece, into a file of limited room: whatever the    *)
(* server does, a call that succeeds delivered everything, a failed reading *)
(* left the destination alone, and the outcome is the one KsLoad states.    *)
EXTENDS KsLoad
CONSTANT MaxLen
A == [u8 |-> "a", as |-> "a", l1 |-> "a"]
E == [u8 |-> "E", as |-> "BAD", l1 |-> "c3a4"]
X == [u8 |-> "BAD", as |-> "BAD", l1 |-> "ff"]
Bodies == UNION {[1..n -> {A, E, X}] : n \in 0..MaxLen}
Sources == {[k |-> "http", units |-> b, status |-> s, to |-> "", cut |-> c, framing |-> f, cs |-> cs, enc |-> "none"] :
              b \in Bodies, s \in {0, 200, 404}, c \in 0..MaxLen, f \in {"length", "chunked", "close"}, cs \in {"none", "latin-1", "ascii", "unknown"}}
VARIABLES src, room, pc, got, text, dest, res
vars == <<src, room, pc, got, text, dest, res>>
World == "u" :> src
Init == /\ src \in {s \in Sources : s.cut <= Len(s.units)} /\ room \in {0, 1, MaxLen}
        /\ pc = "connect" /\ got = <<>> /\ text = <<>> /\ dest = <<"old">> /\ res = "run"
Fail == res' = "err" /\ pc' = "end"
Connect == pc = "connect" /\ (IF src.status = 200 THEN pc' = "body" /\ UNCHANGED res ELSE Fail) /\ UNCHANGED <<src, room, got, text, dest>>
Receive == /\ pc = "body" /\ Len(got) < Len(src.units) - src.cut
           /\ got' = Append(got, src.units[Len(got) + 1]) /\ UNCHANGED <<src, room, pc, text, dest, res>>
(* the end of the stream: only what was announced can be missed *)
Eof == /\ pc = "body" /\ Len(got) = Len(src.units) - src.cut
       /\ IF (Announced(src) /\ src.cut > 0) \/ \E j \in 1..Len(got) : UnitText(got[j], src.cs) = "BAD"
          THEN Fail /\ UNCHANGED <<text, dest>>
          ELSE pc' = "write" /\ text' = [j \in 1..Len(got) |-> UnitText(got[j], src.cs)] /\ dest' = <<>> /\ UNCHANGED res
       /\ UNCHANGED <<src, room, got>>
Write == /\ pc = "write"
         /\ IF Len(dest) = Len(text) THEN pc' = "end" /\ res' = "ok" /\ UNCHANGED dest
            ELSE IF Len(dest) >= room THEN Fail /\ UNCHANGED dest
            ELSE dest' = Append(dest, text[Len(dest) + 1]) /\ UNCHANGED <<pc, res>>
         /\ UNCHANGED <<src, room, got, text>>
Next == Connect \/ Receive \/ Eof \/ Write \/ (pc = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Want == Load(World, [url |-> TRUE, name |-> "u"])
CompleteOrError == (pc = "end" /\ res = "ok" /\ Want.s # "open") => Want.s = "ok" /\ Cat(dest) = Want.t
NothingLost == (pc = "end" /\ res = "ok" /\ Announced(src)) => Len(got) = Len(src.units)
ReadFailureKeepsDest == (pc = "end" /\ Want.s = "err") => res = "err" /\ dest = <<"old">>
ErrorOnlyWithCause == (pc = "end" /\ res = "err" /\ Want.s = "ok") => Len(text) > room
Ends == <>(pc = "end")
=============================================================================
