--------------------------- MODULE MC_KsHandler -----------------------------
(* All short histories of dispatch, reset and mask on a handler with        *)
(* aliases, against what the history says.                                  *)
EXTENDS KsHandler
CONSTANT MaxOps
Map == [a |-> "A", a2 |-> "A", b |-> "B"]
Names == {"a", "a2", "b", "nosuch"}
VARIABLES h, hist
Init == h = NewHandler(Map) /\ hist = <<>>
Do(e, nh) == h' = nh /\ hist' = Append(hist, e)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E n \in Names, r \in {"ok", "bad"} : Do([op |-> "d", n |-> n, r |-> r], Dispatch(h, n, Len(hist), r).h)
           \/ \E n \in Names : (n \in DOMAIN h.reg => h.reg[n] # 0) /\ Do([op |-> "r", n |-> n, r |-> ""], Reset(h, n).h)
           \/ \E k \in {{"a"}, {"b"}, {"a", "a2"}} : Do([op |-> "m", n |-> k, r |-> ""], Mask(h, k))
Spec == Init /\ [][Next]_<<h, hist>>

MaskedAt(n, j) == \E i \in 1..(j-1) : hist[i].op = "m" /\ n \notin hist[i].n
Uses(c) == {j \in 1..Len(hist) : hist[j].op = "d" /\ hist[j].r = "ok" /\ hist[j].n \in DOMAIN Map /\ Map[hist[j].n] = c /\ ~MaskedAt(hist[j].n, j)}
Resets(c) == {j \in 1..Len(hist) : hist[j].op = "r" /\ hist[j].n \in DOMAIN Map /\ Map[hist[j].n] = c}
(* aliases never disagree, except that a mask may hide one of them *)
Aliases == \A n, m \in DOMAIN h.reg : (Map[n] = Map[m] /\ h.reg[n] # 0 /\ h.reg[m] # 0) => h.reg[n] = h.reg[m]
SeenIffUsed == \A n \in DOMAIN h.reg : h.reg[n] # 0 =>
   (h.objs[h.reg[n]].seen <=> \E j \in Uses(Map[n]) : \A i \in Resets(Map[n]) : i < j)
OthersUntouched == \A n, m \in DOMAIN h.reg : Map[n] # Map[m] /\ h.reg[n] # 0 => h.reg[n] # h.reg[m]
=============================================================================
