----------------------------- MODULE KsHandler ------------------------------
(***************************************************************************)
(* A handler: a registry of names, each bound to the one object of its      *)
(* class or masked (0).  Objects are created with the handler and by reset; *)
(* an object remembers whether a line used it and which lines it accepted.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

NewObj(cls) == [cls |-> cls, seen |-> FALSE, used |-> <<>>]

(* map: name -> class.  One object per class, whatever the number of names. *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
NewHandler(map) ==
  LET classes == SeqOf({map[n] : n \in DOMAIN map})
      at(c) == CHOOSE j \in 1..Len(classes) : classes[j] = c
  IN  [reg |-> [n \in DOMAIN map |-> at(map[n])], objs |-> [j \in 1..Len(classes) |-> NewObj(classes[j])],
       attr |-> [c \in {map[n] : n \in DOMAIN map} |-> at(c)], masked |-> FALSE]

(* r: "ok" the command accepts these words, "bad" it refuses them. *)
Dispatch(h, name, words, r) ==
  IF name \notin DOMAIN h.reg THEN [h |-> h, exc |-> "parse"]
  ELSE LET o == h.reg[name] IN
    IF o = 0 THEN [h |-> h, exc |-> "none"]
    ELSE IF r = "ok" THEN [h |-> [h EXCEPT !.objs[o].seen = TRUE, !.objs[o].used = Append(@, words)], exc |-> "none"]
    ELSE [h |-> h, exc |-> "parse"]                        \* a refused line has no effect

(* A new object takes the place of the old one under all its names. *)
Reset(h, name) ==
  IF name \notin DOMAIN h.reg THEN [h |-> h, exc |-> "key"]
  ELSE LET o == h.reg[name]
           c == h.objs[o].cls
           n == Len(h.objs) + 1
       IN [h |-> [h EXCEPT !.objs = Append(@, NewObj(c)), !.attr[c] = n,
                           !.reg = [m \in DOMAIN @ |-> IF @[m] = o THEN n ELSE @[m]]], exc |-> "none"]

Mask(h, keep) == [h EXCEPT !.reg = [m \in DOMAIN @ |-> IF m \in keep THEN @[m] ELSE 0], !.masked = TRUE]
=============================================================================
