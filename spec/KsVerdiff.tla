----------------------------- MODULE KsVerdiff ------------------------------
(***************************************************************************)
(* What differs between two syntax versions.  The table of versions        *)
(* (grammar.json) says which class handles a command in a version, whether *)
(* it is active, deprecated or removed, and its options.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
G == JsonDeserialize("grammar.json")

Cls(v, cmd) == G.classes[G.versions[v][cmd]]
(* a removed command is one the version does not have *)
Cmds(v) == {c \in DOMAIN G.versions[v] : Cls(v, c).kind # "removed"}
Opts(v, c) == DOMAIN Cls(v, c).opt
DeprOpts(v, c) == {o \in Opts(v, c) : Cls(v, c).opt[o].depr}

Removed(f, t)    == Cmds(f) \ Cmds(t)
Added(f, t)      == Cmds(t) \ Cmds(f)
Common(f, t)     == Cmds(f) \cap Cmds(t)
Deprecated(f, t) == {c \in Common(f, t) : Cls(t, c).kind = "deprecated"}
OptsOf(kind, f, t, c) == CASE kind = "added" -> Opts(t, c) \ Opts(f, c)
                           [] kind = "removed" -> Opts(f, c) \ Opts(t, c)
                           [] kind = "deprecated" -> DeprOpts(t, c)
(* what must be said about options: [c, kind] -> the options, nothing being said where there are none *)
(* (commands that are no longer used have no options to compare; those of method are those of others)   *)
Comparable(f, t) == {c \in Common(f, t) : Cls(f, c).kind = "active" /\ Cls(t, c).kind = "active" /\ Cls(t, c).fam # "Method"}
OptNews(f, t) == {x \in Comparable(f, t) \X {"added", "removed", "deprecated"} : OptsOf(x[2], f, t, x[1]) # {}}

(* Orders *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE Code(_, _)
Code(ch, j) == IF j > Len(Ascii) THEN 0 ELSE IF SubSeq(Ascii, j, j) = ch THEN j ELSE Code(ch, j + 1)
RECURSIVE Before(_, _)
Before(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                ELSE IF SubSeq(a, 1, 1) = SubSeq(b, 1, 1) THEN Before(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
                ELSE Code(SubSeq(a, 1, 1), 1) < Code(SubSeq(b, 1, 1), 1)
Listing(seq, set) == /\ {seq[j] : j \in 1..Len(seq)} = set
                     /\ Len(seq) = Cardinality(set)                  \* each once
                     /\ \A j \in 1..(Len(seq) - 1) : Before(seq[j], seq[j + 1])
=============================================================================
