----------------------------- MODULE KsCommands -----------------------------
(***************************************************************************)
(* Kickstart commands: which lines each syntax version accepts, what they  *)
(* set, what they do to the lists of repeated commands, what is reported,  *)
(* and which settings a written file has to carry.                         *)
(*                                                                          *)
(* The tables (which command, option, attribute, default exists in which   *)
(* version) are data, grammar.json.  The meaning of an option line is      *)
(* generic (Parse); everything particular to a command family is a rule    *)
(* in KsRules.                                                              *)
(*                                                                          *)
(* Values are [k |-> kind, v |-> <<strings>>] with kind "n" (nothing), "s" *)
(* (string), "i" (integer), "b" (boolean: T/F), "l" (list of strings).     *)
(* A value as typed is a row of the value table: t text, isi/i integer, bo  *)
(* boolean ("T", "F", "" if it is none), l the comma separated parts, m the *)
(* normal form of a path, and facts used by particular rules.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

G == JsonDeserialize("grammar.json")
Vals == ndJsonDeserialize("values.ndjson")

Nil == [k |-> "n", v |-> <<>>]
Str(t) == [k |-> "s", v |-> <<t>>]
IntV(t) == [k |-> "i", v |-> <<t>>]
BoolV(b) == [k |-> "b", v |-> <<IF b THEN "T" ELSE "F">>]
ListV(ts) == [k |-> "l", v |-> ts]

Truthy(x) ==
  CASE x.k = "n" -> FALSE
    [] x.k = "s" -> x.v[1] # ""
    [] x.k = "i" -> x.v[1] # "0"
    [] x.k = "b" -> x.v[1] = "T"
    [] x.k = "l" -> x.v # <<>>
    [] OTHER -> TRUE

Range(sq) == {sq[j] : j \in 1..Len(sq)}
Class(ver, cmd) == G.classes[G.versions[ver][cmd]]
Is(c, cls) == cls \in Range(c.mro)          \* the rules of that release apply

RECURSIVE LowerS(_), UpperS(_)
LC == "abcdefghijklmnopqrstuvwxyz"
UC == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
RECURSIVE IndexOf(_, _, _)
IndexOf(ch, s, j) == IF j > Len(s) THEN 0 ELSE IF SubSeq(s, j, j) = ch THEN j ELSE IndexOf(ch, s, j + 1)
LowerS(s) == IF s = "" THEN "" ELSE
  LET ch == SubSeq(s, 1, 1)  i == IndexOf(ch, UC, 1)
  IN (IF i = 0 THEN ch ELSE SubSeq(LC, i, i)) \o LowerS(SubSeq(s, 2, Len(s)))
UpperS(s) == IF s = "" THEN "" ELSE
  LET ch == SubSeq(s, 1, 1)  i == IndexOf(ch, LC, 1)
  IN (IF i = 0 THEN ch ELSE SubSeq(UC, i, i)) \o UpperS(SubSeq(s, 2, Len(s)))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, ch) == IndexOf(ch, s, 1) # 0
RECURSIVE SplitOn(_, _)
SplitOn(s, ch) == LET i == IndexOf(ch, s, 1)
                  IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitOn(SubSeq(s, i + 1, Len(s)), ch)
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)
LastOf(sq) == sq[Len(sq)]

RaidLevels(c) ==
  {"0", "1", "5", "6"} \cup (IF Is(c, "RHEL5_Raid") \/ Is(c, "F7_Raid") THEN {"10"} ELSE {})
                       \cup (IF Is(c, "F13_Raid") THEN {"4"} ELSE {})
BtrfsLevels == {"raid0", "raid1", "raid10", "single"}
(* Releases whose command warns about anything behind it instead of rejecting it. *)
IgnoresRest(c) == c.fam = "ZeroMbr" /\ ~Is(c, "F9_ZeroMbr")

(* Conversion of a typed value: [ok, val]. *)
Good(x) == [ok |-> TRUE, val |-> x]
BadV == [ok |-> FALSE, val |-> Nil]
AutoType(c, u) == CASE u \in {"plain", "partition"} -> "0" [] u = "btrfs" -> "1" [] u = "lvm" -> "2"
                    [] u = "thinp" /\ Is(c, "F20_AutoPart") -> "3" [] OTHER -> ""
Conv(c, type, x) ==
  CASE type = "str" -> Good(Str(x.t))
    [] type = "int" -> IF x.isi THEN Good(IntV(x.i)) ELSE BadV
    [] type = "ksboolean" -> IF x.bo = "" THEN BadV ELSE Good([k |-> "b", v |-> <<x.bo>>])
    [] type = "commaSplit" -> Good(ListV(x.l))
    [] type = "mountpoint" -> Good(Str(x.m))
    [] type = "part_cb" -> Good(Str(IF StartsWith(x.t, "/dev/") THEN SubSeq(x.t, 6, Len(x.t)) ELSE x.t))
    [] type = "device_cb" -> Good(Str(IF StartsWith(x.t, "md") THEN SubSeq(x.t, 3, Len(x.t)) ELSE x.t))
    [] type = "level_cb" /\ c.fam = "Raid" ->
         LET u == UpperS(x.t)
             n == IF StartsWith(u, "RAID") THEN SubSeq(u, 5, Len(u)) ELSE u
         IN IF n \in RaidLevels(c) THEN Good(Str("RAID" \o n)) ELSE BadV
    [] type = "level_cb" -> LET u == LowerS(x.t)
                                n == IF u \in {"0", "1", "10"} THEN "raid" \o u ELSE u
                            IN IF n \in BtrfsLevels THEN Good(Str(n)) ELSE BadV
    [] type = "type_cb" -> LET u == AutoType(c, LowerS(x.t)) IN IF u # "" THEN Good(IntV(u)) ELSE BadV
    [] type = "teamslaves_cb" -> Good(ListV(x.team))
    [] type = "firewall_port_cb" -> Good(ListV(x.ports))
    [] type = "when_cb" -> LET u == LowerS(x.t) IN
                           IF u = "post-install" THEN Good(IntV("0")) ELSE IF u = "pre-install" THEN Good(IntV("1")) ELSE BadV
    [] OTHER -> Good(ListV(x.l))

(***************************************************************************)
(* The generic meaning of an option line.                                   *)
(***************************************************************************)
RECURSIVE FoldOpts(_, _, _)
FoldOpts(c, ops, acc) ==        \* acc: [err, ns]
  IF ops = <<>> \/ acc.err # "" THEN acc
  ELSE LET u == Head(ops)
           known == u.n \in DOMAIN c.opt
       IN IF ~known /\ IgnoresRest(c) THEN FoldOpts(c, Tail(ops), acc)
          ELSE IF ~known THEN [acc EXCEPT !.err = "unknown option " \o u.n]
          ELSE LET o == c.opt[u.n]
                   takes == o.act \in {"store", "append", "extend"}
                   cv == IF takes /\ u.v # 0 THEN Conv(c, o.type, Vals[u.v]) ELSE Good(Nil)
                   cur == acc.ns[o.dest]
                   ns1(x) == [acc EXCEPT !.ns = [@ EXCEPT ![o.dest] = x]]
               IN IF takes /\ u.v = 0 /\ o.nargs # "?" THEN [acc EXCEPT !.err = "missing value"]
                  ELSE IF ~takes /\ u.v # 0 THEN [acc EXCEPT !.err = "surplus value"]
                  ELSE IF ~cv.ok THEN [acc EXCEPT !.err = "bad value"]
                  ELSE IF o.ch # <<>> /\ takes /\ cv.val.v[1] \notin Range(o.ch) THEN [acc EXCEPT !.err = "not a choice"]
                  ELSE FoldOpts(c, Tail(ops),
                         CASE o.act = "store" -> ns1(IF u.v = 0 THEN o.cst ELSE cv.val)
                           [] o.act = "true" -> ns1(BoolV(TRUE))
                           [] o.act = "false" -> ns1(BoolV(FALSE))
                           [] o.act = "const" -> ns1(o.cst)
                           [] o.act \in {"append", "append_const"} ->
                                ns1(ListV((IF cur.k = "n" THEN <<>> ELSE cur.v) \o (IF o.act = "append" THEN cv.val.v ELSE o.cst.v)))
                           [] o.act = "extend_const" -> ns1(ListV((IF cur.k = "n" THEN <<>> ELSE cur.v) \o o.cst.v))
                           [] OTHER -> ns1(ListV((IF cur.k = "n" THEN <<>> ELSE cur.v) \o cv.val.v)))

MinArgs(p) == IF p.nargs \in {"1", ""} THEN 1 ELSE 0
RECURSIVE SumMin(_)
SumMin(ps) == IF ps = <<>> THEN 0 ELSE MinArgs(Head(ps)) + SumMin(Tail(ps))

RECURSIVE FoldPos(_, _, _, _)
FoldPos(c, ps, ws, acc) ==      \* declared positionals, words
  IF acc.err # "" THEN acc
  ELSE IF ps = <<>> THEN [acc EXCEPT !.extra = ws]
  ELSE LET p == Head(ps)
           after == SumMin(Tail(ps))
           n == IF p.nargs \in {"1", ""} THEN (IF Len(ws) >= 1 THEN 1 ELSE 0)
                ELSE IF p.nargs = "?" THEN (IF Len(ws) > after THEN 1 ELSE 0)
                ELSE IF Len(ws) > after THEN Len(ws) - after ELSE 0
           cvs == [j \in 1..n |-> Conv(c, p.type, Vals[ws[j]])]
           bad == \E j \in 1..n : ~cvs[j].ok
       IN IF p.nargs \in {"1", ""} /\ n = 0 THEN [acc EXCEPT !.err = "missing argument"]
          ELSE IF bad THEN [acc EXCEPT !.err = "bad argument"]
          ELSE IF p.ch # <<>> /\ \E j \in 1..n : cvs[j].val.v[1] \notin Range(p.ch) THEN [acc EXCEPT !.err = "not a choice"]
          ELSE FoldPos(c, Tail(ps), SubSeq(ws, n + 1, Len(ws)),
                 [acc EXCEPT !.ns = [@ EXCEPT ![p.dest] =
                    IF p.nargs \in {"", "?"} THEN (IF n = 0 THEN acc.ns[p.dest] ELSE cvs[1].val)
                    ELSE ListV([j \in 1..n |-> cvs[j].val.v[1]])]])

Parse(c, L) ==
  LET a == FoldOpts(c, L.opts, [err |-> "", ns |-> c.dflt, extra |-> <<>>])
      b == FoldPos(c, c.pos, L.pos, a)
      used == {L.opts[j].n : j \in 1..Len(L.opts)}
      miss == \E j \in 1..Len(c.req) : Range(c.req[j]) \cap used = {}
  IN  [b EXCEPT !.err = IF b.err # "" THEN b.err ELSE IF miss THEN "required option missing" ELSE ""]

Merge(attrs, ns) == [d \in DOMAIN attrs |-> IF d \in DOMAIN ns /\ ns[d].k # "n" THEN ns[d] ELSE attrs[d]]
Put(a, d, x) == IF d \in DOMAIN a THEN [a EXCEPT ![d] = x] ELSE a
Has(a, d) == d \in DOMAIN a
On(a, d) == d \in DOMAIN a /\ Truthy(a[d])
=============================================================================
