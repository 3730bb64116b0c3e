----------------------------- MODULE KsHeaders ------------------------------
(***************************************************************************)
(* Section headers: which options each section has in each syntax version, *)
(* what they set, which combinations are refused and which uses are         *)
(* reported as deprecated.                                                  *)
(*                                                                          *)
(* A header is [tag, opts, stray]; stray: there is a word that is no        *)
(* option.  An option as typed is [o, hv, v, isi]: its name, whether a      *)
(* value goes with it, the value, whether that is an integer.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Releases == <<"RHEL3", "FC3", "RHEL4", "FC4", "FC5", "FC6", "RHEL5", "F7", "F8", "F9", "F10", "F11", "F12", "F13", "RHEL6",
              "F14", "F15", "F16", "F17", "F18", "F19", "F20", "F21", "RHEL7", "F22", "F23", "F24", "F25", "F26", "F27", "F28",
              "RHEL8", "F29", "F30", "F31", "F32", "F33", "F34">>
RelOf(v) == IF v = "DEVEL" THEN Len(Releases) ELSE CHOOSE j \in 1..Len(Releases) : Releases[j] = v
AtLeast(v, r) == RelOf(v) >= RelOf(r)
Between(v, r, before) == AtLeast(v, r) /\ ~AtLeast(v, before)

Scripts == {"%pre", "%pre-install", "%post", "%onerror", "%traceback"}

(* rows: spelling, what it sets, kind, deprecated *)
Row(o, d, k, dep) == [o |-> o, d |-> d, k |-> k, dep |-> dep]
When(c, rows) == IF c THEN rows ELSE {}

ScriptOptions(v, tag) ==
  {Row("--erroronfail", "err", "flag", FALSE), Row("--interpreter", "interp", "str", FALSE),
   Row("--log", "log", "str", FALSE), Row("--logfile", "log", "str", FALSE)}
  \cup When(tag = "%post", {Row("--nochroot", "nochroot", "flag", FALSE)})

PackagesOptions(v) ==
  {Row("--excludedocs", "excludedocs", "flag", FALSE), Row("--ignoremissing", "ignoremissing", "flag", FALSE)}
  \cup When(~AtLeast(v, "F9"), {Row("--ignoredeps", "none", "flag", TRUE), Row("--resolvedeps", "none", "flag", TRUE)})
  \cup When(AtLeast(v, "F7"), {Row("--default", "default", "flag", FALSE)})
  \cup When(AtLeast(v, "F9"), {Row("--inst-langs", "langs", "str", FALSE), Row("--instLangs", "langs", "str", AtLeast(v, "F32"))})
  \cup When(Between(v, "RHEL6", "F22"), {Row("--nobase", "nobase", "flag", AtLeast(v, "F18"))})
  \cup When(AtLeast(v, "F18"), {Row("--multilib", "multilib", "flag", FALSE)})
  \cup When(AtLeast(v, "F21"), {Row("--nocore", "nocore", "flag", FALSE)})
  \cup When(AtLeast(v, "RHEL7"), {Row("--timeout", "timeout", "int", FALSE), Row("--retries", "retries", "int", FALSE)})
  \cup When(AtLeast(v, "F24"), {Row("--exclude-weakdeps", "weakdeps", "flag", FALSE),
                                Row("--excludeWeakdeps", "weakdeps", "flag", AtLeast(v, "F32"))})
  \cup When(AtLeast(v, "F32"), {Row("--ignorebroken", "ignorebroken", "flag", FALSE)})

Options(v, tag) == IF tag = "%packages" THEN PackagesOptions(v) ELSE ScriptOptions(v, tag)

Known(v, tag, o) == \E r \in Options(v, tag) : r.o = o
RowOf(v, tag, o) == CHOOSE r \in Options(v, tag) : r.o = o

OptionFits(v, tag, x) ==
  /\ Known(v, tag, x.o)
  /\ LET r == RowOf(v, tag, x.o)
     IN CASE r.k = "flag" -> ~x.hv
          [] r.k = "str"  -> x.hv
          [] OTHER        -> x.hv /\ x.isi

Given(v, tag, opts, dest) == {j \in 1..Len(opts) : Known(v, tag, opts[j].o) /\ RowOf(v, tag, opts[j].o).d = dest}
Flag(v, h, dest) == Given(v, h.tag, h.opts, dest) # {}
(* of an option given more than once the last value counts *)
ValueOr(v, h, dest, def) ==
  LET g == Given(v, h.tag, h.opts, dest)
  IN  IF g = {} THEN def ELSE h.opts[CHOOSE j \in g : \A i \in g : i <= j].v

(* default: an earlier header asked for the default selection *)
Accepted(v, h, default) ==
  /\ ~h.stray
  /\ \A j \in 1..Len(h.opts) : OptionFits(v, h.tag, h.opts[j])
  /\ ~(h.tag = "%packages" /\ (default \/ Flag(v, h, "default")) /\ (Flag(v, h, "nobase") \/ Flag(v, h, "nocore")))

Deprecated(v, h) ==
  \/ h.tag = "%traceback" /\ AtLeast(v, "F34")
  \/ \E j \in 1..Len(h.opts) : RowOf(v, h.tag, h.opts[j].o).dep

ScriptFrom(v, h) ==
  [type |-> h.tag, interp |-> ValueOr(v, h, "interp", "/bin/sh"),
   log |-> ValueOr(v, h, "log", "-"),            \* "-": none
   err |-> Flag(v, h, "err"), chroot |-> h.tag = "%post" /\ ~Flag(v, h, "nochroot")]

DefaultPackages ==
  [seen |-> FALSE, docs |-> TRUE, missing |-> "prompt", default |-> FALSE, langs |-> "-", base |-> TRUE, multilib |-> FALSE,
   core |-> TRUE, timeout |-> "-", retries |-> "-", weakdeps |-> TRUE, broken |-> "report"]

(* The last header decides, except that the default selection and the        *)
(* languages stay in force once they have been asked for.                    *)
PackagesFrom(v, p, h) ==
  [seen |-> TRUE, docs |-> ~Flag(v, h, "excludedocs"),
   missing |-> IF Flag(v, h, "ignoremissing") THEN "ignore" ELSE "prompt",
   default |-> p.default \/ Flag(v, h, "default"), langs |-> ValueOr(v, h, "langs", p.langs),
   base |-> ~Flag(v, h, "nobase"), multilib |-> Flag(v, h, "multilib"), core |-> ~Flag(v, h, "nocore"),
   timeout |-> ValueOr(v, h, "timeout", "-"), retries |-> ValueOr(v, h, "retries", "-"),
   weakdeps |-> ~Flag(v, h, "weakdeps"), broken |-> IF Flag(v, h, "ignorebroken") THEN "ignore" ELSE "report"]
=============================================================================
