----------------------------- MODULE KsVersions -----------------------------
(***************************************************************************)
(* Names of syntax versions: which text names which release.  A version is *)
(* a release name; constants are observed and must be one per release, in  *)
(* release order, the development version being the last one.              *)
(***************************************************************************)
EXTENDS KsHeaders, TLC

LastRel == Releases[Len(Releases)]
NamesOf == {Releases[j] : j \in 1..Len(Releases)} \cup {"DEVEL"}
Canon(v) == IF v = "DEVEL" THEN LastRel ELSE v

UCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LCase == "abcdefghijklmnopqrstuvwxyz"
Ch(s, j) == SubSeq(s, j, j)
RECURSIVE Find(_, _, _)
Find(ch, s, j) == IF j > Len(s) THEN 0 ELSE IF Ch(s, j) = ch THEN j ELSE Find(ch, s, j + 1)
RECURSIVE Up(_)
Up(s) == IF s = "" THEN "" ELSE LET i == Find(Ch(s, 1), LCase, 1) IN (IF i = 0 THEN Ch(s, 1) ELSE Ch(UCase, i)) \o Up(SubSeq(s, 2, Len(s)))
Digits == "0123456789"
IsDigits(s) == s # "" /\ \A j \in 1..Len(s) : Find(Ch(s, j), Digits, 1) # 0
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
LastBlank(s) == IF \E j \in 1..Len(s) : Ch(s, j) = " "
                THEN CHOOSE j \in 1..Len(s) : Ch(s, j) = " " /\ \A i \in (j + 1)..Len(s) : Ch(s, i) # " " ELSE 0
(* the part up to the first dot *)
Major(w) == LET d == Find(".", w, 1) IN IF d = 0 THEN w ELSE SubSeq(w, 1, d - 1)
NumOk(w) == IsDigits(Major(w)) /\ \A j \in 1..Len(w) : Ch(w, j) = "." \/ Find(Ch(w, j), Digits, 1) # 0

(* "": no version; "?" left open *)
VersionNamed(s) ==
  LET u == Up(s)
      b == LastBlank(s)
      w == IF b = 0 THEN "" ELSE SubSeq(s, b + 1, Len(s))
      fed == Starts(u, "FEDORA")
      rh  == Starts(u, "RED HAT ENTERPRISE LINUX")
      pick(c) == IF c \in NamesOf THEN c ELSE ""
  IN CASE u \in NamesOf -> Canon(u)
       [] fed /\ b > 6 /\ IsDigits(w) ->
            IF Ch(s, 7) # " " THEN "?"                   \* Fedorax 20
            ELSE IF "FC" \o w \in NamesOf THEN "FC" \o w ELSE pick("F" \o w)
       [] rh /\ b > 24 /\ NumOk(w) -> IF Ch(s, 25) # " " THEN "?" ELSE pick("RHEL" \o Major(w))
       [] \E j \in 1..Len(s) : Ch(s, j) \in {"\n", "(", ")"} -> "?"      \* decorated release files
       [] OTHER -> ""

(* The version of a file, given as lines: the first version comment. *)
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ Ch(s, Len(s)) \in {" ", "\t", "\n", "\r"} THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE VersionOfLines(_)
VersionOfLines(ls) ==
  IF ls = <<>> THEN LastRel
  ELSE IF Starts(Head(ls), "#version=") THEN VersionNamed(RTrim(SubSeq(Head(ls), 10, Len(Head(ls)))))
  ELSE VersionOfLines(Tail(ls))

LongName(v) ==
  LET c == Canon(v) IN
  IF Starts(c, "RHEL") THEN "RedHatEnterpriseLinux" \o SubSeq(c, 5, Len(c))
  ELSE IF Starts(c, "FC") THEN "Fedora" \o SubSeq(c, 3, Len(c)) ELSE "Fedora" \o SubSeq(c, 2, Len(c))

(* every text names at most one version; short names, in any case, name themselves *)
ASSUME \A v \in NamesOf : VersionNamed(v) = Canon(v)
ASSUME \A v, w \in NamesOf : LongName(v) = LongName(w) => Canon(v) = Canon(w)
ASSUME \A j \in 1..Len(Releases) : Starts(Releases[j], "F") =>
          VersionNamed("Fedora " \o SubSeq(LongName(Releases[j]), 7, Len(LongName(Releases[j])))) = Releases[j]
=============================================================================
