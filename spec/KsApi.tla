------------------------------- MODULE KsApi --------------------------------
(***************************************************************************)
(* Command and data objects in the hands of a program: created with         *)
(* keywords, called with keywords, changed in place, compared.  An object   *)
(* is [key, what ("cmd" or "data"), attrs, seen]; no two objects have       *)
(* anything in common.                                                       *)
(***************************************************************************)
EXTENDS KsLines

Dflt(key, what) == IF what = "cmd" THEN G.classes[key].attrs ELSE G.classes[key].data
(* Attributes that an earlier release had and this one does not have any more. *)
Gone(key, what) ==
  IF G.classes[key].kind # "active" THEN {}
  ELSE UNION {DOMAIN Dflt(k, what) : k \in Range(G.classes[key].mro) \cap DOMAIN G.classes} \ DOMAIN Dflt(key, what)

Create(objs, key, what, kw) ==
  LET d == Dflt(key, what)
  IN  [objs |-> Append(objs, [key |-> key, what |-> what, seen |-> FALSE, attrs |-> [a \in DOMAIN d |-> IF a \in DOMAIN kw THEN kw[a]
                 ELSE IF G.classes[key].fam = "OSTreeSetup" /\ a = "remote" /\ "osname" \in DOMAIN kw THEN kw["osname"] ELSE d[a]]]),
       warned |-> DOMAIN kw \cap Gone(key, what)]
Call(objs, i, kw) ==
  [objs EXCEPT ![i] = [@ EXCEPT !.seen = (@ \/ objs[i].what = "cmd"), !.attrs = [a \in DOMAIN @ |-> IF a \in DOMAIN kw THEN kw[a] ELSE @[a]]]]
AppendTo(objs, i, a, x) == [objs EXCEPT ![i].attrs[a] = [k |-> "l", v |-> @.v \o <<x>>]]

(* What makes two objects of one class the same: {} means being the same object. *)
Ident(key, what) ==
  LET f == G.classes[key].fam
      all == CASE what = "cmd" /\ f = "HardDrive" -> {"biospart", "partition", "dir"}
               [] what = "cmd" /\ f = "NFS" -> {"server", "dir", "opts"}
               [] what = "cmd" /\ f = "Liveimg" -> {"url", "proxy", "noverifyssl", "checksum"}
               [] what = "cmd" /\ f = "Url" -> {"url", "proxy", "noverifyssl", "mirrorlist", "metalink"}
               [] what = "cmd" /\ f # "Device" -> {}
               [] f \in {"BTRFS", "Partition"} -> {"mountpoint"}
               [] f = "Device" -> {"moduleName"}
               [] f = "DmRaid" -> {"name", "devices"}
               [] f = "Fcoe" -> {"nic"}
               [] f \in {"Group", "Repo", "User"} -> {"name"}
               [] f = "LogVol" -> {"vgname", "name"}
               [] f = "Module" -> {"name", "stream"}
               [] f = "Mount" -> {"mount_point"}
               [] f = "Network" -> {"device"}
               [] f = "Nvdimm" -> {"action", "namespace", "blockdevs"}
               [] f = "Raid" -> {"device"}
               [] f = "Snapshot" -> {"name", "origin", "when"}
               [] f \in {"SshKey", "SshPw"} -> {"username"}
               [] f = "VolGroup" -> {"vgname"}
               [] f = "ZFCP" -> {"devnum", "wwpn", "fcplun", "scsiid", "scsilun"}
               [] OTHER -> {}
  IN  all \cap DOMAIN Dflt(key, what)
Equal(objs, i, j) ==
  LET x == objs[i]  y == objs[j]  f == G.classes[x.key].fam IN
  IF f = "Timesource" /\ x.what = "data"
  THEN IF Truthy(x.attrs["ntp_server"]) THEN SameOn(x.attrs, y.attrs, {"ntp_server", "nts"})
       ELSE IF Truthy(x.attrs["ntp_pool"]) THEN SameOn(x.attrs, y.attrs, {"ntp_pool", "nts"})
       ELSE SameOn(x.attrs, y.attrs, {"ntp_disable"})
  ELSE IF Ident(x.key, x.what) = {} THEN i = j
  ELSE SameOn(x.attrs, y.attrs, Ident(x.key, x.what))
=============================================================================
