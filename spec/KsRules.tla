------------------------------ MODULE KsRules ------------------------------
(***************************************************************************)
(* What is particular to each command family: the words it takes besides   *)
(* options, settings derived from others, lines that are invalid, entries  *)
(* that repeat earlier ones, and which settings have an effect (and so     *)
(* must survive writing and reading back).                                  *)
(*                                                                          *)
(* c: class of the command in this version (its lineage tells which        *)
(* release's rules apply), L: the line, ns: the options as parsed, a: the  *)
(* settings of the object afterwards, ex: words that no option or argument *)
(* takes, S: families seen before, lst: entries so far.                    *)
(***************************************************************************)
EXTENDS KsCommands

RECURSIVE NumS(_)
Digit(ch) == IndexOf(ch, "0123456789", 1) - 1
NumS(s) == IF s = "" THEN 0 ELSE NumS(SubSeq(s, 1, Len(s) - 1)) * 10 + Digit(SubSeq(s, Len(s), Len(s)))
Num(x) == IF x.k = "i" THEN (IF StartsWith(x.v[1], "-") THEN 0 - NumS(SubSeq(x.v[1], 2, Len(x.v[1]))) ELSE NumS(x.v[1])) ELSE 0

Txt(w) == Vals[w].t                                     \* a word as typed
Txts(ws) == [j \in 1..Len(ws) |-> Txt(ws[j])]
Given(L, n) == \E j \in 1..Len(L.opts) : L.opts[j].n = n
LastVal(L, n) == LET js == {j \in 1..Len(L.opts) : L.opts[j].n = n} IN L.opts[CHOOSE j \in js : \A i \in js : i <= j].v
DevInt(L) == Vals[LastVal(L, "--device")].mdi
NSOn(ns, d) == d \in DOMAIN ns /\ Truthy(ns[d])
SeenF(S, fs) == \E f \in fs : f \in DOMAIN S /\ S[f]
CountOn(ns, ds) == Cardinality({d \in ds : NSOn(ns, d)})
Sval(a, d) == IF Has(a, d) /\ a[d].k = "s" THEN a[d].v[1] ELSE ""
First(ws) == IF ws = <<>> THEN Nil ELSE Str(Txt(ws[1]))

(* Commands that take the rest of the line as it is. *)
FreeForm(c) == c.fam \in {"Authconfig", "Authselect", "DeviceProbe", "Realm"} \/ (c.fam = "Reboot" /\ ~Is(c, "FC6_Reboot"))

(* Words beyond the declared arguments are allowed (the family's rules say how many). *)
TakesExtra(c) == c.fam \in {"BTRFS", "Device", "LangSupport", "Mouse", "Key", "VolGroup", "Raid"} \/ IgnoresRest(c)
IgnoresUnknown(c) == IgnoresRest(c)

(* realm join [options] REALM *)
RealmOpts == {"--client-software", "--server-software", "--membership-software", "--one-time-password", "--computer-ou"}
RECURSIVE RealmScan(_, _)
RealmScan(ws, acc) ==           \* acc: [err, disc]
  IF ws = <<>> THEN [acc EXCEPT !.left = <<>>]
  ELSE LET w == ws[1]
           eq == IndexOf("=", w, 1)
           name == IF eq = 0 THEN w ELSE SubSeq(w, 1, eq - 1)
           val == IF eq # 0 THEN SubSeq(w, eq + 1, Len(w)) ELSE IF Len(ws) > 1 THEN ws[2] ELSE ""
           rest == IF eq # 0 THEN Tail(ws) ELSE IF Len(ws) > 1 THEN Tail(Tail(ws)) ELSE <<>>
           known == name \in RealmOpts \cup {"--no-password"}
       IN IF w = "--" THEN [acc EXCEPT !.left = Tail(ws)]
          ELSE IF ~StartsWith(w, "-") \/ w = "-" THEN [acc EXCEPT !.left = ws]
          ELSE IF ~known THEN [acc EXCEPT !.err = "realm option"]
          ELSE IF name = "--no-password" THEN IF eq # 0 THEN [acc EXCEPT !.err = "surplus value"] ELSE RealmScan(Tail(ws), acc)
          ELSE IF eq = 0 /\ Len(ws) = 1 THEN [acc EXCEPT !.err = "missing value"]
          ELSE RealmScan(rest, IF name \in {"--client-software", "--server-software", "--membership-software"}
                               THEN [acc EXCEPT !.disc = Append(@, name \o "=" \o val)] ELSE acc)
Realm(L) == IF L.words = <<>> \/ L.words[1] # "join" THEN [err |-> "realm command", disc |-> <<>>, left |-> <<>>]
            ELSE RealmScan(Tail(L.words), [err |-> "", disc |-> <<>>, left |-> <<>>])

(* Existing devices are not formatted and cannot be given members. *)
Members(c, ns, ex) == (IF "partitions" \in DOMAIN ns THEN ns.partitions.v ELSE <<>>) \o Txts(ex)
VgWords(ns, ex) == ns.name.v \o ns.partitions.v \o Txts(ex)

(***************************************************************************)
(* Derived settings.                                                        *)
(***************************************************************************)
PutIf(a, cond, d, x) == IF cond THEN Put(a, d, x) ELSE a
Pos1(ns, d) == Str(ns[d].v[1])

Post(c, L, ns, a, ex) ==
  CASE c.fam = "Authconfig" -> Put(a, "authconfig", Str(L.rest))
    [] c.fam = "Authselect" -> Put(a, "authselect", Str(L.rest))
    [] c.fam = "DeviceProbe" -> Put(a, "deviceprobe", Str(JoinWith(L.words, " ")))
    [] c.fam = "Realm" ->
         LET r == Realm(L) IN
         IF r.err # "" \/ Len(r.left) # 1 THEN a
         ELSE Put(Put(Put(a, "join_realm", Str(r.left[1])), "join_args", ListV(Tail(L.words))), "discover_options", ListV(r.disc))
    [] c.fam = "AutoPart" -> PutIf(Put(a, "autopart", BoolV(TRUE)), Is(c, "F17_AutoPart"), "lvm", BoolV(TRUE))
    [] c.fam = "AutoStep" -> Put(a, "autostep", BoolV(TRUE))
    [] c.fam = "Bootloader" ->
         IF NSOn(ns, "_md5pass") THEN Put(Put(a, "password", ns._md5pass), "isCrypted", BoolV(TRUE)) ELSE a
    [] c.fam = "Lilo" -> Put(a, "useLilo", BoolV(TRUE))
    [] c.fam = "BTRFS" ->
         LET b == IF a.format = BoolV(FALSE) THEN Put(a, "preexist", BoolV(TRUE))
                  ELSE PutIf(a, On(a, "preexist"), "format", BoolV(FALSE))
         IN IF ex = <<>> THEN b
            ELSE Put(Put(b, "mountpoint", Str(Vals[ex[1]].m)), "devices", ListV(Tail(Txts(ex))))
    [] c.fam = "ClearPart" -> PutIf(a, On(a, "devices"), "type", IntV("3"))
    [] c.fam = "Device" ->
         IF c.list = "" THEN (IF Len(ex) # 2 THEN a
                              ELSE Put(Put(Put(a, "type", Str(Txt(ex[1]))), "moduleName", Str(Txt(ex[2]))), "moduleOpts", ns.moduleOpts))
         ELSE IF Len(ex) # 1 THEN a ELSE Put(a, "moduleName", Str(Txt(ex[1])))
    [] c.fam = "DisplayMode" ->
         Put(a, "displayMode", IntV(IF L.cmd = "cmdline" THEN "0" ELSE IF L.cmd = "graphical" THEN "1" ELSE "2"))
    [] c.fam = "DmRaid" -> Put(a, "name", Str(LastOf(SplitOn(a.name.v[1], "/"))))
    [] c.fam = "DriverDisk" ->
         Put(a, "partition", IF ns.partition.v = <<>> THEN Str("") ELSE Pos1(ns, "partition"))
    [] c.fam \in {"Install"} -> Put(Put(a, "root_device", ns.root_device), "upgrade", BoolV(FALSE))
    [] c.fam = "Upgrade" ->
         PutIf(Put(a, "upgrade", BoolV(L.cmd = "upgrade")), Is(c, "F11_Upgrade"), "root_device", ns.root_device)
    [] c.fam = "Interactive" -> Put(a, "interactive", BoolV(TRUE))
    [] c.fam = "IgnoreDisk" -> PutIf(a, On(a, "interactive") /\ ~Is(c, "F29_IgnoreDisk"), "ignoredisk", ListV(<<>>))
    [] c.fam = "IscsiName" -> IF ns.iqn.k = "n" THEN a ELSE Put(a, "iscsiname", Pos1(ns, "iqn"))
    [] c.fam = "Key" -> IF On(a, "skip") THEN Put(a, "key", IntV("-99")) ELSE IF ex = <<>> THEN a ELSE Put(a, "key", First(ex))
    [] c.fam = "Keyboard" ->
         IF Is(c, "F18_Keyboard")
         THEN LET old == IF ns.kbd.v # <<>> THEN ns.kbd.v[1] ELSE a.keyboard0.v[1]
                  b == Put(a, "keyboard0", Str(old))
              IN Put(b, "keyboard", Str(IF old # "" THEN old ELSE IF On(b, "vc_keymap") THEN b.vc_keymap.v[1]
                                        ELSE IF On(b, "x_layouts") THEN b.x_layouts.v[1] ELSE ""))
         ELSE IF ns.kbd.v = <<>> THEN a ELSE Put(a, "keyboard", Pos1(ns, "kbd"))
    [] c.fam = "Lang" -> IF ns.lang.k = "n" THEN a ELSE Put(a, "lang", Pos1(ns, "lang"))
    [] c.fam = "LangSupport" -> Put(a, "supported", ListV(Txts(ex)))
    [] c.fam = "LiloCheck" -> Put(a, "check", BoolV(TRUE))
    [] c.fam = "LogVol" ->
         LET b == IF ns.mntpoint.k = "n" THEN a ELSE Put(a, "mountpoint", Pos1(ns, "mntpoint"))
         IN PutIf(b, ~On(b, "format"), "preexist", BoolV(TRUE))
    [] c.fam = "MediaCheck" -> Put(a, "mediacheck", BoolV(TRUE))
    [] c.fam = "Mount" ->
         LET b == IF ns.mntpoint.k = "n" \/ ns.device.k = "n" THEN a
                  ELSE Put(Put(a, "mount_point", Pos1(ns, "mntpoint")), "device", Pos1(ns, "device"))
         IN IF a.reformat.k = "s" /\ Truthy(a.reformat) THEN Put(Put(b, "format", a.reformat), "reformat", BoolV(TRUE)) ELSE b
    [] c.fam = "Mouse" -> IF Len(ex) # 1 THEN a ELSE Put(a, "mouse", First(ex))
    [] c.fam = "MultiPath" ->
         Put(Put(a, "name", ns.name), "paths",
             ListV(<<"device=" \o ns.device.v[1] \o ";mpdev=" \o LastOf(SplitOn(ns.name.v[1], "/"))
                     \o ";name=" \o ns.name.v[1] \o ";rule=" \o ns.rule.v[1]>>))
    [] c.fam = "Network" -> PutIf(a, Is(c, "F24_Network") /\ On(a, "noipv4"), "bootProto", Str(""))
    [] c.fam = "Nvdimm" -> IF ns.action.k = "n" THEN a ELSE Put(a, "action", Pos1(ns, "action"))
    [] c.fam = "OSTreeSetup" -> PutIf(a, ~On(a, "remote"), "remote", a.osname)
    [] c.fam = "Partition" -> IF ns.mntpoint.k = "n" THEN a ELSE Put(a, "mountpoint", Pos1(ns, "mntpoint"))
    [] c.fam = "Raid" ->
         LET ms == Members(c, ns, ex)
             b == IF ns.mntpoint.k = "n" THEN a ELSE Put(a, "mountpoint", Pos1(ns, "mntpoint"))
             b2 == PutIf(b, ns.format = BoolV(FALSE), "preexist", BoolV(TRUE))
             b3 == PutIf(b2, ms # <<>>, "members", ListV(ms))
         IN IF Is(c, "F19_Raid") \/ ns.device.k = "n" THEN b3
            ELSE Put(b3, "device", IntV(DevInt(L)))
    [] c.fam = "Reboot" ->
         LET act == IF L.cmd = "reboot" THEN "1" ELSE IF L.cmd \in {"shutdown", "poweroff"} THEN "2" ELSE IF Is(c, "F18_Reboot") THEN "0" ELSE ""
         IN PutIf(a, act # "", "action", IntV(act))
    [] c.fam = "ReqPart" -> Put(a, "reqpart", BoolV(TRUE))
    [] c.fam = "Rescue" -> Put(a, "rescue", BoolV(TRUE))
    [] c.fam = "SkipX" -> Put(a, "skipx", BoolV(TRUE))
    [] c.fam = "Firstboot" -> Put(a, "firstboot", ns.firstboot)
    [] c.fam = "SshKey" -> IF ns.sshkey.k = "n" THEN a ELSE Put(a, "key", Pos1(ns, "sshkey"))
    [] c.fam = "SshPw" -> Put(a, "password", Str(JoinWith(ns.password.v, " ")))
    [] c.fam = "Timezone" ->
         LET b == IF ns.timezone.k = "n" \/ ns.timezone.v = <<>> THEN a ELSE Put(a, "timezone", Pos1(ns, "timezone"))
         IN IF Is(c, "F18_Timezone") /\ ~Is(c, "F23_Timezone") /\ ~Is(c, "RHEL7_Timezone") /\ ns.ntpservers.k = "l"
            THEN Put(b, "ntpservers", ListV(Vals[LastVal(L, "--ntpservers")].ls)) ELSE b
    [] c.fam = "UnsupportedHardware" -> Put(a, "unsupported_hardware", BoolV(TRUE))
    [] c.fam = "Updates" ->
         IF Is(c, "F34_Updates") THEN a
         ELSE Put(a, "url", IF ns.updates.v = <<>> THEN Str("floppy") ELSE Pos1(ns, "updates"))
    [] c.fam = "Vnc" ->
         LET cs == SplitOn(ns._connect.v[1], ":")
         IN IF ~Is(c, "FC6_Vnc") THEN Put(a, "enabled", BoolV(TRUE))
            ELSE IF ~NSOn(ns, "_connect") THEN Put(a, "enabled", BoolV(TRUE))
            ELSE PutIf(Put(Put(a, "enabled", BoolV(TRUE)), "host", Str(cs[1])), Len(cs) > 1, "port", Str(cs[2]))
    [] c.fam = "VolGroup" ->
         LET ws == VgWords(ns, ex)
             b == PutIf(a, ns.format = BoolV(FALSE), "preexist", BoolV(TRUE))
         IN IF ws = <<>> THEN b
            ELSE PutIf(Put(b, "vgname", Str(ws[1])), Len(ws) > 1, "physvols", ListV(Tail(ws)))
    [] c.fam = "ZeroMbr" -> Put(a, "zerombr", BoolV(TRUE))
    [] OTHER -> a

(***************************************************************************)
(* Invalid lines.                                                           *)
(***************************************************************************)
RECURSIVE AllDigits(_)
AllDigits(s) == s = "" \/ (IndexOf(SubSeq(s, 1, 1), "0123456789", 1) # 0 /\ AllDigits(SubSeq(s, 2, Len(s))))
IsNat(s) == s # "" /\ AllDigits(s)
VlanRange(s) == ~IsNat(s) \/ NumS(s) < 0 \/ NumS(s) > 4095
BadIface(s) ==
  LET dot == IndexOf(".", s, 1)
      pre == SubSeq(s, 1, dot - 1)
      post == SubSeq(s, dot + 1, Len(s))
  IN  \/ dot # 0 /\ (pre = "vlan" \/ VlanRange(post))
      \/ StartsWith(s, "vlan") /\ VlanRange(SubSeq(s, 5, Len(s)))
BadBridge(s) == \E j \in 1..Len(SplitOn(s, ",")) :
                  LET o == SplitOn(s, ",")[j]  e == IndexOf("=", o, 1)
                  IN e = 0 \/ e = Len(o) \/ Contains(SubSeq(o, e + 1, Len(o)), "=")
PbkdfBoth(a) == On(a, "pbkdf_time") /\ On(a, "pbkdf_iterations")
Wipe(a) == ~On(a, "format") /\ On(a, "mkfsopts")

Err(c, L, ns, a, a0, ex, S, lst) ==
  CASE c.fam = "Method" -> "the proxy is not for files"
    [] c.fam = "Realm" -> LET r == Realm(L) IN
         IF On(a0, "join_realm") THEN "realm joined twice" ELSE
         IF r.err # "" THEN r.err ELSE IF Len(r.left) # 1 THEN "one realm needed" ELSE ""
    [] c.fam = "AutoPart" ->
         CASE (Is(c, "RHEL6_AutoPart") \/ Is(c, "F20_AutoPart")) /\ SeenF(S, {"Partition", "Raid", "VolGroup", "LogVol"}) -> "conflict with partitions"
           [] Is(c, "F20_AutoPart") /\ SeenF(S, {"Mount"}) -> "conflict with mount"
           [] (Is(c, "F23_AutoPart") \/ Is(c, "RHEL7_AutoPart")) /\ SeenF(S, {"ReqPart"}) -> "conflict with reqpart"
           [] Is(c, "F21_AutoPart") /\ Sval(a, "fstype") = "btrfs" -> "btrfs is a type"
           [] Is(c, "F21_AutoPart") /\ a.type = IntV("1") /\ On(a, "fstype") -> "fstype with btrfs"
           [] PbkdfBoth(a) -> "pbkdf time and iterations"
           [] Is(c, "RHEL8_AutoPart") /\ a.type = IntV("1") -> "btrfs not supported"
           [] OTHER -> ""
    [] c.fam = "Bootloader" -> IF Is(c, "F17_Bootloader") /\ Contains(Sval(a, "bootDrive"), ",") THEN "one boot drive" ELSE ""
    [] c.fam = "BTRFS" ->
         CASE ex = <<>> -> "mount point needed"
           [] Len(ex) = 1 -> "devices needed"
           [] On(a, "subvol") /\ ~On(a, "name") -> "subvolume name"
           [] Is(c, "F23_BTRFS") /\ (On(a, "preexist") \/ ~On(a, "format")) /\ On(a, "mkfsopts") -> "mkfsoptions without formatting"
           [] OTHER -> ""
    [] c.fam = "Device" -> IF Len(ex) # (IF c.list = "" THEN 2 ELSE 1) THEN "number of arguments" ELSE ""
    [] c.fam = "DisplayMode" -> IF L.cmd = "cmdline" /\ On(a, "nonInteractive") THEN "cmdline is not interactive" ELSE ""
    [] c.fam = "DriverDisk" ->
         LET n == (IF ns.partition.v # <<>> THEN 1 ELSE 0) + CountOn(ns, {"source", "biospart"})
         IN IF Len(ns.partition.v) > 1 THEN "one partition" ELSE IF n # 1 THEN "one source" ELSE ""
    [] c.fam = "Eula" -> IF ~On(a, "agreed") THEN "agreement needed" ELSE ""
    [] c.fam = "HardDrive" -> IF ~Is(c, "F33_HardDrive") /\ (a.biospart.k = "n") = (a.partition.k = "n") THEN "one of partition and biospart" ELSE ""
    [] c.fam = "IgnoreDisk" ->
         LET n == CountOn(a0, {"ignoredisk", "onlyuse"} \cup (IF Is(c, "F29_IgnoreDisk") THEN {} ELSE {"interactive"}))
         IN IF Is(c, "F8_IgnoreDisk") /\ n # 1 THEN "exactly one kind" ELSE ""
    [] c.fam \in {"Install", "Upgrade"} ->
         IF "root_device" \in DOMAIN ns /\ ns.root_device = Str("") THEN "empty root device" ELSE ""
    [] c.fam = "Key" -> IF On(a, "skip") THEN (IF ex # <<>> THEN "unspec" ELSE "") ELSE IF Len(ex) # 1 THEN "one key" ELSE ""
    [] c.fam = "Keyboard" ->
         IF Is(c, "F18_Keyboard")
         THEN IF Len(ns.kbd.v) > 1 THEN "one keyboard" ELSE
              IF ns.kbd.v = <<>> /\ ~On(a, "vc_keymap") /\ ~On(a, "x_layouts") THEN "nothing given" ELSE ""
         ELSE IF Len(ns.kbd.v) # 1 THEN "one keyboard" ELSE ""
    [] c.fam = "Logging" -> IF On(a, "port") /\ ~On(a, "host") THEN "port without host" ELSE ""
    [] c.fam = "LogVol" ->
         LET thin == Is(c, "RHEL6_LogVol") \/ Is(c, "F20_LogVol") IN
         CASE Is(c, "RHEL6_LogVol") /\ SeenF(S, {"AutoPart"}) -> "conflict with autopart"
           [] Is(c, "F20_LogVol") /\ SeenF(S, {"AutoPart", "Mount"}) -> "conflict"
           [] thin /\ On(a, "thin_volume") /\ On(a, "thin_pool") -> "thin volume or pool"
           [] thin /\ On(a, "thin_volume") /\ ~On(a, "pool_name") -> "pool name"
           [] thin /\ (On(a, "chunk_size") \/ On(a, "metadata_size")) /\ ~On(a, "thin_pool") -> "thin pools only"
           [] Is(c, "F17_LogVol") /\ On(a, "resize") /\ ~On(a, "preexist") -> "resize needs an existing volume"
           [] Is(c, "F17_LogVol") /\ On(a, "resize") /\ ~On(a, "size") -> "resize needs a size"
           [] Is(c, "F20_LogVol") /\ ~(\E d \in {"preexist", "percent", "size", "recommended", "hibernation"} : On(a, d)) -> "no size"
           [] Is(c, "F20_LogVol") /\ a.percent.k = "i" /\ (Num(a.percent) < 0 \/ Num(a.percent) > 100) -> "percentage"
           [] Is(c, "F21_LogVol") /\ On(a, "size") /\ On(a, "percent") -> "size and percentage"
           [] Is(c, "F23_LogVol") /\ (On(a, "cache_size") \/ On(a, "cache_mode") \/ On(a, "cache_pvs"))
              /\ (On(a, "preexist") \/ On(a, "thin_volume") \/ ~On(a, "cache_pvs") \/ ~On(a, "cache_size")
                  \/ (On(a, "cache_mode") /\ Sval(a, "cache_mode") \notin {"writeback", "writethrough"})) -> "cache"
           [] (Is(c, "RHEL7_LogVol") \/ Is(c, "F23_LogVol")) /\ (Wipe(a) \/ (On(a, "fsprofile") /\ On(a, "mkfsopts"))) -> "mkfsoptions"
           [] PbkdfBoth(a) -> "pbkdf time and iterations"
           [] Is(c, "RHEL8_LogVol") /\ Sval(a, "fstype") = "btrfs" -> "btrfs not supported"
           [] OTHER -> ""
    [] c.fam = "Mount" ->
         CASE SeenF(S, {"AutoPart", "Partition", "Raid", "VolGroup", "LogVol", "ReqPart"}) -> "conflict"
           [] LowerS(Sval(a, "mount_point")) # "none" /\ ~StartsWith(Sval(a, "mount_point"), "/") -> "mount point"
           [] a.reformat = BoolV(FALSE) /\ On(a, "mkfs_opts") -> "mkfsoptions without reformat"
           [] OTHER -> ""
    [] c.fam = "Mouse" -> IF Len(ex) # 1 THEN "one argument" ELSE ""
    [] c.fam = "MultiPath" ->
         LET dev == "device=" \o ns.device.v[1] \o ";" IN
         IF \E j \in 1..Len(lst) : \E k \in 1..Len(lst[j].attrs.paths.v) : StartsWith(lst[j].attrs.paths.v[k], dev)
         THEN "device already used" ELSE ""
    [] c.fam = "Network" ->
         LET br == Is(c, "F22_Network") \/ Is(c, "RHEL7_Network")
             bd == Is(c, "F27_Network") \/ Is(c, "RHEL7_Network") IN
         CASE br /\ On(a, "bridgeopts") /\ (~On(a, "bridgeslaves") \/ BadBridge(Sval(a, "bridgeopts"))) -> "bridge options"
           [] bd /\ Sval(a, "bindto") = "mac" /\ On(a, "vlanid") /\ ~On(a, "bondopts") -> "bindto"
           [] Is(c, "RHEL7_Network") /\ BadIface(Sval(a, "interfacename")) -> "interface name"
           [] OTHER -> ""
    [] c.fam = "Nvdimm" ->
         CASE On(a, "namespace") /\ On(a, "blockdevs") -> "namespace and blockdevs"
           [] Sval(a, "action") = "reconfigure" /\ (~On(a, "namespace") \/ (Sval(a, "mode") = "sector" /\ ~On(a, "sectorsize"))) -> "reconfigure"
           [] Sval(a, "action") = "use" /\ ~On(a, "namespace") /\ ~On(a, "blockdevs") -> "use"
           [] OTHER -> ""
    [] c.fam = "OSTreeSetup" ->
         IF ~(\E p \in {"file:", "http:", "https:"} : StartsWith(Sval(a, "url"), p)) THEN "protocol" ELSE ""
    [] c.fam = "Partition" ->
         CASE Is(c, "RHEL6_Partition") /\ SeenF(S, {"AutoPart"}) -> "conflict with autopart"
           [] Is(c, "F20_Partition") /\ SeenF(S, {"AutoPart", "Mount"}) -> "conflict"
           [] Is(c, "F17_Partition") /\ On(a, "resize") /\ (~On(a, "onPart") \/ ~On(a, "size")) -> "resize"
           [] Is(c, "F20_Partition") /\ Sval(a, "fstype") = "tmpfs" /\ (On(a, "grow") \/ On(a, "maxSizeMB")) -> "tmpfs"
           [] Is(c, "F23_Partition") /\ (Wipe(a) \/ (On(a, "fsprofile") /\ On(a, "mkfsopts"))) -> "mkfsoptions"
           [] PbkdfBoth(a) -> "pbkdf time and iterations"
           [] Is(c, "RHEL8_Partition") /\ (StartsWith(Sval(a, "mountpoint"), "btrfs.") \/ Sval(a, "fstype") = "btrfs") -> "btrfs not supported"
           [] OTHER -> ""
    [] c.fam = "Raid" ->
         LET ms == Members(c, ns, ex) IN
         CASE ms = <<>> /\ ~On(a, "preexist") -> "members needed"
           [] ms # <<>> /\ On(a, "preexist") -> "members of an existing device"
           [] ~Is(c, "F19_Raid") /\ DevInt(L) = "" -> "device number"
           [] ~On(a, "preexist") /\ ~On(a, "level") -> "level"
           [] On(a, "preexist") /\ a.device = Str("") -> "device"
           [] Is(c, "RHEL6_Raid") /\ SeenF(S, {"AutoPart"}) -> "conflict with autopart"
           [] Is(c, "F20_Raid") /\ SeenF(S, {"AutoPart", "Mount"}) -> "conflict"
           [] Is(c, "F23_Raid") /\ (Wipe(a) \/ (On(a, "fsprofile") /\ On(a, "mkfsopts"))) -> "mkfsoptions"
           [] PbkdfBoth(a) -> "pbkdf time and iterations"
           [] Is(c, "RHEL8_Raid") /\ Sval(a, "fstype") = "btrfs" -> "btrfs not supported"
           [] OTHER -> ""
    [] c.fam = "Repo" ->
         LET n == CountOn(ns, {"baseurl", "mirrorlist", "metalink"})
         IN IF n > 1 THEN "several sources" ELSE IF n = 0 /\ ~Is(c, "F15_Repo") THEN "no source" ELSE ""
    [] c.fam = "ReqPart" -> IF SeenF(S, {"AutoPart", "Mount"}) THEN "conflict" ELSE ""
    [] c.fam = "Rescue" -> IF On(a, "nomount") /\ On(a, "romount") THEN "nomount and romount" ELSE ""
    [] c.fam = "RHSM" -> IF "" \in Range(a.activation_keys.v) THEN "empty key" ELSE ""
    [] c.fam = "RootPw" -> IF ~NSOn(ns, "password") /\ ~(Is(c, "F18_RootPw") /\ NSOn(ns, "lock")) THEN "password needed" ELSE ""
    [] c.fam = "Services" -> IF ~On(a, "enabled") /\ ~On(a, "disabled") THEN "nothing given" ELSE ""
    [] c.fam = "Snapshot" ->
         LET g == SplitOn(Sval(a, "origin"), "/") IN
         CASE \E j \in 1..Len(lst) : lst[j].attrs.name = a.name -> "snapshot name used"
           [] Len(g) # 2 \/ g[1] = "" \/ LastOf(g) = "" -> "origin"
           [] OTHER -> ""
    [] c.fam = "SshPw" -> IF ns.password.v = <<>> THEN "password needed" ELSE ""
    [] c.fam = "Timesource" -> IF CountOn(ns, {"ntp_server", "ntp_pool", "ntp_disable"}) # 1 THEN "exactly one source" ELSE ""
    [] c.fam = "Timezone" ->
         CASE (Is(c, "RHEL7_Timezone") \/ Is(c, "F25_Timezone")) /\ L.words = <<>> -> "nothing given"
           [] (Is(c, "RHEL7_Timezone") \/ Is(c, "F25_Timezone")) /\ Len(ns.timezone.v) > 1 -> "one timezone"
           [] Is(c, "F18_Timezone") /\ On(a, "ntpservers") /\ On(a, "nontp") -> "nontp with servers"
           [] OTHER -> ""
    [] c.fam = "Updates" -> IF ~Is(c, "F34_Updates") /\ Len(ns.updates.v) > 1 THEN "one argument" ELSE ""
    [] c.fam = "Url" ->
         IF Is(c, "F18_Url") /\ CountOn(ns, {"url", "mirrorlist", "metalink"}) # 1 THEN "exactly one source" ELSE ""
    [] c.fam = "VolGroup" ->
         LET ws == VgWords(ns, ex) IN
         CASE ws = <<>> -> "name needed"
           [] Len(ws) = 1 /\ ~On(a, "preexist") -> "members needed"
           [] Len(ws) > 1 /\ On(a, "preexist") -> "members of an existing group"
           [] Is(c, "F16_VolGroup") /\ a.reserved_space.k = "i" /\ Num(a.reserved_space) < 0 -> "reserved space"
           [] Is(c, "F16_VolGroup") /\ a.reserved_percent.k = "i" /\ (Num(a.reserved_percent) < 1 \/ Num(a.reserved_percent) > 99) -> "reserved percentage"
           [] Is(c, "F16_VolGroup") /\ SeenF(S, {"AutoPart", "Mount"}) -> "conflict"
           [] OTHER -> ""
    [] OTHER -> ""

(***************************************************************************)
(* Entries that repeat earlier ones.                                        *)
(***************************************************************************)
SameOn(a, b, ds) == \A d \in ds : Has(a, d) => a[d] = b[d]
Same(c, a, b) ==
  CASE c.fam = "BTRFS" -> SameOn(a, b, {"mountpoint"})
    [] c.fam = "Device" -> SameOn(a, b, {"moduleName"})
    [] c.fam = "DmRaid" -> SameOn(a, b, {"name", "devices"})
    [] c.fam = "Fcoe" -> SameOn(a, b, {"nic"})
    [] c.fam = "Group" -> SameOn(a, b, {"name"})
    [] c.fam = "LogVol" -> SameOn(a, b, {"vgname", "name"})
    [] c.fam = "Network" -> SameOn(a, b, {"device"})
    [] c.fam = "Nvdimm" -> SameOn(a, b, {"action", "namespace", "blockdevs"})
    [] c.fam = "Partition" -> SameOn(a, b, {"mountpoint"}) /\ a.mountpoint # Str("swap")
    [] c.fam = "Raid" -> SameOn(a, b, {"device"})
    [] c.fam = "Repo" -> SameOn(a, b, {"name"})
    [] c.fam \in {"SshKey", "SshPw"} -> SameOn(a, b, {"username"})
    [] c.fam = "User" -> SameOn(a, b, {"name"})
    [] c.fam = "VolGroup" -> SameOn(a, b, {"vgname"})
    [] c.fam = "ZFCP" -> SameOn(a, b, {"devnum", "wwpn", "fcplun"} \cup (IF Is(c, "F12_ZFCP") THEN {} ELSE {"scsiid", "scsilun"}))
    [] OTHER -> FALSE

(* Where a new entry goes: at the end; a path is added to the multipath device of that name. *)
Place(c, lst, e) ==
  LET js == {j \in 1..Len(lst) : c.fam = "MultiPath" /\ LastOf(SplitOn(lst[j].attrs.name.v[1], "/")) = LastOf(SplitOn(e.attrs.name.v[1], "/"))}
  IN IF js = {} THEN Append(lst, e)
     ELSE LET j == CHOOSE x \in js : TRUE
          IN [lst EXCEPT ![j].attrs = Put(@, "paths", ListV(@.paths.v \o e.attrs.paths.v))]

(* Deprecation warnings that do not come from the option table. *)
ExtraDepr(c, L, a, ex) ==
  CASE c.fam = "ZeroMbr" -> ~Is(c, "F9_ZeroMbr") /\ (L.pos # <<>> \/ L.opts # <<>>)
    [] c.fam = "Authconfig" -> Is(c, "F28_Authconfig")
    [] c.fam = "Timezone" -> \/ Is(c, "F32_Timezone") /\ Given(L, "--isUtc")
                             \/ Is(c, "F33_Timezone") /\ (On(a, "ntpservers") \/ On(a, "nontp"))
    [] OTHER -> FALSE

(***************************************************************************)
(* Settings that have an effect.  Anything empty counts as not given unless *)
(* nothing and empty differ for that setting.                               *)
(***************************************************************************)
Keep(a, ds) == [d \in ds \cap DOMAIN a |-> a[d]]
Drop(a, ds) == [d \in DOMAIN a \ ds |-> a[d]]
DropIf(a, cond, ds) == IF cond THEN Drop(a, ds) ELSE a
AsSet(a, d) == IF Has(a, d) THEN [a EXCEPT ![d] = [k |-> "set", v |-> Range(a[d].v)]] ELSE a
ZeroCounts(c) ==
  CASE c.fam = "Bootloader" -> {"timeout"}
    [] c.fam = "AutoPart" -> {"type"}
    [] c.fam = "ClearPart" -> {"type"}
    [] c.fam = "DisplayMode" -> {"displayMode"}
    [] c.fam = "Firewall" -> {"enabled"}
    [] c.fam = "Firstboot" -> {"firstboot"}
    [] c.fam = "Reboot" -> {"action"}
    [] c.fam = "SELinux" -> {"selinux"}
    [] c.fam = "Snapshot" -> {"when"}
    [] c.fam = "Zipl" -> {"secure_boot"}
    [] c.fam = "User" -> {"uid", "gid"}
    [] c.fam = "Group" -> {"gid"}
    [] c.fam = "Network" -> {"activate"}
    [] OTHER -> {}
Normal(c, a) == [d \in {x \in DOMAIN a : a[x].k # "set" => (Truthy(a[x]) \/ (x \in ZeroCounts(c) /\ a[x].k # "n"))} |-> a[d]]

CryptOnly == {"passphrase", "escrowcert", "backuppassphrase", "cipher", "luks_version", "pbkdf", "pbkdf_memory", "pbkdf_time", "pbkdf_iterations"}
Crypt(a) == DropIf(DropIf(a, ~On(a, "encrypted"), CryptOnly), ~On(a, "escrowcert"), {"backuppassphrase"})

EffRaw(c, a) ==
  CASE c.fam = "AutoPart" -> IF ~On(a, "autopart") THEN <<>> ELSE Crypt(a)
    [] c.fam = "Bootloader" -> IF ~On(a, "location") THEN <<>> ELSE IF On(a, "disabled") THEN Keep(a, {"disabled"}) ELSE a
    [] c.fam = "ClearPart" -> IF a.type.k = "n" THEN <<>> ELSE a       \* without a kind of partitions to clear there is nothing to do
    [] c.fam = "DriverDisk" -> DropIf(a, ~On(a, "partition"), {"type"})
    [] c.fam = "Firewall" ->
         IF On(a, "use_system_defaults") THEN Keep(a, {"use_system_defaults"})
         ELSE IF ~On(a, "enabled") THEN Keep(a, {"enabled"})
         ELSE AsSet(a, "ports")
    [] c.fam = "IgnoreDisk" -> IF Is(c, "F29_IgnoreDisk") THEN Drop(a, {"interactive"}) ELSE IF On(a, "interactive") THEN Keep(a, {"interactive"}) ELSE a
    [] c.fam = "Install" -> Drop(a, {"root_device"})
    [] c.fam = "Upgrade" -> DropIf(a, ~On(a, "upgrade"), {"root_device"})
    [] c.fam = "Keyboard" -> IF On(a, "vc_keymap") \/ On(a, "x_layouts") THEN Drop(a, {"keyboard", "keyboard0"}) ELSE Drop(a, {"keyboard0", "switch_options"})
    [] c.fam = "Lilo" -> a
    [] c.fam = "Logging" -> DropIf(DropIf(a, ~On(a, "host"), {"port"}), Is(c, "F34_Logging"), {"level"})
    [] c.fam \in {"LogVol", "Partition", "Raid"} -> DropIf(DropIf(Crypt(a), ~On(a, "thin_volume"), {"pool_name"}), ~On(a, "thin_pool"), {"metadata_size", "chunk_size"} \cap (IF c.fam = "LogVol" THEN {"metadata_size", "chunk_size"} ELSE {}))
    [] c.fam = "Mouse" -> IF ~On(a, "mouse") THEN <<>> ELSE a
    [] c.fam = "MultiPath" -> a
    [] c.fam = "Nvdimm" -> IF Sval(a, "action") = "reconfigure" THEN DropIf(Drop(a, {"blockdevs"}), Sval(a, "mode") # "sector", {"sectorsize"})
                           ELSE Drop(a, {"mode", "sectorsize"})
    [] c.fam = "Url" -> DropIf(DropIf(a, On(a, "url"), {"mirrorlist", "metalink"}), On(a, "mirrorlist"), {"metalink"})
    [] c.fam = "SshPw" -> DropIf(a, On(a, "sshkey"), {"lock", "isCrypted"})
    [] c.fam = "Vnc" -> DropIf(a, Has(a, "host") /\ ~On(a, "host"), {"port"})
    [] c.fam = "BTRFS" -> DropIf(a, ~On(a, "subvol"), {"name"})
    [] c.fam = "Timezone" -> IF Is(c, "F18_Timezone") THEN AsSet(a, "ntpservers") ELSE a
    [] c.fam = "RootPw" -> DropIf(a, ~On(a, "password"), {"isCrypted"})
    [] OTHER -> a
Eff(c, a) == Normal(c, EffRaw(c, a))

(***************************************************************************)
(* Which values survive writing: plain ones everywhere; ones with blanks,  *)
(* comment signs or quotes where the written file puts them in quotes.      *)
(***************************************************************************)
Q == JsonDeserialize("quoted.json")
Survives(fam, n, x) ==
  LET q == x.sp \/ x.qu IN
  \/ ~q /\ ~x.ha /\ ~x.dq
  \/ n \in Range(Q.any[fam])
  \/ ~x.dq /\ n \in Range(Q.quoted[fam]) /\ ~(fam = "Keyboard" /\ x.qu)
  \/ ~q /\ ~x.dq /\ n \in Range(Q.hash[fam])
LineSurvives(c, L) ==
  /\ \A j \in 1..Len(L.opts) : L.opts[j].v = 0 \/ Survives(c.fam, L.opts[j].n, Vals[L.opts[j].v])
  /\ \A j \in 1..Len(L.pos) : Survives(c.fam, "@" \o ToString(j), Vals[L.pos[j]])
=============================================================================
