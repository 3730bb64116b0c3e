"""Command lines to try: smallest valid lines, values and combinations per command family.
This only proposes lines; whether each is valid and what it does is decided by the specification."""
import json, os, random
import cmddrv, vlib

G = cmddrv.GRAMMAR
ORDER = G["order"]
# smallest lines that are normally accepted: family -> [(options, words)]
BASE = {
    "Authconfig": [([], ["--enableshadow", "--useshadow"])],
    "Authselect": [([], ["select", "sssd"])],
    "AutoPart": [([], [])],
    "BTRFS": [([], ["/", "btrfs.01"]), ([("--subvol", None), ("--name", "home")], ["/home", "LABEL=pool"])],
    "Device": [([], ["eth", "3c509"]), ([], ["3c509"])],
    "DeviceProbe": [([], ["all", "--quick"])],
    "DmRaid": [([("--name", "/dev/mapper/onefile"), ("--dev", "sda")], [])],
    "DriverDisk": [([], ["sdb1"]), ([("--source", "http://h/dd.img")], []), ([("--biospart", "80p1")], [])],
    "Eula": [([("--agreed", None)], [])],
    "Fcoe": [([("--nic", "eth0")], [])],
    "Firewall": [([], []), ([("--enabled", None)], []), ([("--disabled", None)], [])],
    "Firstboot": [([], []), ([("--enable", None)], [])],
    "Group": [([("--name", "staff")], [])],
    "HardDrive": [([("--dir", "/inst"), ("--partition", "sda1")], []), ([("--dir", "/inst"), ("--biospart", "80p1")], [])],
    "IgnoreDisk": [([("--drives", "sda,sdb")], []), ([("--only-use", "sdc")], []), ([("--interactive", None)], [])],
    "Iscsi": [([("--ipaddr", "1.1.1.1")], [])],
    "IscsiName": [([], ["iqn.1994-05.com.fedora:01"])],
    "Key": [([], ["49af89414d147589"]), ([("--skip", None)], [])],
    "Keyboard": [([], ["us"]), ([("--vckeymap", "cz")], []), ([("--xlayouts", "us,cz (qwerty)")], [])],
    "Lang": [([], ["en_US.UTF-8"])],
    "LangSupport": [([("--default", "en_US")], ["cs_CZ"]), ([], [])],
    "Liveimg": [([("--url", "http://h/i.img")], [])],
    "LogVol": [([("--vgname", "vg0"), ("--name", "root"), ("--size", "100")], ["/"]), ([("--vgname", "vg0"), ("--name", "old"), ("--useexisting", None)], ["/old"]),
               ([("--vgname", "vg0"), ("--name", "pool"), ("--size", "300"), ("--thinpool", None)], ["none"])],
    "Module": [([("--name", "nodejs")], [])],
    "Mount": [([], ["/dev/sda1", "/"]), ([], ["/dev/sda2", "none"])],
    "Mouse": [([], ["generic3ps/2"])],
    "MultiPath": [([("--name", "/dev/mapper/mp0"), ("--device", "/dev/sda"), ("--rule", "failover")], [])],
    "NFS": [([("--server", "1.2.3.4"), ("--dir", "/install")], [])],
    "Network": [([], []), ([("--device", "eth1"), ("--bootproto", "static")], [])],
    "Nvdimm": [([("--namespace", "namespace0.0")], ["use"]), ([("--namespace", "n0"), ("--mode", "sector"), ("--sectorsize", "512")], ["reconfigure"]),
               ([("--blockdevs", "pmem1,pmem2")], ["use"])],
    "OSTreeSetup": [([("--osname", "os"), ("--url", "http://h/repo"), ("--ref", "f/x")], [])],
    "Partition": [([("--size", "100")], ["/"]), ([("--size", "100")], ["swap"]), ([("--onpart", "sda7")], ["/data"])],
    "RHSM": [([("--organization", "org"), ("--activation-key", "key1")], [])],
    "Raid": [([("--device", "md0"), ("--level", "1")], ["/", "raid.01", "raid.02"]), ([("--device", "3"), ("--useexisting", None)], ["/r"])],
    "Realm": [([], ["join", "--one-time-password=p", "EXAMPLE.COM"]), ([], ["join", "--client-software=sssd", "--server-software=ipa", "--membership-software=samba", "x.org"]),
              ([], ["join", "--no-password", "--computer-ou=OU=x", "x.org"]), ([], ["join", "x.org"])],
    "Repo": [([("--name", "r1"), ("--baseurl", "http://h/r")], []), ([("--name", "r2")], [])],
    "RootPw": [([], ["secret"]), ([("--lock", None)], [])],
    "Services": [([("--enabled", "ssh,chrony")], []), ([("--disabled", "kdump")], [])],
    "Snapshot": [([("--name", "snap1"), ("--when", "post-install")], ["fedora/root"])],
    "SshKey": [([("--username", "root")], ["ssh-rsa AAAA user@host"])],
    "SshPw": [([("--username", "root")], ["pw1"]), ([("--username", "x")], ["two", "words"])],
    "Timesource": [([("--ntp-server", "ntp.example.com")], []), ([("--ntp-pool", "pool.example.com")], []), ([("--ntp-disable", None)], [])],
    "Timezone": [([], ["Europe/Prague"]), ([("--utc", None)], []), ([("--isUtc", None)], [])],
    "Updates": [([], ["http://h/u.img"]), ([], [])],
    "Url": [([("--url", "http://h/os")], []), ([("--mirrorlist", "http://h/ml")], []), ([("--metalink", "http://h/me")], [])],
    "User": [([("--name", "bob")], [])],
    "VolGroup": [([], ["vg0", "pv.01", "pv.02"]), ([("--useexisting", None)], ["vg1"])],
    "ZFCP": [([("--devnum", "0.0.4000"), ("--wwpn", "0x5005"), ("--fcplun", "0x5022"), ("--scsiid", "1"), ("--scsilun", "0")], []),
             ([("--devnum", "0.0.4000"), ("--wwpn", "0x5005"), ("--fcplun", "0x5022")], [])],
    "ZeroMbr": [([], []), ([], ["yes"])],
}
# values for options, by family and option or by option; the rest goes by type
GOOD = {
    ("AutoPart", "--type"): ["lvm", "BTRFS", "plain", "partition", "thinp"], ("AutoPart", "--fstype"): ["ext4", "btrfs"],
    ("BTRFS", "--data"): ["raid0", "1", "RAID10", "single", "0", "10", "raid1"], ("BTRFS", "--metadata"): ["single", "raid1", "0", "1", "10", "RAID0", "raid10"],
    ("Bootloader", "--boot-drive"): ["sda"], ("Bootloader", "--driveorder"): ["sda,sdb"],
    ("Logging", "--level"): ["debug", "critical"], ("Logging", "--port"): ["514"],
    ("Firewall", "--port"): ["1234:udp", "imap:tcp,47", "53"], ("Firewall", "--trust"): ["eth0", "eth1"],
    ("Firewall", "--telnet"): [None], ("Firewall", "--high"): [None], ("Firewall", "--medium"): [None],
    ("LogVol", "--percent"): ["50", "0", "100"], ("LogVol", "--cachemode"): ["writeback", "writethrough"],
    ("LogVol", "--poolname"): ["pool"],
    ("Mount", "--reformat"): [None, "xfs"],
    ("Network", "--bootproto"): ["static", "bootp", "dhcp", "query", "ibft"], ("Network", "--bridgeopts"): ["stp=6.0,forward_delay=2"],
    ("Network", "--teamslaves"): ["eth1,eth2", "p3p1'{\"prio\": -10, \"sticky\": true}',p3p2'{\"prio\": 100}'", "a,b'{\"x\": 1}',c"],
    ("Network", "--teamconfig"): ["{\"runner\": {\"name\": \"roundrobin\"}}"],
    ("Network", "--bindto"): ["mac"], ("Network", "--interfacename"): ["vlan171", "my_vlan.171", "x", "vlan4095", "vlan0"], ("Network", "--vlanid"): ["171"],
    ("Network", "--ip"): ["10.0.2.15"], ("Network", "--mtu"): ["1500"], ("Network", "--onboot"): ["no", "yes", "on", "0"],
    ("Nvdimm", "--mode"): ["sector"], ("Nvdimm", "--sectorsize"): ["512"],
    ("OSTreeSetup", "--url"): ["https://h/r", "file:///r"],
    ("Partition", "--onpart"): ["/dev/sda1", "LABEL=x"], ("Partition", "--fstype"): ["ext4", "btrfs", "tmpfs"],
    ("LogVol", "--fstype"): ["ext4", "btrfs"], ("Raid", "--fstype"): ["ext4", "btrfs"],
    ("Raid", "--level"): ["0", "1", "4", "5", "6", "10", "RAID0", "RAID1", "raid5", "RAID5", "RAID6", "raid10", "RAID4", "raid4"], ("Raid", "--device"): ["md0", "1", "7"],
    ("Repo", "--ignoregroups"): ["true", "false", "yes"],
    ("Snapshot", "--when"): ["pre-install", "post-install", "POST-install"],
    ("Timezone", "--ntpservers"): ["ntp1.x", "b.x,a.x,b.x"],
    ("Vnc", "--connect"): ["h", "h:5901"], ("Vnc", "--host"): ["h2"], ("Vnc", "--port"): ["5902"],
    ("VolGroup", "--reserved-percent"): ["1", "99"], ("XConfig", "--depth"): ["16", "24"],
    ("XConfig", "--noprobe"): [None, "x"],
    ("ZFCP", "--scsiid"): ["1"], ("Lang", "--addsupport"): ["cs_CZ,de_DE.UTF-8@euro"],
}
BYTYPE = {"int": ["100", "7"], "commaSplit": ["a,b", "one"], "ksboolean": ["yes", "off"], "str": ["val1", "other"], "mountpoint": ["/x"],
          "part_cb": ["sda1"], "device_cb": ["md0"], "level_cb": ["1"], "type_cb": ["lvm"], "teamslaves_cb": ["eth1"], "firewall_port_cb": ["22"], "when_cb": ["pre-install"]}
BADVAL = {"int": ["abc", "", "1.5"], "ksboolean": ["maybe", "", "2"], "level_cb": ["RAID99", ""], "type_cb": ["zfs", ""], "when_cb": ["later", ""]}
BAD = {
    ("Bootloader", "--boot-drive"): ["sda,sdb"], ("LogVol", "--percent"): ["101", "-1"], ("LogVol", "--cachemode"): ["weird"],
    ("Network", "--bridgeopts"): ["stp", "stp=", "a=b=c"], ("Network", "--interfacename"): ["vlan.5", "vlan", "vlanx", "a.b", "x.5000", "vlan4096"],
    ("OSTreeSetup", "--url"): ["ftp://h/r"], ("VolGroup", "--reserved-percent"): ["0", "100"], ("VolGroup", "--reserved-space"): ["-1"],
    ("Raid", "--device"): ["mdx", "root"], ("RHSM", "--activation-key"): [""], ("Upgrade", "--root-device"): [""], ("Install", "--root-device"): [""],
    ("Bootloader", "--location"): ["everywhere"], ("Network", "--bootproto"): ["pigeon"], ("Network", "--bindto"): ["name"], ("Nvdimm", "--mode"): ["fsdax"],
    ("Snapshot", "--name"): [], ("Logging", "--level"): ["chatty"],
}

QUOTED = json.load(open(os.path.join(vlib.SPEC, "quoted.json")))
# unusual values, by type; those that need quotes only where the written file has quotes (or nothing is written)
ODD = {"str": ["", "x=y,z", "$x;y", "\u00e9t\u00e9", "UPPER", "--x", "0"], "int": ["0", "-1", "0012", "+5", "1000000"],
       "commaSplit": ["", "a,,b", " a , b", "x=y", "one,one", ",", "0"], "ksboolean": ["on", "off", "true", "False", "1", "0", "NO"],
       "mountpoint": ["/x/", "//x", "/a/../b", "swap", "none", "x/y", "/A"]}
SPECIAL = ["two words", "a#b", "it's", "b\\s", " #"]

def odd(fam, n, o, writing=False):
    """Unusual values for option n."""
    if not takes(o) or o["ch"] or (fam, n) in GOOD:
        return []
    vs = [v for v in ODD.get(o["type"], []) if not writing or v not in ("", "-1", "0")]
    if o["type"] in ("str", "commaSplit"):
        if not writing or n in QUOTED["any"][fam]:
            return vs + SPECIAL
        if n in QUOTED["quoted"][fam]:
            return vs + [v for v in SPECIAL if fam != "Keyboard" or not set(v) & set("'\\")]
        if n in QUOTED["hash"][fam]:
            return vs + ["a#b"]
    return vs

# unusual words, by family: position -> words
ODDWORDS = {"Partition": {0: ["swap", "raid.1", "pv.01", "biosboot", "btrfs.2", "/x/", "/a/../b", "//u", "PV.1"]}, "LogVol": {0: ["swap", "none", "/x/", "/a/./b"]},
            "Raid": {0: ["swap", "pv.01", "/x//y", "btrfs.1"], 1: ["raid.9"]}, "BTRFS": {0: ["none", "/x/", "btrfs.3"], 1: ["LABEL=x"]},
            "Mount": {0: ["UUID=x"], 1: ["None", "NONE", "/x/", "swap", "x"]}, "VolGroup": {0: ["VG"]}, "Timezone": {0: ["UTC", "America/Port-au-Prince"]},
            "Snapshot": {0: ["a/b/c", "/b", "a/", "a", "A/b"]}, "Key": {0: ["0"]}, "Nvdimm": {0: ["USE", "other"]}}

def oddwords(c, p, writing=False):
    """Variations of the words p of a line."""
    if c["fam"] in ("Authconfig", "Authselect", "DeviceProbe", "Realm", "ZeroMbr"):
        return
    for i in range(len(p)):
        at = "@%d" % (i + 1)
        vs = ["x=y", "$x;y", "\u00e9"] + ODDWORDS.get(c["fam"], {}).get(i, [])
        if not writing:
            vs = vs + ["", "two words", "a#b", "it's"]
        elif at in QUOTED["quoted"][c["fam"]]:
            vs = vs + ["two words", "a#b", "it's"]
        elif at in QUOTED["hash"][c["fam"]]:
            vs = vs + ["a#b", "#"]
        for v in vs:
            q = list(p)
            q[i] = v
            yield q

# options that have a meaning only together with others
_CRYPT = {n: [("--encrypted", None)] for n in ("--passphrase", "--escrowcert", "--cipher", "--luks-version", "--pbkdf", "--pbkdf-memory", "--pbkdf-time", "--pbkdf-iterations")}
_CRYPT["--backuppassphrase"] = [("--encrypted", None), ("--escrowcert", "http://c")]
_CACHE = [("--cachesize", "10"), ("--cachepvs", "pv.01")]
NEEDS = {"AutoPart": _CRYPT, "Partition": dict(_CRYPT, **{"--resize": [("--onpart", "sda1"), ("--size", "100")]}), "Raid": _CRYPT,
         "LogVol": dict(_CRYPT, **{"--poolname": [("--thin", None)], "--thin": [("--poolname", "pool")], "--cachesize": _CACHE, "--cachepvs": _CACHE, "--cachemode": _CACHE, "--chunksize": [("--thinpool", None)],
                                   "--metadatasize": [("--thinpool", None)], "--profile": [("--thinpool", None)], "--resize": [("--useexisting", None), ("--size", "100")]}),
         "Network": {"--bridgeopts": [("--bridgeslaves", "eth1,eth2")], "--bindto": [("--bondopts", "mode=1"), ("--vlanid", "7")], "--interfacename": [("--vlanid", "7")],
                     "--bondopts": [("--bondslaves", "a,b")], "--teamconfig": [("--teamslaves", "a,b")]},
         "Logging": {"--port": [("--host", "h")]}, "Vnc": {"--port": [("--host", "h")]}, "Mount": {"--mkfsoptions": [("--reformat", None)]}, "BTRFS": {"--name": [("--subvol", None)], "--parent": [("--subvol", None), ("--name", "n")]},
         "ClearPart": {n: [("--all", None)] for n in ("--drives", "--disklabel", "--initlabel", "--list", "--cdl")}, "User": {"--iscrypted": [("--password", "pw")]},
         "Firewall": {n: [("--enabled", None)] for n in ("--http", "--ssh", "--ftp", "--smtp", "--telnet", "--port", "--service", "--trust", "--remove-service")},
         "Keyboard": {"--switch": [("--xlayouts", "us,cz")]}, "DriverDisk": {"--type": []}}

def needs(c, opts):
    """The options with those that they need."""
    have = dict(opts)
    more = []
    for n, _v in opts:
        for m, v in NEEDS.get(c["fam"], {}).get(n, []):
            if m in c["opt"] and m not in have:
                have[m] = v
                more.append((m, v))
    return list(opts) + more

def union():
    fam = {}
    for c in G["classes"].values():
        if c["kind"] == "active":
            for n, o in c["opt"].items():
                fam.setdefault(c["fam"], {}).setdefault(n, [])
                if o not in fam[c["fam"]][n]:
                    fam[c["fam"]][n].append(o)
    return fam
UNION = union()
CMDS = sorted({c for v in G["versions"].values() for c in v})
FAMCMD = {}
for _v in ORDER:
    for _c, _k in G["versions"][_v].items():
        FAMCMD.setdefault(G["classes"][_k]["fam"], set()).add(_c)

def takes(o):
    return o["act"] in ("store", "append", "extend")

def good(fam, n, o=None):
    """Values to give option n; None: no value."""
    os_ = [o] if o else UNION.get(fam, {}).get(n, [])
    if (fam, n) in GOOD:
        vs = GOOD[(fam, n)]
        if o is not None:
            if not takes(o):
                return [None]
            vs = [v for v in vs if v is not None or o["nargs"] == "?"] or (BYTYPE["str"])
            vs = vs + [v for v in o["ch"] if v not in vs]
        return vs
    if os_ and not takes(os_[0]):
        return [None]
    if os_ and os_[0]["ch"]:
        return list(os_[0]["ch"])
    return BYTYPE[os_[0]["type"]] if os_ else [None]

class Gen(object):
    def __init__(self, seed):
        self.v = cmddrv.Values()
        self.rnd = random.Random(seed)
        self.sessions = []

    def line(self, cmd, ln, opts, pos, place="front", sep="="):
        if cmd in ("mount", "xconfig") or cmd == "sshpw" and place == "split":
            place = "front"         # an option whose value is optional takes the next word; words of one argument stay together
        return {"op": "line", "l": {"cmd": cmd, "ln": ln, "opts": [{"n": n, "v": 0 if x is None else self.v(x)} for n, x in opts],
                                    "pos": [self.v(p) for p in pos], "place": place, "sep": sep}}

    def add(self, ver, lines, write=False, watch=True):
        ops = list(lines)
        if write:
            ops.append({"op": "str"})
        self.sessions.append({"ver": ver, "ops": ops, "watch": watch})

def bases(c):
    """Base lines usable with class c (its options exist there)."""
    bs = BASE.get(c["fam"], [([], [])])
    ok = [b for b in bs if all(n in c["opt"] for n, _x in b[0])]
    if c["fam"] == "Device":
        ok = [b for b in ok if len(b[1]) == (1 if c["list"] else 2)]
    return ok or bs[:1]

def anybase(cmd):
    """Some line for a command that may not exist in the version at hand."""
    for ver in reversed(ORDER):
        k = G["versions"][ver].get(cmd)
        if k:
            return BASE.get(G["classes"][k]["fam"], [([], [])])[0]
    return ([], [])

# what identifies an entry, for repeated lines: family -> option or position
IDENT = {"BTRFS": [0], "Device": [0], "DmRaid": ["--name", "--dev"], "Fcoe": ["--nic"], "Group": ["--name"], "LogVol": ["--name", "--vgname", 0], "Network": ["--device"],
         "Nvdimm": ["--namespace"], "Partition": [0], "Raid": ["--device", 0], "Repo": ["--name"], "SshKey": ["--username"], "SshPw": ["--username"], "User": ["--name"],
         "VolGroup": [0], "ZFCP": ["--devnum", "--wwpn", "--fcplun", "--scsiid"], "MultiPath": ["--name", "--device"], "Iscsi": ["--ipaddr"], "Mount": [0, 1], "Snapshot": ["--name", 0],
         "DriverDisk": [0], "Module": ["--name"]}
OTHER = {"--device": ["md7", "eth9"], 0: ["/other", "other"], "--namespace": ["ns9"]}

def variants(g, c):
    """Lines of one command that agree or differ in what identifies an entry."""
    out = []
    bs = bases(c)
    o, p = bs[0]
    out.append((o, p))
    names = [n for n in sorted(c["opt"]) if n not in dict(o) and n not in IDENT.get(c["fam"], [])]
    g.rnd.shuffle(names)
    # the same entry with other settings
    out.append((o + [(n, g.rnd.choice(good(c["fam"], n, c["opt"][n]))) for n in names[:1]], p))
    for i in IDENT.get(c["fam"], []):
        if i in (0, 1):
            if len(p) > i:
                q = list(p)
                q[i] = "/other" if p[i].startswith("/") else "other"
                out.append((o, q))
        else:
            val = {"--device": "/dev/sdq" if c["fam"] == "MultiPath" else "md7" if c["fam"] == "Raid" else "eth9"}.get(i, "other")
            if i in c["opt"]:
                out.append(([x for x in o if x[0] != i] + [(i, val)], p))
    for b in bs[1:]:
        out.append(b)
    out.append((o + [(n, g.rnd.choice(good(c["fam"], n, c["opt"][n]))) for n in names[1:4]], p))
    if not c["list"]:
        for n in names[:4]:
            out.append((o + [(n, g.rnd.choice(good(c["fam"], n, c["opt"][n])))], p))
    return out
