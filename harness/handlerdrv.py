"""Drives handlers (registry, dispatch, reset, mask, updates, write) through sessions of Trace_KsHandler."""
import json, multiprocessing, os, random, signal, sys
import vlib
import parserdrv as D
import cmddrv

G = cmddrv.GRAMMAR
# recorder classes of the harness: write priority, or None
RECS = {"RecA": 5, "RecB": 5, "RecM": 7, "RecN": None, "RecZ": 1}
# lines that are accepted wherever the command is not deprecated or removed
LINES = {
 "autostep": [], "bootloader": ["--location=mbr"], "cdrom": [], "clearpart": ["--all"], "deviceprobe": ["x"],
 "driverdisk": ["sdb1"], "eula": ["--agreed"], "fcoe": ["--nic=eth0"], "firewall": ["--enabled"], "firstboot": ["--disable"], "graphical": [], "text": [], "cmdline": [],
 "group": ["--name=g"], "halt": [], "reboot": [], "poweroff": [], "shutdown": [], "ignoredisk": ["--drives=sda"], "keyboard": ["us"], "lang": ["en_US"],
 "logging": ["--host=h"], "logvol": ["/", "--vgname=v", "--name=n", "--size=9"], "mediacheck": [], "network": ["--device=eth0"], "part": ["/", "--size=9"], "partition": ["/b", "--size=9"],
 "raid": ["/r", "--device=1", "--level=1", "raid.1", "raid.2"], "repo": ["--name=r", "--baseurl=http://h"], "rootpw": ["x"], "selinux": ["--permissive"], "services": ["--enabled=a"], "skipx": [],
 "timezone": ["UTC"], "user": ["--name=u"], "volgroup": ["v", "pv.1"], "xconfig": ["--startxonboot"], "zerombr": [], "vnc": [], "updates": ["http://h/u"],
 "sshkey": ["--username=u", "k"], "module": ["--name=m"], "nvdimm": ["use", "--namespace=n"],
 "auth": ["--enableshadow"], "authconfig": ["--useshadow"], "authselect": ["select", "x"], "install": [], "hmc": [], "timesource": ["--ntp-disable"], "sshpw": ["--username=u", "p"], "rescue": []}

# commands that do not look at others
ALONE = {"autostep", "firstboot", "halt", "reboot", "poweroff", "shutdown", "lang", "keyboard", "skipx", "selinux", "mediacheck", "text", "graphical", "cmdline", "timezone", "zerombr",
         "rootpw", "vnc", "auth", "authconfig", "xconfig", "logging"}

class Impl(object):
    def __init__(self):
        import pykickstart.version, pykickstart.base, pykickstart.errors, pykickstart.parser
        self.pk = pykickstart
        base, err = pykickstart.base, pykickstart.errors.KickstartParseError
        def make(name, prio):
            class Rec(base.KickstartCommand):
                def __init__(self, writePriority=prio, *a, **k):
                    base.KickstartCommand.__init__(self, writePriority, *a, **k)
                    self.log = []
                def parse(self, args):
                    if "bad" in args:
                        raise err("no", lineno=self.lineno)
                    self.log.append(list(args))
                    return self
                def __str__(self):
                    return "".join("%s %s\n" % (name, " ".join(a)) for a in self.log)
            Rec.__name__ = name
            return Rec
        self.recs = {n: make(n, p) for n, p in RECS.items()}
        class MineData(base.BaseData):
            removedKeywords, removedAttrs = [], []
        self.mydata = MineData
        self.initial = {}

    def fresh(self, ver):
        """Initial attributes and data classes of a release, taken before anything else happened."""
        if ver not in self.initial:
            h = self.pk.version.makeVersion(ver)
            from pykickstart.handlers.control import dataMap
            v = self.pk.version.stringToVersion(ver)
            self.initial[ver] = ({n: snap(o) for n, o in h.commands.items()}, {d: c.__name__ for d, c in dataMap[v].items()})
        return self.initial[ver]

    def new(self, op):
        vclass = self.pk.version.returnClassForVersion(op["ver"])
        if op["kind"] == "custom":
            return vclass(mapping={n: self.recs[c] for n, c in op["map"].items()})
        kw = {}
        if op["upd"]:
            kw["commandUpdates"] = {n: self.recs[c] for n, c in op["upd"].items()}
        if op["dupd"]:
            kw["dataUpdates"] = {n: self.mydata for n in op["dupd"]}
        return vclass(**kw)

    def observe(self, h, ver, watch):
        init, dnames = self.fresh(ver)
        cmds = h.commands
        parts, masked, seen, dirty, attr, used, amb = {}, [], [], [], [], {}, []
        an = lambda cls: cls.split("_", 1)[1].lower() if "_" in cls else cls.lower()
        owners = {}                   # attribute -> objects that would have it
        for o in cmds.values():
            if o is not None:
                owners.setdefault(an(type(o).__name__), set()).add(id(o))
        for n in watch:
            o = cmds.get(n)
            if o is None:
                masked.append(n)
                continue
            parts.setdefault(id(o), []).append(n)
            if o.seen:
                seen.append(n)
            cls = type(o).__name__
            if cls in RECS:
                used[n] = [" ".join(x) for x in o.log]
            else:
                used[n] = []
                if snap(o) != init.get(n):
                    dirty.append(n)
            if len(owners[an(cls)]) > 1:
                amb.append(n)
            elif getattr(h, an(cls), None) is o:
                attr.append(n)
        return {"names": len(cmds), "parts": list(parts.values()), "masked": masked, "seen": seen, "dirty": dirty, "attr": attr, "amb": amb, "used": used,
                "data": {d: getattr(h, d).__name__ if isinstance(getattr(h, d, None), type) else "?" for d in list(dnames) + ["NewData"] if hasattr(h, d)}}

    def write(self, h):
        text = str(h)
        body = "".join(l for l in text.splitlines(True) if not (l.startswith("#version=") or l.startswith("# Generated") or l.startswith("#platform=")))
        rec = [l.strip() for l in body.splitlines() if l.split() and l.split()[0] in RECS]
        objs = {id(o): o for o in h.commands.values() if o is not None}
        segs, want = [], []
        for o in objs.values():
            if o.writePriority is not None:
                want.append((o.writePriority, type(o).__name__, str(o)))
        rank = {c: i for i, c in enumerate(sorted({w[1] for w in want}))}
        pos = 0
        # cut the text into what the objects write, in the order found
        rest, left = body, [w for w in want if w[2]]
        while rest and left:
            m = [w for w in left if rest.startswith(w[2])]
            if not m:
                break
            m = [max(m, key=lambda w: len(w[2]))] if len({w[2] for w in m}) > 1 else [min(m)]
            segs.append([m[0][0], rank[m[0][1]]])
            rest = rest[len(m[0][2]):]
            left.remove(m[0])
        return {"rec": rec, "segs": segs, "left": sorted(w[1] for w in left), "rest": rest[:80]}

    def run(self, ses):
        hs, out = [], []
        for op in ses["ops"]:
            o = {"exc": "none", "text": ""}
            try:
                if op["op"] == "new":
                    hs.append((self.new(op), op["ver"], op["watch"]))
                else:
                    h = hs[op["h"] - 1][0]
                    if op["op"] == "line":
                        h.dispatcher([op["n"]] + op["a"], 7)
                    elif op["op"] == "reset":
                        h.resetCommand(op["n"])
                    elif op["op"] == "mask":
                        h.maskAllExcept(list(op["keep"]))
            except self.pk.errors.KickstartParseError as e:
                o["exc"], o["text"] = "parse", str(e)[:100]
            except KeyError:
                o["exc"] = "key"
            except Exception as e:          # pylint: disable=broad-except
                o["exc"], o["text"] = "other", "%s: %s" % (type(e).__name__, str(e)[:150])
            try:
                if op["op"] == "write":
                    o["w"] = self.write(hs[op["h"] - 1][0])
                o["hs"] = [self.observe(h, v, w) for h, v, w in hs]
            except Exception as e:          # pylint: disable=broad-except
                o.update({"exc": "broken", "text": repr(e)[:200], "hs": [], "w": {"rec": [], "segs": [], "left": [], "rest": ""}})
            out.append(o)
        return out

def snap(o):
    def val(v, depth=0):
        if isinstance(v, (list, tuple)):
            return [val(x, depth + 1) for x in v]
        if isinstance(v, dict):
            return sorted((str(k), val(x, depth + 1)) for k, x in v.items())
        if hasattr(v, "__dict__") and depth < 3 and type(v).__module__.startswith("pykickstart.commands"):
            return sorted((k, val(x, depth + 1)) for k, x in vars(v).items() if k not in cmddrv.HIDE)
        return repr(v) if isinstance(v, (str, int, bool, type(None), bytes, float)) else type(v).__name__
    return sorted((k, val(v)) for k, v in vars(o).items() if k not in cmddrv.HIDE)

def _worker(job):
    signal.signal(signal.SIGALRM, D._alarm)
    import warnings
    warnings.simplefilter("ignore")
    impl, res = Impl(), []
    for ses in job:
        try:
            vlib.timer(30)
            res.append(impl.run(ses))
        except (Exception, D.Hang) as e:          # pylint: disable=broad-except
            res.append([{"crash": repr(e)}])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return res

# ------------------------------------------------------------------ generators
def data_names(ver):
    import pykickstart.version as V
    from pykickstart.handlers.control import dataMap
    return {d: c.__name__ for d, c in dataMap[V.stringToVersion(ver)].items()}

CNAMES = ["c1", "c2", "c3", "c4", "c5", "c6"]
def custom_map(rng):
    k = rng.randint(2, 6)
    return {n: rng.choice(sorted(RECS)) for n in CNAMES[:k]}

def usable(ver, n):
    c = G["classes"].get(G["versions"][ver].get(n, ""), {})
    return c.get("kind") == "active"

def session(rng):
    ops, hs = [], []
    total = rng.randint(4, 11)
    while len(ops) < total:
        x = rng.random()
        if not hs or (len(hs) < 3 and x < .15):
            kind = rng.choice(["custom", "custom", "real", "real"])
            ver = rng.choice(cmddrv.GRAMMAR["order"]) if not hs or rng.random() < .6 else hs[0]["ver"]
            upd, dupd = {}, []
            if kind == "custom":
                m = custom_map(rng)
                watch = sorted(m)
            else:
                m = dict(G["versions"][ver])
                names = sorted(m)
                alias = [n for n in names if sum(1 for y in names if m[y] == m[n]) > 1]
                good = [n for n in LINES if usable(ver, n)]
                if rng.random() < .4:
                    for n in rng.sample(names, rng.randint(1, 2)) + (["brandnew"] if rng.random() < .3 else []):
                        upd[n] = rng.choice(sorted(RECS))
                if rng.random() < .3:
                    dupd = rng.sample(sorted(data_names(ver)), 1) + (["NewData"] if rng.random() < .3 else [])
                m.update(upd)
                watch = sorted(set(rng.sample(alias, min(5, len(alias))) + rng.sample(good, min(8, len(good))) + rng.sample(names, 2) + list(upd)))
            data = data_names(ver)
            data.update({d: "MineData" for d in dupd})
            o = {"op": "new", "kind": kind, "ver": ver, "map": m, "upd": upd, "dupd": dupd, "watch": watch, "data": data}
            hs.append(o)
            ops.append(o)
            continue
        k = rng.randrange(len(hs))
        H = hs[k]
        n = rng.choice(H["watch"])
        if x < .6:
            words, r = None, "ok"
            if H["map"].get(n) in RECS:
                words = [rng.choice(["x", "y"])] + (["bad"] if rng.random() < .15 else [])
                r = "bad" if "bad" in words else "ok"
            elif n in LINES and usable(H["ver"], n) and (not (H["upd"] or H["dupd"]) or n in ALONE):
                words = LINES[n]
            if words is None or rng.random() < .08:
                n, words, r = rng.choice(["nosuch", "LANG", "lang ", ""]), ["x"], "ok"
            ops.append({"op": "line", "h": k + 1, "n": n, "a": words, "r": r})
        elif x < .78:
            ops.append({"op": "reset", "h": k + 1, "n": n if rng.random() < .93 else "nosuch"})
        elif x < .84:
            keep = rng.sample(H["watch"], rng.randint(0, min(3, len(H["watch"]))))
            ops.append({"op": "mask", "h": k + 1, "keep": keep})
        else:
            ops.append({"op": "write", "h": k + 1})
    ops.append({"op": "write", "h": rng.randint(1, len(hs))})
    return {"ops": ops}

def run_all(sessions):
    n = vlib.WORKERS
    size = max(1, min(200, (len(sessions) + n - 1) // n))
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return [o for part in pool.map(_worker, [sessions[i:i + size] for i in range(0, len(sessions), size)]) for o in part]
