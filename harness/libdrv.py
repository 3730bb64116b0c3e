"""Drives the library with all its real commands through sessions of Trace_KsLibrary."""
import contextlib, io, json, multiprocessing, os, random, re, shutil, signal, sys, warnings
import vlib, cmddrv, tooldrv as T
import parserdrv as P
from gencmd import G

class World(object):
    def __init__(self):
        self.root = vlib.scratch()
        self.w = os.path.join(self.root, "w")
        self.impl = P.Impl()
        shutil.rmtree(self.impl.root, ignore_errors=True)
        self.impl.root, self.impl.w = self.root, self.w

    def new(self, op):
        from pykickstart.version import makeVersion
        from pykickstart.parser import KickstartParser
        h = makeVersion(op["ver"])
        p = KickstartParser(h, followIncludes=op["follow"], errorsAreFatal=op["fatal"], missingIncludeIsFatal=op["missfatal"], unknownSectionIsFatal=op["unkfatal"])
        return h, p, op["ver"]

    def state(self, x):
        h, p, ver = x
        o = {"broken": "", "set": [], "scripts": [], "pkgs": [], "pkgseen": False, "platform": "", "errs": 0}
        try:
            done = set()
            row = G["versions"][ver]
            for cmd in sorted(row):
                key, obj = row[cmd], h.commands[cmd]
                g = G["classes"][key]
                if obj is None or key in done or g["fam"] == "Method":
                    continue
                done.add(key)
                r = {"key": key, "seen": bool(obj.seen), "ln": obj.lineno if isinstance(obj.lineno, int) else -1, "a": {}, "l": [], "lns": []}
                if g["kind"] == "active":
                    r.update(cmddrv.full(obj, g))
                    r["lns"] = [e.lineno if isinstance(getattr(e, "lineno", None), int) else -1 for e in (obj.dataList() or [])] if g["list"] else []
                if r["seen"] or r["ln"] or r["a"] or r["l"]:
                    o["set"].append(r)
            o["scripts"] = self.impl.scripts(h)
            o["pkgs"] = list(h.packages.packageList)
            o["pkgseen"] = bool(h.packages.seen)
            o["platform"] = h.platform
            o["errs"] = p.errorsCount
        except Exception as e:                       # pylint: disable=broad-except
            o["broken"] = repr(e)[:200]
        return o

    def clone(self, x):
        """A new handler, given the settings of this one by keyword."""
        import copy
        from pykickstart.version import makeVersion
        h, _p, ver = x
        n = makeVersion(ver)
        row, done = G["versions"][ver], set()
        for cmd in sorted(row):
            key, obj = row[cmd], h.commands[cmd]
            g = G["classes"][key]
            if obj is None or key in done or g["fam"] == "Method" or g["kind"] != "active" or not obj.seen:
                continue
            done.add(key)
            if g["list"]:
                made = []
                for e in obj.dataList():
                    made.append(type(e)(**{a: copy.deepcopy(getattr(e, a)) for a in g["data"]}))
                n.commands[cmd].dataList().extend(made)
            n.commands[cmd](**{a: copy.deepcopy(getattr(obj, a)) for a in g["attrs"] if a != "keyboard0"})
        return n

    def run(self, ses):
        from pykickstart import errors as E
        self.impl.lay(ses["files"])
        hs, last = [], []
        for op in ses["ops"]:
            o = {"exc": "none", "ln": 0, "msg": True, "bad": [], "warned": False}
            me = None
            if op["op"] == "new":
                hs.append(self.new(op))
                last.append(None)
                me = len(hs) - 1
            else:
                me = op["h"] - 1
                h, p, ver = hs[me]
                if op["op"] == "read":
                    if op["top"].startswith("str:"):
                        text = ses["files"][op["top"]].replace("@W@", self.w)
                        fn = lambda: p.readKickstartFromString(text)         # pylint: disable=cell-var-from-loop
                    else:
                        fn = lambda: p.readKickstart(self.impl.real(op["top"]))
                elif op["op"] == "reset":
                    fn = lambda: h.resetCommand(op["n"])
                elif op["op"] == "clone":
                    res = {}
                    def fn():
                        res["n"] = self.clone(hs[me])
                        res["t"] = str(res["n"])
                elif op["op"] == "mask":
                    fn = lambda: h.maskAllExcept(list(op["keep"]))
                else:
                    res = {}
                    def fn():
                        res["t"] = str(h)
                        res["u"] = str(h)
                exc, err, ws = self.impl.guarded(fn)
                if exc is not None:
                    o["what"] = "%s: %s" % (type(exc).__name__, str(exc)[:200])
                    if isinstance(exc, E.KickstartParseError):
                        o["exc"], o["ln"] = "parse", exc.lineno if isinstance(exc.lineno, int) else -1
                        o["msg"] = re.search(r"(?<!\d)%d(?!\d)" % o["ln"], str(exc)) is not None
                    else:
                        o["exc"] = "kserr" if isinstance(exc, E.KickstartError) else "hang" if isinstance(exc, vlib.Hang) else "other"
                o["bad"] = [int(n) for n in re.findall(r"line (\d+)", err)]
                o["warned"] = any(issubclass(w.category, E.KickstartParseWarning) for w in ws)
                if op["op"] == "clone":
                    o.update(T.tokens(res.get("t", ""), ver))
                    o["raw"] = res.get("t", "")
                if op["op"] == "str":
                    t = res.get("t", "")
                    if exc is not None:
                        f = T.tokens("", ver)
                        f["fail"] = "writing failed: %s" % o["what"]
                    else:
                        f = T.tokens(t, ver)
                        f["again"] = True
                        if not f["fail"] and not f["sfail"]:
                            q = self.new({"ver": ver, "follow": False, "fatal": True, "missfatal": True, "unkfatal": False})
                            exc, _e, _w = self.impl.guarded(lambda: q[1].readKickstartFromString(t))
                            f["again"] = exc is None and cmddrv.bare(str(q[0])) == cmddrv.bare(t)
                    o.update(f)
                    o["same"] = res.get("u", "") == t
                    o["raw"] = t
            st = self.state(hs[me])
            if op["op"] == "clone":
                o["st"] = self.state((res["n"], hs[me][1], hs[me][2])) if "n" in res else st
                o["st"]["errs"] = 0
            elif op["op"] == "str":
                o["st"] = st
            else:
                o.update(st)
            o["others"] = []
            for k in range(len(hs)):
                if k != me:
                    now = self.state(hs[k])
                    if now != last[k]:
                        o["others"].append(k + 1)
                        last[k] = now
            last[me] = st
            op["obs"] = o
        return ses

def _worker(job):
    signal.signal(signal.SIGALRM, vlib.on_alarm)
    w, res = World(), []
    try:
        for ses in job:
            try:
                res.append(w.run(ses))
            except (Exception, vlib.Hang):               # pylint: disable=broad-except
                import traceback
                ses["crash"] = traceback.format_exc()[-600:]
                res.append(ses)
    finally:
        os.chdir("/")
        shutil.rmtree(w.root, ignore_errors=True)
    return res

DROP = ("what", "raw", "ends", "ver_", "log")
def judge(c, sessions, values):
    for s in sessions:
        for p in s["docs"]:
            s["docs"][p] = [l if l["t"].endswith("\n") else dict(l, t=l["t"] + "\n") for l in s["docs"][p]]
        s["files"] = {p: "".join(l["t"] for l in ls) for p, ls in s["docs"].items()}
    n = vlib.WORKERS
    size = max(1, min(100, (len(sessions) + n - 1) // n))
    with multiprocessing.get_context("fork").Pool(n) as pool:
        runs = [o for part in pool.map(_worker, [sessions[i:i + size] for i in range(0, len(sessions), size)]) for o in part]
    lines, index, rows, idx = [], {}, [], []
    def lid(rec):
        k = json.dumps(rec, sort_keys=True)
        if k not in index:
            lines.append(rec)
            index[k] = len(lines)
        return index[k]
    for k, s in enumerate(runs):
        if "crash" in s:
            c.violation("the harness could not complete a session: %s" % s["crash"][-200:], {"session": s["files"], "ops": s["ops"]})
            continue
        ops = []
        for op in s["ops"]:
            o = {a: b for a, b in op.items() if a != "obs"}
            o["obs"] = {a: b for a, b in op["obs"].items() if a not in DROP}
            ops.append(o)
        rows.append({"ops": ops, "files": {p: {"dir": os.path.dirname(p) if p.startswith("/") else "", "li": [lid(l) for l in ls]} for p, ls in s["docs"].items()}})
        idx.append(k)
    if not lines:
        lid(T.plain(P.blank()))
    fails, stats = vlib.judge_sessions("Trace_KsLibrary", rows, {"lines.ndjson": lines, "values.ndjson": values.rows or [cmddrv.fact("x")]})
    c.add(stats)
    for sid, opn, clause in fails:
        s = runs[idx[sid]]
        op = s["ops"][opn - 1]
        c.violation("real commands: %s" % clause[:300], {"files": {p: str(t) for p, t in s["files"].items()}, "ops": [{k: v for k, v in x.items() if k != "obs"} for x in s["ops"]],
                                         "failing": opn, "observed": op["obs"], "clause": clause}, key=re.sub(r"[^A-Za-z_ ].*", "", clause)[:60])
    for s in runs[:: max(1, len(runs) // 2)][:2]:
        c.sample({"files": {p: str(t) for p, t in s["files"].items()}, "ops": [{k: v for k, v in x.items() if k != "obs"} for x in s["ops"]]})
    return fails

# ------------------------------------------------------------------ generators
def newop(ver, fatal=True, follow=True, missfatal=True, unkfatal=True):
    return {"op": "new", "ver": ver, "new": ver not in T.OLD, "fatal": fatal, "follow": follow, "missfatal": missfatal, "unkfatal": unkfatal}

def anyver(rng, k):
    return T.ORDER[k % len(T.ORDER)] if k % 2 else rng.choice(["DEVEL", "F34", "RHEL8", "RHEL7", "F16", "F18", "FC6", "RHEL6"])

def topname(rng):
    return rng.choice(["str:a", "/w/a.ks", "/w/d/a.ks"])

def single(seed, n, size, wrong, flags, write=.5, twice=0.0):
    """One handler, one or two documents."""
    rng, L, ses = random.Random(seed), T.Lines(seed), []
    for k in range(n):
        ver, docs, ops = anyver(rng, k), {}, []
        ops.append(newop(ver, **flags(rng)))
        for j in range(2 if rng.random() < twice else 1):
            top = topname(rng).replace("a", "ab"[j])
            d = T.document(L, ver, "lib", rng.randint(*size), rng.choice(wrong), docs)
            docs[top] = d
            ops.append({"op": "read", "h": 1, "top": top})
        if rng.random() < write:
            ops.append({"op": "str", "h": 1})
        ses.append({"docs": docs, "ops": ops})
    return ses, L.g.v

def clones(seed, n):
    """Settings from command lines, made again by a program."""
    import checks_cmds, gencmd
    rng, L, ses = random.Random(seed), T.Lines(seed), []
    todo = [(ver, cmd) for ver in T.ORDER for cmd, _c in checks_cmds.active(ver)]
    for k in range(n):
        ver, cmd = todo[k % len(todo)] if k < len(todo) else rng.choice(todo)
        lines = []
        for j in range(rng.choice([1, 1, 2, 4])):
            c = checks_cmds.cls(ver, cmd)
            o, p = checks_cmds.combo(L.g, c, rng.randrange(0, 5))
            if not (j and ver in ("F16", "F17", "F18", "F19") and cmd == "autopart"):
                lines.append(L.render(cmd, [x for x in o if x[0] != "--nolinear"], p))
            cmd = rng.choice([m for v, m in todo if v == ver])
        ses.append({"docs": {"str:a": lines}, "ops": [newop(ver, fatal=False), {"op": "read", "h": 1, "top": "str:a"}, {"op": "clone", "h": 1}]})
    return ses, L.g.v

def histories(seed, n, control=.0):
    """Several handlers: create, read, reset, mask, write in any order."""
    rng, L, ses = random.Random(seed), T.Lines(seed), []
    for k in range(n):
        docs, ops, made, masked, plain = {}, [], [], set(), set()
        vers = [anyver(rng, k + j) for j in range(rng.choice([1, 2, 2, 3]))]
        if rng.random() < .3:
            vers = [vers[0]] * len(vers)
        for j in range(rng.randint(3, 8)):
            if not made or (len(made) < len(vers) and rng.random() < .4):
                made.append(vers[len(made)])
                ops.append(newop(made[-1], **P.rflags(rng, .3)))
                continue
            h = rng.randint(1, len(made))
            ver = made[h - 1]
            row = G["versions"][ver]
            x = rng.random()
            if x < control:
                names = [n for n in sorted(row) if G["classes"][row[n]]["fam"] != "Method"]
                if rng.random() < .7:
                    names = [n for n in names if (h, n) not in masked]
                    if names:
                        used = [l["c"]["cmd"] for d in docs.values() for l in d if l["c"]["cmd"] in names]
                        ops.append({"op": "reset", "h": h, "n": rng.choice(used or names)})
                else:
                    keep = [n for n in names if rng.random() < .7]
                    masked |= {(h, n) for n in row if n not in keep}
                    ops.append({"op": "mask", "h": h, "keep": keep})
            elif x < control + .2:
                ops.append({"op": "str", "h": h})
            else:
                # again: what is a good section header depends on the version
                old = [o["top"] for o in ops if o["op"] == "read" and (made[o["h"] - 1] == ver or o["top"] in plain)]
                if old and rng.random() < .2:
                    top = rng.choice(old)
                else:
                    top = "%s%d.ks" % (rng.choice(["str:", "/w/", "/w/d/"]), j)
                    dver = rng.choice(made) if rng.random() < .2 else ver      # sometimes a document of another version
                    docs[top] = T.document(L, dver, "lib", rng.randint(1, 5), rng.choice([0, .1, .3]), docs)
                    if (dver in T.OLD) != (ver in T.OLD) or dver != ver:
                        docs[top] = [l for l in docs[top] if l["k"] == "cmd"]
                        plain.add(top)
                ops.append({"op": "read", "h": h, "top": top})
        ses.append({"docs": docs, "ops": ops})
    return ses, L.g.v
