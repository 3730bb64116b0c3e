"""Drives the real KickstartParser through sessions of the KsParser specification and records what it does."""
import io, itertools, json, multiprocessing, os, random, re, shlex, shutil, signal, sys, warnings
import vlib

NEWV = ["F8", "F9", "RHEL6", "F20", "F34", "RHEL8", "F13", "RHEL7", "DEVEL"]
OLDV = ["FC3", "FC6", "RHEL5", "F7", "RHEL3", "RHEL4", "FC4"]
SCRIPT_TAGS = ["%pre", "%pre-install", "%post", "%onerror", "%traceback"]
FIXED_TAGS = SCRIPT_TAGS + ["%addon", "%anaconda", "%rec", "%recall", "%packages"]

Hang, _alarm = vlib.Hang, vlib.on_alarm

# ------------------------------------------------------------------ lines
DEFOPT = {"interp": "/bin/sh", "log": "", "err": False, "nochroot": False}

def mk(k, t, n="", a=(), q=False, r="ok", o=None, p="", pk=None, ref="", ab=False):
    bl = t.strip() == ""
    if pk is None:
        pk = t.partition("#")[0].strip()
    return {"k": k, "t": t, "n": n, "a": list(a), "q": q, "bl": bl, "r": r, "o": o or dict(DEFOPT),
            "p": p, "pk": pk, "ref": ref, "ab": ab}

def blank(t="\n"): return mk("blank", t)
def comment(t="# note\n", p=""): return mk("comment", t, p=p)
def cmd(name, args, text=None, r="ok", nl="\n"):
    return mk("cmd", (text if text is not None else " ".join([name] + list(args))) + nl, name, args, r=r)
def quote(text, k="cmd", n="cmda"): return mk(k, text, n, q=True)
def tag(name, args=(), text=None, r="ok", **o):
    oo = dict(DEFOPT); oo.update(o)
    return mk("tag", (text if text is not None else " ".join([name] + list(args))) + "\n", name, args, r=r, o=oo)
def end(t="%end\n"): return mk("end", t, "%end", t.split("#")[0].split()[1:])
def inc(ref, text=None):
    return mk("inc", (text or "%%include %s" % ref.replace("/w/", "@W@/")) + "\n", "%include",
              [ref] if ref else [], ref=ref, ab=ref.startswith("/"))

V_BLANK = [blank(), blank("  \t\n")]
V_COMMENT = [comment(), comment("   # %end in a comment\n"), comment("#! /bin/sh 'tis\n"),
             comment("#platform=x86 AMD64\n", p="x86 AMD64"), comment("#platform=  ppc\n", p="ppc"),
             comment("# platform=no\n")]
V_OK = [cmd("cmda", ["x"]), cmd("cmdb", ["--opt=1", "y"]), cmd("cmda", []),
        cmd("cmdb", ["a b", "c"], "cmdb \"a b\" 'c'"), cmd("lang2", ["v"], "  lang2 v   # trailing"),
        cmd("cmda", ["", "z"], "cmda '' z"), cmd("cmda", ["p"], "'cmda' p"),
        cmd("lang2", ["a%end"], "lang2 a%end"), cmd("cmdb", ["ä", "日本"], "cmdb ä 日本")]
V_BAD = [cmd("cmda", ["bad"], r="bad"), cmd("cmdb", ["q", "bad"], r="bad")]
V_BOOM = [cmd("cmda", ["boom"], r="boom")]
V_UNK = [cmd("nosuch", ["x"]), cmd("word", []), cmd("CMDA", ["x"]), cmd("", [], "''"), cmd("", ["y"], "\"\" y"),
         cmd("cmd", ["x"])]
V_QUOTE = [quote("cmda \"x\n"), quote("it's here\n", n="its")]
V_QTAG = [quote("%pre 'x\n", "tag", "%pre"), quote("%end 'x\n", "end", "%end"), quote("%include \"x\n", "inc", "%include")]
V_TEXT = [cmd("echo", ["hello"]), cmd("%%", [], "%%"), cmd("x%end", [], "x%end")]
V_TEXT = [V_TEXT[0], V_TEXT[2]]
V_SCRIPT = [tag("%pre"), tag("%post"), tag("%pre-install"), tag("%onerror"), tag("%traceback")]
V_SCRIPT_OPT = [tag("%pre", ["--interpreter=/usr/bin/python"], interp="/usr/bin/python"),
                tag("%post", ["--nochroot"], nochroot=True),
                tag("%post", ["--log", "/l", "--erroronfail"], log="/l", err=True),
                tag("%pre-install", ["--logfile=/a b"], "%pre-install --logfile='/a b'", log="/a b"),
                tag("%post", ["--interpreter", "/usr/bin/env x"], "%post --interpreter \"/usr/bin/env x\"", interp="/usr/bin/env x"),
                tag("%pre", [], "  %pre  # c")]
V_SCRIPT_BAD = [tag("%pre", ["--bogus"], r="bad"), tag("%post", ["--interpreter"], r="bad"), tag("%pre", ["stray"], r="bad")]
V_PKG = [tag("%packages"), tag("%packages", [], "%packages # c")]
V_PKG_BAD = [tag("%packages", ["--bogus"], r="bad")]
V_NULL = [tag("%addon", ["org_x", "--y"]), tag("%addon"), tag("%anaconda"), tag("%addon", ["a b", "c"], "%addon 'a b' c")]
V_REC = [tag("%rec", ["w"]), tag("%recall"), tag("%rec")]
V_ZZZ = [tag("%zzz"), tag("%zzz", ["k"]), tag("%end-of", ["k"]), tag("%preX"), tag("%yy", ["'"], "%yy \"'\"")]
V_END = [end(), end("%end # done\n"), end("   %end\n")]
V_KSA = [mk("ksa", "%ksappend /nowhere\n", "%ksappend", ["/nowhere"])]
V_NOPKG = [mk("cmd", "-\n", "-", pk=""), mk("cmd", "@ # none\n", "@", pk="")]

CLASSES = [V_BLANK, V_COMMENT, V_OK, V_BAD, V_BOOM, V_UNK, V_QUOTE, V_SCRIPT, V_SCRIPT_OPT, V_SCRIPT_BAD, V_PKG,
           V_PKG_BAD, V_NULL, V_REC, V_ZZZ, V_END]


def pick(rng, *classes):
    return rng.choice(rng.choice(classes))

# ------------------------------------------------------------------ running the implementation
class Impl(object):
    """One scratch world; runs sessions."""
    def __init__(self):
        import pykickstart.parser, pykickstart.version, pykickstart.base, pykickstart.sections, pykickstart.errors, pykickstart.options
        self.pk = pykickstart
        self.root = vlib.scratch()
        self.w = os.path.join(self.root, "w")
        self.hcls = {}

    def handler(self, ver):
        base = self.pk.base
        err = self.pk.errors.KickstartParseError
        if ver not in self.hcls:
            vclass = self.pk.version.returnClassForVersion(ver)
            class RecCmd(base.KickstartCommand):
                def __init__(self, *a, **k):
                    base.KickstartCommand.__init__(self, *a, **k)
                    self.log = []
                def parse(self, args):
                    if "bad" in args:
                        raise err("rejected! %s" % self.currentCmd, lineno=self.lineno)
                    if "boom" in args:
                        raise RuntimeError("rejected! with another exception")
                    self.log.append((self.currentCmd, list(args), self.lineno))
                    return self
                def __str__(self):
                    return "".join(" ".join(shlex.quote(x) for x in [n] + a) + "\n" for n, a, _l in self.log)
            self.hcls[ver] = (vclass, RecCmd)
        vclass, RecCmd = self.hcls[ver]
        return vclass(mapping={"cmda": RecCmd, "cmdb": RecCmd, "lang2": RecCmd})

    def parser(self, ver, fl):
        h = self.handler(ver)
        p = self.pk.parser.KickstartParser(h, followIncludes=fl["follow"], errorsAreFatal=fl["fatal"],
                 missingIncludeIsFatal=fl["missfatal"], unknownSectionIsFatal=fl["unkfatal"])
        recs = []
        class Rec(self.pk.sections.Section):
            def __init__(self, handler, opn, alll):
                super().__init__(handler)
                self.sectionOpen, self.allLines = opn, alll
                self.cur = None
            def handleHeader(self, lineno, args):
                super().handleHeader(lineno, args)
                self.cur = {"tag": self.sectionOpen, "ln": lineno, "args": list(args[1:]), "body": ""}
            def handleLine(self, line):
                self.cur["body"] += line
            def finalize(self):
                recs.append(self.cur)
                self.cur = None
        p.registerSection(Rec(h, "%rec", False))
        p.registerSection(Rec(h, "%recall", True))
        return p, recs

    def lay(self, files):
        if os.path.isdir(self.w):
            shutil.rmtree(self.w)
        os.makedirs(self.w)
        for path, text in files.items():
            if path.startswith("/w/"):
                rp = self.real(path)
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "wb") as f:
                    f.write(text.replace("@W@", self.w).encode("utf-8"))
        os.chdir(self.w)

    def real(self, path):
        return os.path.join(self.root, path.lstrip("/"))

    def guarded(self, fn):
        """(exception or None, stderr text, warnings)"""
        errio = io.StringIO()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            old, sys.stderr = sys.stderr, errio
            vlib.timer(5)
            exc = None
            try:
                fn()
            except Hang:
                exc = Hang()
            except Exception as e:          # pylint: disable=broad-except
                exc = e
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.stderr = old
        return exc, errio.getvalue(), ws

    def run(self, ses):
        """ses: {"files": {path: text}, "ops": [...]} ; returns the list of observations (None for new)."""
        self.lay(ses["files"])
        parsers, out = [], []
        for op in ses["ops"]:
            if op["op"] == "new":
                parsers.append(self.parser(op["ver"], op) + (op["ver"], [0], [""]))
                out.append(None)
            elif op["op"] == "read":
                p, recs, ver, _n, acc = parsers[op["p"] - 1]
                if op["top"].startswith("str:"):
                    text = ses["files"][op["top"]].replace("@W@", self.w)
                    exc, err, ws = self.guarded(lambda: p.readKickstartFromString(text))
                else:
                    exc, err, ws = self.guarded(lambda: p.readKickstart(self.real(op["top"])))
                acc[0] += err
                out.append(self.observe(p, recs, exc, acc[0], ws, parsers[op["p"] - 1]))
            else:
                p, recs, ver, _n, _a = parsers[op["p"] - 1]
                out.append(self.written(p, ver))
        return out

    def scripts(self, h):
        c = self.pk.constants
        names = {c.KS_SCRIPT_PRE: "%pre", c.KS_SCRIPT_POST: "%post", c.KS_SCRIPT_PREINSTALL: "%pre-install",
                 c.KS_SCRIPT_ONERROR: "%onerror", c.KS_SCRIPT_TRACEBACK: "%traceback"}
        return [{"type": names.get(s.type, str(s.type)), "body": s.script, "ln": s.lineno or 0, "interp": str(s.interp),
                 "log": s.logfile or "", "err": bool(s.errorOnFail), "chroot": bool(s.inChroot)} for s in h.scripts]

    def observe(self, p, recs, exc, err, ws, slot):
        E = self.pk.errors
        h = p.handler
        o = {"exc": "none", "ln": 0, "msg": True, "text": ""}
        if exc is not None:
            o["text"] = "%s: %s" % (type(exc).__name__, str(exc)[:200])
            if isinstance(exc, E.KickstartParseError):
                o["exc"] = "parse"
                o["ln"] = exc.lineno if isinstance(exc.lineno, int) else -1
                o["msg"] = re.search(r"(?<!\d)%d(?!\d)" % o["ln"], str(exc)) is not None
            elif isinstance(exc, E.KickstartError):
                o["exc"] = "kserr"
            else:
                o["exc"] = "hang" if isinstance(exc, Hang) else "other"
        try:
            cobj = h.commands["cmda"]
            o["log"] = [{"n": n, "a": a, "ln": l} for n, a, l in cobj.log]
            o["scripts"] = self.scripts(h)
            o["recs"] = [r or {} for r in recs]
            o["pkgs"] = list(h.packages.packageList)
            o["pkgseen"] = bool(h.packages.seen)
            o["platform"] = h.platform
            o["errs"] = p.errorsCount
        except Exception as e:              # pylint: disable=broad-except
            o.update({"exc": "broken", "text": repr(e), "log": [], "scripts": [], "recs": [], "pkgs": [], "pkgseen": False,
                      "platform": "", "errs": -1})
        o["quiet"] = err == ""
        o["rej"] = err.count("rejected!")
        n = slot[3]
        wl = n[1:] if len(n) > 1 else []
        for w in ws:
            if issubclass(w.category, E.KickstartParseWarning) and not issubclass(w.category, E.KickstartDeprecationWarning):
                m = re.findall(r"%[A-Za-z-]+", str(w.message))
                wl = wl + [m[-1] if m else str(w.message)]
        n[1:] = wl
        o["warns"] = list(wl)
        return o

    def written(self, p, ver):
        o = {"fail": "", "log": [], "scripts": [], "nulls": [], "pkgs": [], "platform": "", "ends": True, "again": True, "ver": True}
        try:
            text = str(p.handler)
            again = str(p.handler)
        except Exception as e:              # pylint: disable=broad-except
            o["fail"] = "writing failed: %r" % e
            return o
        o["text"] = text
        new = ver in NEWV
        try:
            tokenize_written(text, new, o, p.handler.version, ver)
        except ValueError as e:
            o["fail"] = str(e)
            return o
        fl = {"follow": False, "fatal": True, "missfatal": True, "unkfatal": False}
        q, _r = self.parser(ver, fl)
        exc, err, _ws = self.guarded(lambda: q.readKickstartFromString(text))
        if exc is not None:
            o["fail"] = "cannot be read back: %s" % str(exc)[:200]
            return o
        o["again"] = str(q.handler) == text and again == text
        return o

def tokenize_written(text, new, o, _v, ver):
    """Own reading of a written document, independent of pykickstart.  Fills o."""
    if not text.endswith("\n") and text:
        raise ValueError("text does not end with a newline")
    lines = text.splitlines(True)
    i, sawver = 0, []
    known = set(FIXED_TAGS)
    while i < len(lines):
        l = lines[i]
        i += 1
        if l.strip() == "":
            continue
        if l.startswith("#"):
            if l.startswith("#platform="):
                o["platform"] = l[10:].strip()
            if l.startswith("#version="):
                sawver.append(l[9:].strip())
            continue
        w = shlex.split(l, comments=True)
        if not w[0].startswith("%"):
            o["log"].append({"n": w[0], "a": w[1:]})
            continue
        if w[0] == "%end":
            raise ValueError("stray %end")
        body, closed = [], False
        while i < len(lines):
            b = lines[i]
            f = b.split()[0] if b.split() else ""
            if f == "%end":
                closed = True
                i += 1
                break
            if f in known:
                if new:
                    raise ValueError("section %s is not closed" % w[0])
                break
            body.append(b)
            i += 1
        if new and not closed:
            raise ValueError("section %s is not closed" % w[0])
        body = "".join(body)
        if w[0] in SCRIPT_TAGS:
            if closed != new:
                o["ends"] = False
            ops = {"interp": "/bin/sh", "log": "", "err": False, "nochroot": False}
            rest = list(w[1:])
            while rest:
                x = rest.pop(0)
                nm, eq, val = x.partition("=")
                if nm in ("--interpreter", "--log", "--logfile"):
                    if not eq:
                        val = rest.pop(0) if rest else ""
                    ops["interp" if nm == "--interpreter" else "log"] = val
                elif nm == "--erroronfail" and not eq:
                    ops["err"] = True
                elif nm == "--nochroot" and not eq:
                    ops["nochroot"] = True
                else:
                    raise ValueError("unexpected header word %r" % x)
            o["scripts"].append({"type": w[0], "body": body, "interp": ops["interp"], "log": ops["log"], "err": ops["err"],
                                 "chroot": w[0] == "%post" and not ops["nochroot"]})
        elif w[0] == "%packages":
            if closed != new:
                o["ends"] = False
            o["pkgs"] += [b.strip() for b in body.splitlines() if b.strip()]
        else:
            o["nulls"].append({"args": w, "body": body})
    o["ver"] = len(sawver) == 1 and (sawver == [ver] or (ver in ("DEVEL", "F34") and sawver[0] in ("DEVEL", "F34")))

# ------------------------------------------------------------------ batches
def _worker(job):
    signal.signal(signal.SIGALRM, _alarm)
    impl = Impl()
    res = []
    home = os.getcwd()
    try:
        for ses in job:
            try:
                res.append(impl.run(ses))
            except Exception as e:          # pylint: disable=broad-except
                res.append([{"crash": repr(e)}])
    finally:
        os.chdir("/")
        shutil.rmtree(impl.root, ignore_errors=True)
    return res

class Batch(object):
    """Collects sessions (lists of line records) and judges them."""
    def __init__(self):
        self.lines, self.index = [], {}
        self.ses = []

    def line(self, rec):
        key = json.dumps(rec, sort_keys=True)
        if key not in self.index:
            self.lines.append(rec)
            self.index[key] = len(self.lines)
        return self.index[key]

    def add(self, files, ops):
        """files: path -> list of line records; ops as in the specification (without obs)."""
        fixed = {}
        for p, ls in files.items():
            fixed[p] = [l if l["t"].endswith("\n") or i == len(ls) - 1 else dict(l, t=l["t"] + "\n") for i, l in enumerate(ls)]
        self.ses.append((fixed, ops))

    def judge(self, check, workers=None):
        raw = []
        for files, ops in self.ses:
            raw.append({"files": {p: "".join(l["t"] for l in ls) for p, ls in files.items()}, "ops": ops})
        n = workers or vlib.WORKERS
        size = max(1, min(400, (len(raw) + n - 1) // n))
        jobs = [raw[i:i + size] for i in range(0, len(raw), size)]
        with multiprocessing.get_context("fork").Pool(n) as pool:
            obs = [o for part in pool.map(_worker, jobs) for o in part]
        sessions, idx = [], []
        for k, ((files, ops), ob) in enumerate(zip(self.ses, obs)):
            if len(ob) != len(ops):
                check.violation("the harness could not complete a session", {"doc": raw[k], "obs": ob})
                continue
            so = []
            for op, o in zip(ops, ob):
                r = dict(op)
                if o is not None:
                    r["obs"] = {x: y for x, y in o.items() if x != "text"}
                so.append(r)
            sessions.append({"files": {p: {"dir": os.path.dirname(p) if p.startswith("/") else "",
                                           "li": [self.line(l) for l in ls]} for p, ls in files.items()}, "ops": so})
            idx.append(k)
        fails, stats = vlib.judge_sessions("Trace_KsParser", sessions, {"lines.ndjson": self.lines})
        check.add(stats)
        for sid, opn, clause in fails:
            k = idx[sid]
            check.violation(clause[:300], {"session": raw[k], "op": opn, "observed": obs[k][opn - 1] if opn else None})
        for k in (0, len(raw) // 2):
            if raw:
                check.sample({"session": raw[k], "observed": obs[k]})
        self.ses = []
        return fails

# ------------------------------------------------------------------ generators
def newop(ver, fatal=True, follow=True, missfatal=True, unkfatal=True):
    return {"op": "new", "ver": ver, "new": ver in NEWV, "fatal": fatal, "follow": follow, "missfatal": missfatal, "unkfatal": unkfatal}

def rread(p, top): return {"op": "read", "p": p, "top": top}
def rstr(p): return {"op": "str", "p": p}

def rver(rng, new=None):
    if new is None:
        new = rng.random() < 0.7
    return rng.choice(NEWV if new else OLDV)

def rflags(rng, p=0.25):
    return {k: rng.random() >= p for k in ("fatal", "follow", "missfatal", "unkfatal")}

def body_lines(rng, n, allow=()):
    return [pick(rng, V_BLANK, V_COMMENT, V_OK, V_TEXT, V_UNK, V_QUOTE, V_ZZZ, *allow) for _ in range(n)]

def section(rng, closed=True, bad=0.1, kinds=None, maxbody=4, incs=()):
    kind = rng.choice(kinds or ["s", "s", "so", "p", "n", "r", "z"])
    hd = {"s": V_SCRIPT, "so": V_SCRIPT_OPT, "p": V_PKG, "n": V_NULL, "r": V_REC, "z": V_ZZZ}[kind]
    if kind in ("s", "so") and rng.random() < bad:
        hd = V_SCRIPT_BAD
    if kind == "p" and rng.random() < bad:
        hd = V_PKG_BAD
    ls = [rng.choice(hd)] + body_lines(rng, rng.randint(0, maxbody))
    for ref in incs:
        ls.insert(rng.randint(1, len(ls)), ref)
    if kind == "p" and rng.random() < 0.05:
        ls.insert(rng.randint(1, len(ls)), V_NOPKG[0])
    if closed:
        ls.append(rng.choice(V_END))
    return ls

def document(rng, size, badrate=0.1, unclosed=0.1, new=True, zrate=True):
    out = []
    kinds = ["s", "s", "so", "p", "n", "r"] + (["z"] if zrate else [])
    while len(out) < size:
        x = rng.random()
        if x < 0.5:
            y = rng.random()
            out.append(pick(rng, V_BAD, V_BOOM, V_UNK) if y < badrate else pick(rng, V_OK, V_OK, V_BLANK, V_COMMENT, V_KSA))
        else:
            out += section(rng, closed=rng.random() >= (unclosed if new else 0.5), bad=badrate, kinds=kinds)
    if rng.random() < 0.2 and out:
        out[-1] = dict(out[-1], t=out[-1]["t"].rstrip("\n")) if out[-1]["k"] not in ("blank",) else out[-1]
    return out

def exhaustive_docs(maxlen, reps):
    for n in range(0, maxlen + 1):
        for combo in itertools.product(range(len(reps)), repeat=n):
            yield [reps[i] for i in combo]
