"""Drives section headers and package selection of the real code through sessions of Trace_KsSections."""
import io, itertools, json, multiprocessing, os, random, re, shlex, shutil, signal, sys, warnings
import vlib
import parserdrv as D

RELEASES = ["RHEL3", "FC3", "RHEL4", "FC4", "FC5", "FC6", "RHEL5", "F7", "F8", "F9", "F10", "F11", "F12", "F13", "RHEL6",
            "F14", "F15", "F16", "F17", "F18", "F19", "F20", "F21", "RHEL7", "F22", "F23", "F24", "F25", "F26", "F27", "F28",
            "RHEL8", "F29", "F30", "F31", "F32", "F33", "F34", "DEVEL"]

def isnew(ver):
    return RELEASES.index(ver) >= RELEASES.index("F8")

# ------------------------------------------------------------------ package lines: text and meaning
def pl(k, t, n="", lv=""):
    return {"k": k, "t": t, "n": n, "lv": lv}

def pkg(n, t=None): return pl("pkg", t or n, n)
def xpkg(n, t=None): return pl("xpkg", t or "-" + n, n)
def grp(n, lv="default", t=None):
    return pl("grp", t or "@" + n + {"default": "", "required": " --nodefaults", "all": " --optional"}[lv], n, lv)
def xgrp(n, t=None): return pl("xgrp", t or "-@" + n, n)
def env(n, t=None): return pl("env", t or "@^" + n, n)
def xenv(n, t=None): return pl("xenv", t or "-@^" + n, n)

SMALL = [pkg("a"), xpkg("a"), pkg("b"), xpkg("b"), grp("g"), grp("g", "required"), grp("g", "all"), xgrp("g"),
         grp("h"), xgrp("h"), env("e"), env("f"), xenv("e"), xenv("f"), grp("a"), pkg("g")]
BADL = [pl("bad", "-"), pl("bad", "@"), pl("bad", "@^"), pl("bad", "-@"), pl("bad", "-@^"), pl("bad", "@ "), pl("bad", "- "), pl("bad", " @^  "),
        pl("bad", "@g --nodefaults --optional"), pl("bad", "@--optional g --nodefaults"), pl("bad", "@ --optional"), pl("bad", "@--nodefaults")]
NOISE = [pl("none", ""), pl("none", "   "), pl("none", "# x"), pl("none", "  # -a"), pl("none", "\t")]
FANCY = [pkg("a", "  a"), pkg("a", "a\t "), xpkg("a", " -a "), xpkg("a", "- a"), xpkg("b", "-\tb"), grp("g", "default", "@ g"), grp("g", "all", "@g   --optional"),
         grp("g", "required", "@--nodefaults g"), grp("G H", "default", "@G H"), grp("G H", "all", "@G  H --optional"), grp("G H", "required", "@ G --nodefaults H"),
         xgrp("G H", "-@G H"), xgrp("G H", "-@ G   H "), xgrp("g", "-@ g"), env("e", "@^ e"), xenv("e", "-@^ e "), env("e f", "@^e f"), xenv("e f", "-@^e f"),
         pkg("a*"), xpkg("a*"), pkg("a.x86_64"), pkg("@", "x@") if False else pkg("x@y"), pkg("kernel-PAE*"), xpkg("x-y"), pkg("a b"), pkg("ä"), grp("日本"), pkg("A"), grp("G"),
         # characters that mean something elsewhere are part of the name here
         grp("'q'"), grp('"G H"'), xgrp('"G H"'), grp("a'b"), grp("a 'b c'", "all"), env("'e'"), env('"e f"'), xenv("'e'"), pkg("'a'"), pkg('"a b"'), xpkg("'a'"), pkg("a'"), pkg("a\\b"),
         grp("a\\b"), grp("g^"), pkg("^a"), pkg("a-b"), xpkg("-a", "--a"), pkg("a@g"), pkg("$a"), grp("a;b"), pkg("a,b"), pkg("%x"), grp("a=b"), env("e-1.2"), pkg("a[0-9]?"), xgrp("a'b"), xgrp("a 'b c'")]

def comment(rng, l):
    """The same line with a comment or blanks that must not matter (only inside a document)."""
    x = rng.random()
    if x < .15:
        return dict(l, t=l["t"] + "  # -b @g")
    if x < .2:
        return dict(l, t=l["t"] + "#c")
    if x < .3:
        return dict(l, t="  " + l["t"] + " ")
    return l

# ------------------------------------------------------------------ headers
def opt(o, v=None, sp=False):
    isi = v is not None and re.match(r"^[+-]?[0-9]+$", v) is not None
    words = [o] if v is None else [o, v] if sp else [o + "=" + v]
    return {"o": o, "hv": v is not None, "v": str(int(v)) if isi and o in ("--timeout", "--retries") else (v or ""), "isi": isi, "w": words}

def header(tag, opts=(), stray=None, at=None):
    words = [w for x in opts for w in x["w"]]
    if stray is not None:
        words.insert(len(words) if at is None else at, stray)
    return {"tag": tag, "opts": list(opts), "stray": stray is not None, "words": words}

SCRIPT_TAGS = ["%pre", "%pre-install", "%post", "%onerror", "%traceback"]
PKG_FLAGS = ["--excludedocs", "--ignoremissing", "--ignoredeps", "--resolvedeps", "--default", "--nobase", "--multilib", "--nocore",
             "--exclude-weakdeps", "--excludeWeakdeps", "--ignorebroken"]
PKG_VALS = ["--inst-langs", "--instLangs", "--timeout", "--retries"]
STRINGS = ["/usr/bin/python3", "/bin/bash -x", "/l o/g", "x", "", "a'b", 'a"b', "a#b", "ä", "--odd", "$HOME", "a\\b", "=", "a=b", "/bin/sh", "%end", "*"]
LANGS = ["en", "en_US:de", "", "a b", "en,de", "'", "*", "\u00e9"]
INTS = ["0", "1", "30", "-5", "+7", "007", "x", "", "1.5"]

def valued(rng, o):
    if o in ("--timeout", "--retries"):
        v = rng.choice(INTS)
    elif o in ("--inst-langs", "--instLangs"):
        v = rng.choice(LANGS)
    else:
        v = rng.choice(STRINGS)
    return opt(o, v, sp=rng.random() < .4 and not v.startswith("-"))

def some_opt(rng, tag, odd=.04):
    x = rng.random()
    if x < odd / 2:
        return opt(rng.choice(["--bogus", "--nochroots", "--ERRORONFAIL", "--Log", "--instlangs"]), rng.choice([None, "x"]))
    if tag == "%packages":
        if rng.random() < .65:
            o = rng.choice(PKG_FLAGS)
            return opt(o, "1" if rng.random() < odd else None)
        o = rng.choice(PKG_VALS)
        return opt(o) if rng.random() < odd else valued(rng, o)
    o = rng.choice(["--erroronfail", "--interpreter", "--log", "--logfile"] + (["--nochroot"] if tag == "%post" or rng.random() < .05 else []))
    if o in ("--erroronfail", "--nochroot"):
        return opt(o, "yes" if rng.random() < odd else None)
    return opt(o) if rng.random() < odd / 2 else valued(rng, o)

def fix_dangling(opts):
    """An option that misses its value would take the next word: keep it only where it is recognisably without one."""
    out = []
    for i, x in enumerate(opts):
        needs = x["o"] in PKG_VALS + ["--interpreter", "--log", "--logfile"]
        if needs and not x["hv"] and i != len(opts) - 1 and not opts[i + 1]["w"][0].startswith("--"):
            continue
        out.append(x)
    return out

def some_header(rng, tag, n=None, odd=.04):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4]) if n is None else n
    opts = fix_dangling([some_opt(rng, tag, odd) for _ in range(n)])
    # a word after an option that misses its value would be taken as the value
    if rng.random() < odd / 2 and all(x["hv"] or x["o"] not in PKG_VALS + ["--interpreter", "--log", "--logfile"] for x in opts):
        return header(tag, opts, rng.choice(["stray", "x"]), rng.choice([0, None]))
    return header(tag, opts)

BODIES = ["", "\n", "  \n\n", "echo hello\n", "# c\necho\n", "\n\n a\n\n b\n", "x\n\n\n", "%no\n%%x\n", "echo %end\n", "'\n", "cat << EOF\n%endx\nEOF\n", "# only\n", "ä日本\n", "\\\n",
          "#!/bin/sh\n\tset -x\n", "%% x\n \n"]

# ------------------------------------------------------------------ documents
NUMBERS = itertools.count(1)

class Doc(object):
    """Builds text and items together."""
    def __init__(self, rng, ver, inc=0.0):
        self.rng, self.ver, self.inc = rng, ver, inc
        self.text, self.items, self.files = [], [], {}
        self.open = False
    def gap(self):
        while not self.open and self.rng.random() < .25:
            self.text.append(self.rng.choice(["\n", "# note\n", "  # %end\n"]))
    def head(self, h):
        line = " ".join([h["tag"]] + [shlex.quote(w) for w in h["words"]])
        if self.rng.random() < .1:
            line = "  " + line + "  # c"
        self.text.append(line + "\n")
        return len(self.text)
    def close(self):
        self.open = not isnew(self.ver) and self.rng.random() < .6
        if not self.open:
            self.text.append("%end\n")
    def script(self, h, body):
        ln = self.head(h)
        self.text += body.splitlines(True)
        self.close()
        self.items.append({"h": hrec(h), "ln": ln, "body": body, "bl": body.strip() == "", "lines": []})
    def packages(self, h, lines, files=True):
        ln = self.head(h)
        out, i = [], 0
        while i < len(lines):
            if self.inc and self.rng.random() < self.inc:
                k = self.rng.randint(1, min(3, len(lines) - i))
                name = "/w/i%d" % next(NUMBERS)
                self.files[name] = "".join(l["t"] + "\n" for l in lines[i:i + k])
                self.text.append("%%include @W@/%s\n" % name[3:])
                out += [dict(l, ln=j + 1) for j, l in enumerate(lines[i:i + k])]
                i += k
            else:
                self.text.append(lines[i]["t"] + "\n")
                out.append(dict(lines[i], ln=len(self.text)))
                i += 1
        self.close()
        self.items.append({"h": hrec(h), "ln": ln, "body": "", "bl": True, "lines": [lrec(l) for l in out]})
    def op(self):
        return {"op": "doc", "items": self.items}, "".join(self.text), self.files

def hrec(h):
    return {"tag": h["tag"], "opts": [{x: o[x] for x in ("o", "hv", "v", "isi")} for o in h["opts"]], "stray": h["stray"]}

def lrec(l):
    return {"k": l["k"], "n": l["n"], "lv": l["lv"], "ln": l.get("ln", 0)}

# ------------------------------------------------------------------ running
class Impl(D.Impl):
    def observe_all(self, h):
        c = self.pk.constants
        names = {c.KS_SCRIPT_PRE: "%pre", c.KS_SCRIPT_POST: "%post", c.KS_SCRIPT_PREINSTALL: "%pre-install",
                 c.KS_SCRIPT_ONERROR: "%onerror", c.KS_SCRIPT_TRACEBACK: "%traceback"}
        sc = [{"type": names.get(s.type, str(s.type)), "interp": s.interp, "log": "-" if s.logfile is None else s.logfile,
               "err": s.errorOnFail, "chroot": s.inChroot, "body": s.script, "ln": s.lineno} for s in h.scripts]
        p = h.packages
        num = lambda x: "-" if x is None else str(x)
        po = {"seen": bool(p.seen), "docs": not p.excludeDocs, "missing": {c.KS_MISSING_PROMPT: "prompt", c.KS_MISSING_IGNORE: "ignore"}[p.handleMissing],
              "default": bool(p.default), "langs": num(p.instLangs), "base": bool(p.addBase), "multilib": bool(p.multiLib), "core": not p.nocore,
              "timeout": num(p.timeout), "retries": num(p.retries), "weakdeps": not p.excludeWeakdeps,
              "broken": {c.KS_BROKEN_REPORT: "report", c.KS_BROKEN_IGNORE: "ignore"}[p.handleBroken]}
        return {"scripts": sc, "po": po, "sel": self.sel(p)}

    def sel(self, p):
        c = self.pk.constants
        lv = {c.GROUP_REQUIRED: "required", c.GROUP_DEFAULT: "default", c.GROUP_ALL: "all"}
        return {"pk": list(p.packageList), "xpk": list(p.excludedList), "grp": [{"n": g.name, "lv": lv[g.include]} for g in p.groupList],
                "xgrp": sorted({g.name for g in p.excludedGroupList if not g.name.startswith("^")}), "env": p.environment or ""}

    def excinfo(self, exc):
        E = self.pk.errors
        o = {"exc": "none", "ln": 0, "text": ""}
        if exc is not None:
            o["text"] = "%s: %s" % (type(exc).__name__, str(exc)[:200])
            o["exc"] = "parse" if isinstance(exc, E.KickstartParseError) else "other"
            o["ln"] = exc.lineno if isinstance(getattr(exc, "lineno", None), int) else -1
        return o

    def fresh(self, ver):
        from pykickstart.version import makeVersion
        h = makeVersion(ver)
        return h, self.pk.parser.KickstartParser(h)

    def run(self, ses):
        self.lay(ses["files"])
        out = []
        try:
            h, p = self.fresh(ses["ver"])
        except Exception as e:              # pylint: disable=broad-except
            return [{"crash": repr(e)}]
        for op, text in zip(ses["ops"], ses["texts"]):
            if op["op"] == "doc":
                t = text.replace("@W@", self.w)
                exc, _err, ws = self.guarded(lambda: p.readKickstartFromString(t))
                o = self.excinfo(exc)
                o["dep"] = any(issubclass(w.category, self.pk.errors.KickstartDeprecationWarning) for w in ws)
            elif op["op"] == "add":
                if text == "one":
                    def fn():
                        for l in op["lines"]:
                            h.packages.add([l["t"]])
                else:
                    def fn():
                        h.packages.add([l["t"] for l in op["lines"]])
                exc, _err, ws = self.guarded(fn)
                o = self.excinfo(exc)
            else:
                out.append(self.rt(h, ses["ver"]))
                continue
            try:
                o.update(self.observe_all(h))
            except Exception as e:          # pylint: disable=broad-except
                o.update({"exc": "broken", "text": repr(e), "scripts": [], "po": {}, "sel": {}})
            out.append(o)
        return out

    def rt(self, h, ver):
        o = {"fail": "", "scripts": [], "po": {}, "sel": {}, "again": False, "ver": "", "text": ""}
        try:
            text = o["text"] = str(h)
            h2, p2 = self.fresh(ver)
            exc, _e, _w = self.guarded(lambda: p2.readKickstartFromString(text))
            if exc is not None:
                o["fail"] = "%s: %s" % (type(exc).__name__, str(exc)[:200])
                return o
            o.update(self.observe_all(h2))
            o["again"] = str(h2) == text and str(h) == text
            from pykickstart.version import versionFromFile, versionToString
            fn = os.path.join(self.w, "written.ks")
            with open(fn, "w", encoding="utf-8") as f:
                f.write(text)
            o["ver"] = versionToString(versionFromFile(fn))
        except Exception as e:              # pylint: disable=broad-except
            o["fail"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        return o

def _worker(job):
    signal.signal(signal.SIGALRM, D._alarm)
    impl = Impl()
    res = []
    try:
        for ses in job:
            try:
                vlib.timer(30)
                res.append(impl.run(ses))
            except (Exception, vlib.Hang) as e:          # pylint: disable=broad-except
                res.append([{"crash": repr(e)}])
            finally:
                vlib.timer(0)
    finally:
        os.chdir("/")
        shutil.rmtree(impl.root, ignore_errors=True)
    return res

def strip(op):
    op = dict(op)
    if op["op"] == "add":
        op["lines"] = [lrec(l) for l in op["lines"]]
    return op

class Batch(object):
    def __init__(self):
        self.ses = []
    def add(self, ver, *ops):
        """ops: (op, text, files)"""
        files = {}
        for _o, _t, f in ops:
            files.update(f)
        self.ses.append({"ver": ver, "files": files, "ops": [o for o, _t, _f in ops], "texts": [t for _o, t, _f in ops]})
    def judge(self, check):
        raw, self.ses = self.ses, []
        n = vlib.WORKERS
        size = max(1, min(400, (len(raw) + n - 1) // n))
        with multiprocessing.get_context("fork").Pool(n) as pool:
            obs = [o for part in pool.map(_worker, [raw[i:i + size] for i in range(0, len(raw), size)]) for o in part]
        sessions, idx = [], []
        for k, (s, ob) in enumerate(zip(raw, obs)):
            if len(ob) != len(s["ops"]):
                check.violation("the session could not be completed", {"session": s, "observed": ob}, key="crash")
                continue
            sessions.append({"ver": s["ver"], "ops": [dict(strip(op), obs={a: b for a, b in o.items() if a != "text"})
                                                      for op, o in zip(s["ops"], ob)]})
            idx.append(k)
        fails, stats = vlib.judge_sessions("Trace_KsSections", sessions, {})
        check.add(stats)
        for sid, opn, clause in fails:
            k = idx[sid]
            check.violation("%s: %s" % (raw[k]["ver"], clause[:300]), {"session": raw[k], "op": opn, "observed": obs[k][opn - 1], "clause": clause},
                            key=clause.split(":")[0])
        for k in (0, len(raw) // 2):
            if raw:
                check.sample({"session": raw[k], "observed": obs[k]})
        return fails

def addop(lines, one=True):
    return ({"op": "add", "lines": lines}, "one" if one else "all", {})

RT = ({"op": "rt"}, "", {})
