"""Drives the command line tools through sessions of Trace_KsTools."""
import builtins, contextlib, io, json, multiprocessing, os, random, re, shlex, shutil, signal, subprocess, sys, tempfile, warnings
import vlib, cmddrv, gencmd
import parserdrv as P
from gencmd import G, ORDER, CMDS, Gen

PYENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": vlib.REPO, "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8", "HOME": "/nonexistent"}
NEWER = {"F34", "DEVEL"} | {v for v in ORDER if v.startswith("RHEL") and int(v[4:]) >= 9}
LANGS = NEWER | {"F32", "F33"}
OLD = set(P.OLDV) | {v for v in ORDER if re.match(r"FC\d|F7$|RHEL[345]$", v)}
TOOLS = os.path.join(vlib.REPO, "tools")

# ------------------------------------------------------------------ lines
NOC = {"cmd": "", "ln": 0, "opts": [], "pos": [], "rest": "", "words": []}
def plain(rec):
    r = dict(rec)
    r["c"] = dict(NOC, cmd=rec["n"])
    return r

def ksa(ref, text=None):
    return plain(P.mk("ksa", (text or "%%ksappend %s" % ref.replace("/w/", "@W@/")) + "\n", "%ksappend", [ref] if ref else [], ref=ref, ab=ref.startswith("/")))

class Lines(object):
    """Makes command lines with their records."""
    def __init__(self, seed):
        self.g = Gen(seed)
        self.rnd = self.g.rnd

    def render(self, cmd, opts, pos):
        l = self.g.line(cmd, 0, opts, pos, self.rnd.choice(["front", "back"]), self.rnd.choice("= "))["l"]
        texts = [None] + [r["t"] for r in self.g.v.rows]
        raw = cmddrv.render(l, texts)
        rest = raw[len(cmd):].strip()
        rec = P.mk("cmd", raw + "\n", cmd, [])
        rec["c"] = {"cmd": cmd, "ln": 0, "opts": l["opts"], "pos": l["pos"], "rest": rest, "words": shlex.split(rest)}
        return rec

    def good(self, ver, bad=0.0, fams=None):
        import checks_cmds
        pool = [(m, checks_cmds.cls(ver, m)) for m in CMDS]
        pool = [(m, c) for m, c in pool if c is not None and c["kind"] == "active" and c["fam"] != "Method"]
        if ver in ("F16", "F17", "F18", "F19"):          # recorded finding of C13: not readable after volgroup
            pool = [x for x in pool if x[0] != "autopart"]
        m, c = self.rnd.choice(pool)
        if self.rnd.random() < .35:
            lists = [(m, c) for m, c in pool if c["list"]]
            m, c = self.rnd.choice(lists or pool)
        if self.rnd.random() < .3:
            o, p = self.rnd.choice(gencmd.bases(c))
        else:
            o, p = checks_cmds.combo(self.g, c, self.rnd.randrange(0, 4), bad)
        if ver in ("FC3", "RHEL3", "RHEL4"):            # recorded finding of C13: not written
            o = [x for x in o if x[0] != "--nolinear"]
        return self.render(m, o, p)

    def wrong(self, ver):
        """Probably refused."""
        x = self.rnd.random()
        if x < .4:
            return self.good(ver, .6)
        have = G["versions"][ver]
        if x < .42:
            return self.render("method", *self.rnd.choice([([], []), ([], ["url"]), ([("--url", "u")], [])]))
        if x < .6:
            return self.render(self.rnd.choice([c for c in CMDS if c not in have] + ["nosuch", "Part", "lang-x"]), [], ["x"])
        if x < .8:
            dead = [c for c in have if G["classes"][have[c]]["kind"] != "active"]
            if dead:
                c = self.rnd.choice(dead)
                return self.render(c, *gencmd.anybase(c))
        r = self.good(ver)
        t = r["t"].rstrip("\n") + " --nosuchoption"
        r = dict(r, t=t + "\n", c=dict(r["c"], opts=r["c"]["opts"] + [{"n": "--nosuchoption", "v": 0}], rest=r["c"]["rest"] + " --nosuchoption", words=r["c"]["words"] + ["--nosuchoption"]))
        r["pk"] = t
        return r

PKTEXT = [P.cmd("bash", []), P.cmd("vim", []), P.cmd("kernel", [], "  kernel # why"), P.cmd("a.b", []), P.cmd("nano", [])]
BODY = [P.cmd("echo", ["hello"]), P.cmd("x%end", [], "x%end"), P.blank(), P.comment(), P.cmd("äö", []), P.cmd("rm", ["-f", "x"], "rm -f x   "), P.cmd("if", [], "\tif [ 1 ]; then"), P.quote("it's\n", n="its")]

def section(L, ver, tool, incs=(), closed=True, badhead=False):
    """Lines of one section (records); incs: include lines to place in its body."""
    rnd = L.rnd
    kind = rnd.choice(["s", "s", "so", "p", "n"])
    if kind == "so" and ver not in P.NEWV + P.OLDV:
        kind = "s"
    if kind == "p":
        hd, body = P.V_PKG[0], [rnd.choice(PKTEXT) for _ in range(rnd.randint(0, 3))]
        if rnd.random() < .15 and tool == "val":
            hd = P.tag("%packages", ["--instLangs=en"], r="warn" if ver in LANGS else "ok") if ver in LANGS else hd
    else:
        hd = rnd.choice({"s": P.V_SCRIPT, "so": P.V_SCRIPT_OPT, "n": P.V_NULL}[kind])
        body = [rnd.choice(BODY) for _ in range(rnd.randint(0, 3))]
        if hd["n"] == "%traceback" and ver in NEWER:
            if tool == "val":
                hd = dict(hd, r="warn")
            else:
                hd = P.V_SCRIPT[0]
    if badhead:
        hd = rnd.choice(P.V_SCRIPT_BAD[:1] + P.V_SCRIPT_BAD[2:] if tool != "val" else P.V_SCRIPT_BAD + P.V_PKG_BAD)
        body = [rnd.choice(PKTEXT if hd["n"] == "%packages" else BODY[:4]) for _ in range(rnd.randint(0, 2))]
    ls = [plain(hd)] + [plain(b) for b in body]
    for i in incs:
        ls.insert(rnd.randint(1, len(ls)), i)
    if closed:
        ls.append(plain(rnd.choice(P.V_END[:2])))
    return ls

def inc(rnd, ref):
    return plain(P.inc(ref) if rnd.random() < .8 or not ref else P.inc(ref, "  %%include '%s'  # more" % ref.replace("/w/", "@W@/")))

def document(L, ver, tool, size, wrong=.1, files=None, depth=0, ksappend=False):
    """Lines of a document; included files are put into files."""
    rnd, out = L.rnd, []
    files = {} if files is None else files
    def sub(lines, where=None):
        where = where or rnd.choice(["", "", "d/", "d/e/"])
        name = "/w/%sf%d.ks" % (where, len(files))
        files[name] = lines
        return name if rnd.random() < .5 else name[3:]
    if rnd.random() < .3:
        # to the tools this is a comment like any other: the version is the one asked for
        out.append(plain(P.comment("#version=%s\n" % rnd.choice(ORDER + ["DEVEL", ver, "RHEL3", "nosuch", ""]))))
    for _ in range(size):
        x = rnd.random()
        if x < .12:
            out.append(plain(rnd.choice(P.V_BLANK + P.V_COMMENT)))
        elif x < .62:
            out.append(L.wrong(ver) if rnd.random() < wrong else L.good(ver))
        elif x < .80:
            incs = []
            if depth < 2 and rnd.random() < .3:
                incs = [inc(rnd, sub([plain(rnd.choice(PKTEXT + BODY[:2])) for _ in range(rnd.randint(0, 3))], ""))]
                incs[0]["pk"] = incs[0]["t"].strip()
            new = ver not in OLD
            out += section(L, ver, tool, incs, rnd.random() > wrong / 4 if new else rnd.random() < .5, rnd.random() < wrong / 2)
        elif x < .95 and depth < 3:
            if ksappend and depth == 0 and rnd.random() < .5:
                name = sub(document(L, ver, tool, rnd.randint(0, 3), wrong, files, depth + 2), "")
                out.append(ksa(name) if rnd.random() < 1 - wrong / 2 else ksa(rnd.choice(["", "/w/none.ks"])))
            else:
                f = {}
                lines = document(L, ver, tool, rnd.randint(0, 4), wrong, files, depth + 1)
                name = sub(lines)
                out.append(inc(rnd, name) if rnd.random() < 1 - wrong / 2 else inc(rnd, rnd.choice(["", "/w/none.ks", "none.ks"])))
        elif rnd.random() < wrong:
            out.append(plain(rnd.choice(P.V_QUOTE + P.V_QTAG + [P.V_ZZZ[0], P.V_END[0]])))
    return out

# ------------------------------------------------------------------ observing
def tokens(text, ver):
    """What a written file holds: settings per command (by reading it), and the sections (own reading)."""
    o = {"fail": "", "sfail": "", "inc": False, "set": [], "scripts": [], "nulls": [], "pkgs": [], "platform": "", "log": [], "ends": True, "again": True, "ver": True}
    try:
        for l in text.splitlines():
            w = l.split()
            if w and w[0] == "%include":
                o["inc"] = True
        P.tokenize_written(text, ver not in OLD, o, "", ver)
    except ValueError as e:
        o["fail"] = str(e)[:200]
    o["log"] = []
    if o["fail"]:
        return o
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            r = cmddrv.Runner(ver)
            r.p.readKickstartFromString(text)
        except Exception as e:                      # pylint: disable=broad-except
            o["sfail"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            return o
    done = set()
    for cmd in sorted(r.row):
        key = r.row[cmd]
        g = G["classes"][key]
        if key in done or g["kind"] != "active" or g["fam"] == "Method":
            continue
        done.add(key)
        f = cmddrv.full(r.h.commands[cmd], g)
        if f["a"] or f["l"]:
            o["set"].append({"key": key, "a": f["a"], "l": f["l"]})
    return o

class World(object):
    def __init__(self):
        self.root = vlib.scratch()
        self.w = os.path.join(self.root, "w")
        self.tmp = os.path.join(self.root, "tmp")
        self.out = os.path.join(self.root, "out")

    def lay(self, files):
        for d in (self.w, self.tmp, self.out):
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.makedirs(d)
        for path, data in files.items():
            if path.startswith("/w/"):
                rp = self.real(path)
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "wb") as f:
                    f.write(data.replace("@W@", self.w).encode("utf-8") if isinstance(data, str) else bytes(data))
        os.chdir(self.w)
        tempfile.tempdir = self.tmp
        self.before = self.state()

    def real(self, path):
        return os.path.join(self.root, path.lstrip("/")) if path.startswith("/w/") else path

    def state(self):
        s = {}
        for d, ds, fs in os.walk(self.w):
            for f in fs:
                p = os.path.join(d, f)
                s[p] = open(p, "rb").read()
            for x in ds:
                s[os.path.join(d, x)] = None
        return s

    def after(self, o):
        o["left"] = bool(os.listdir(self.tmp))
        o["changed"] = self.state() != self.before
        for x in os.listdir(self.tmp):
            p = os.path.join(self.tmp, x)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

    def call(self, fn, seconds=20):
        """Run fn in-process: (result, exception text, stdout, stderr)."""
        out, err, exc, res = io.StringIO(), io.StringIO(), "", None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                vlib.timer(seconds)
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    res = fn()
            except SystemExit as e:
                if isinstance(e.code, str):
                    err.write(e.code)
                res = ("exit", e.code if isinstance(e.code, int) else 0 if e.code is None else 1)
            except vlib.Hang:
                exc = "hang"
            except Exception as e:                  # pylint: disable=broad-except
                exc = repr(e)[:300]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        return res, exc, out.getvalue(), err.getvalue()

    def script(self, name, argv, stdin="", merge=False):
        env = dict(PYENV, TMPDIR=self.tmp)
        try:
            r = subprocess.run([sys.executable, "-u", os.path.join(TOOLS, name)] + argv, cwd=self.w, env=env, input=stdin.encode("utf-8"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return -1, "hang", "", ""
        out, err = r.stdout.decode("utf-8", "replace"), (r.stderr or b"").decode("utf-8", "replace")
        return r.returncode, "traceback: " + (err or out)[-300:] if "Traceback (most recent call last)" in (err or out) else "", out, err

    # ---- ksvalidator
    def val(self, op):
        argv = [self.real(a) for a in op["argv"]]
        if op["how"] == "script":
            rc, exc, out, err = self.script("ksvalidator.py", argv)
            msgs = out
        else:
            from tools import ksvalidator
            res, exc, out, err = self.call(lambda: ksvalidator.main(argv))
            rc, msgs = -1, ""
            if isinstance(res, tuple):
                rc = res[1] if res[0] == "exit" else res[0]
                msgs = "" if res[0] == "exit" else "\n".join(str(m) for m in res[1])
            msgs += out
        o = {"exc": exc, "rc": rc if isinstance(rc, int) else -1, "said": bool((msgs + err).strip()), "kept": True,
             "lines": sorted({int(n) for n in re.findall(r"line (\d+)", msgs + err)}), "words": msgs.split(), "text": (msgs + "|" + err)[:600]}
        self.after(o)
        return o

    # ---- ksflatten
    def flat(self, op):
        dest = os.path.join(self.out, "o.ks")
        argv = [self.real(a) for a in op["argv"]] + (["-o", dest] if op["dest"] else [])
        if op["dest"] == "old":
            open(dest, "w").write("OLD")
        def go(argv):
            if op["how"] == "script":
                return self.script("ksflatten.py", argv)
            from tools import ksflatten
            res, exc, out, err = self.call(lambda: ksflatten.main(argv))
            rc = -1
            if isinstance(res, tuple):
                rc = res[1] if res[0] == "exit" else res[0]
                if res[0] != "exit":
                    err += str(res[1])
            return rc, exc, out, err
        rc, exc, out, err = go(argv)
        o = {"exc": exc, "rc": rc if isinstance(rc, int) else -1, "said": bool((err + (out if rc else "")).strip()), "kept": True, "again": True, "text": err[:300], "words": []}
        text = out
        if op["dest"]:
            text = open(dest, encoding="utf-8").read() if os.path.exists(dest) else None
            o["kept"] = text == ("OLD" if op["dest"] == "old" else None)
        self.after(o)
        t = tokens("", op["ver"])
        if rc == 0 and op["op"] == "flat":
            if text is None:
                t["fail"] = "no output"
            else:
                shutil.rmtree(self.w)                     # without access to the included files
                os.makedirs(self.w)
                again = t["again"]
                t = tokens(text, op["ver"])
                src, dst = os.path.join(self.w, "once.ks"), os.path.join(self.out, "twice.ks")
                open(src, "w", encoding="utf-8").write(text)
                vargs = op["argv"][:-2] if op["argv"][-2:-1] == ["-c"] else [a for a in op["argv"] if not a.startswith(("-c", "/w/", "--config")) and a not in ("top.ks",)]
                rc2, exc2, _o, _e = go(vargs + ["-c", src, "-o", dst])
                o["again"] = rc2 == 0 and exc2 == "" and cmddrv.bare(open(dst, encoding="utf-8").read()) == cmddrv.bare(text)
                o["out"] = text
        t.pop("again")
        o.update(t)
        return o

    # ---- ksshell
    def shell(self, ops, start):
        """One run: start has argv, dest, how, end; ops are what is typed.  Fills obs of each."""
        dest = os.path.join(self.out, "o.ks")
        argv = [self.real(a) for a in start["argv"]] + (["-o", dest] if start["dest"] else [])
        if start["dest"] == "old":
            open(dest, "w").write("OLD")
        typed = [o for o in ops if o["op"] in ("type", "clear", "show", "bogus")]
        if start["how"] == "script":
            rc, exc, out, err = self.script("ksshell.py", argv, "".join(o["text"].replace("@W@", self.w) + "\n" for o in typed) + (".quit\n" if start["end"] == "quit" else ""), True)
            segs = out.split("ks> ")
            errs = [""] * len(segs)
        else:
            rc, exc, segs, errs = self.inproc(argv, ops, start)
            out, err = "".join(segs), "".join(errs)
        good = len(segs) == len(typed) + 2
        k = 1
        for o in ops:
            if o["op"] == "seed":
                o["obs"] = {"said": (segs[0].replace("Press ^D to exit.", "") + errs[0]).strip() != "", "raw": segs[0][:300]}
            elif o["op"] in ("type", "clear", "show", "bogus"):
                so, se = (segs[k], errs[k]) if good else ("", "")
                if o["op"] == "show":
                    o["obs"] = tokens(so, start["ver"])
                    o["obs"]["raw"] = so
                else:
                    o["obs"] = {"said": bool((so + se).strip()), "raw": (so + se)[:200]}
                k += 1
        final = segs[-1] if good else ""
        if start["dest"]:
            final = open(dest, encoding="utf-8").read() if os.path.exists(dest) else ""
        o = {"exc": exc or ("" if good else "the session was not read to its end"), "rc": rc if isinstance(rc, int) else -1}
        self.after(o)
        t = tokens(final, start["ver"])
        t.pop("again")
        if start["dest"] and not os.path.exists(dest):
            t["fail"] = "no output"
        o.update(t)
        o["raw"] = final
        ops[-1]["obs"] = o

    def inproc(self, argv, ops, start):
        import readline
        from tools import ksshell
        import six
        segs, errs = [], []
        out, err = io.StringIO(), io.StringIO()
        todo = [o for o in ops if o["op"] in ("type", "clear", "show", "bogus", "comp")]
        pos = [0]
        real = {n: getattr(readline, n) for n in ("get_line_buffer", "get_begidx", "get_endidx")}
        def cut():
            segs.append(out.getvalue())
            errs.append(err.getvalue())
            for b in (out, err):
                b.seek(0)
                b.truncate()
        def ask(_prompt=""):
            cut()
            while pos[0] < len(todo) and todo[pos[0]]["op"] == "comp":
                o = todo[pos[0]]
                pos[0] += 1
                o["obs"] = {"offered": self.complete(readline, o["line"], o["tail"])}
            if pos[0] == len(todo):
                if start["end"] == "quit":
                    return ".quit"
                if start["end"] == "^C":
                    raise KeyboardInterrupt
                raise EOFError
            o = todo[pos[0]]
            pos[0] += 1
            return o["text"].replace("@W@", self.w)
        old = six.moves.input, builtins.input
        six.moves.input = builtins.input = ask
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                exc, rc = "", -1
                try:
                    vlib.timer(30)
                    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                        rc = ksshell.main(argv)
                except SystemExit as e:
                    rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except vlib.Hang:
                    exc = "hang"
                except (Exception, KeyboardInterrupt) as e:          # pylint: disable=broad-except
                    exc = repr(e)[:300]
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
        finally:
            six.moves.input, builtins.input = old
            for n, f in real.items():
                setattr(readline, n, f)
        cut()
        for o in todo:
            if o["op"] == "comp" and "obs" not in o:
                o["obs"] = {"offered": ["(not reached)"]}
        return rc, exc, segs, errs

    def complete(self, readline, line, tail):
        delims = readline.get_completer_delims()
        b = len(line)
        while b > 0 and line[b - 1] not in delims:
            b -= 1
        readline.get_line_buffer, readline.get_begidx, readline.get_endidx = (lambda: line + tail), (lambda: b), (lambda: len(line))
        f, res = readline.get_completer(), []
        try:
            for k in range(3000):
                w = f(line[b:], k)
                if w is None:
                    break
                res.append(w)
        except Exception as e:                       # pylint: disable=broad-except
            return ["exception: %r" % e]
        return res if len(res) == len(set(res)) else res + ["(repeated)"]

    def run(self, ses):
        self.lay(ses["files"])
        if ses["ops"][0]["op"] in ("val", "flat", "arg"):
            for k, op in enumerate(ses["ops"]):
                if k:
                    self.lay(ses["files"])
                op["obs"] = self.flat(op) if op.get("tool") == "flat" else self.val(op)
        else:
            self.shell(ses["ops"], ses["start"])
        return ses

def _worker(job):
    signal.signal(signal.SIGALRM, vlib.on_alarm)
    w, res = World(), []
    try:
        for ses in job:
            try:
                res.append(w.run(ses))
            except (Exception, vlib.Hang) as e:          # pylint: disable=broad-except
                import traceback
                ses["crash"] = traceback.format_exc()[-600:]
                res.append(ses)
    finally:
        os.chdir("/")
        tempfile.tempdir = None
        shutil.rmtree(w.root, ignore_errors=True)
    return res

DROP = ("text", "raw", "out", "argv", "how", "ends", "ver_", "log", "line", "tail")
def judge(c, sessions, values):
    """Run the sessions (ops without obs), judge them, report.  A session's "docs": path -> line records."""
    for s in sessions:
        s["files"] = dict(s.get("blobs", {}), **{p: "".join(l["t"] for l in ls) for p, ls in s["docs"].items()})
    n = vlib.WORKERS
    size = max(1, min(100, (len(sessions) + n - 1) // n))
    with multiprocessing.get_context("fork").Pool(n) as pool:
        runs = [o for part in pool.map(_worker, [sessions[i:i + size] for i in range(0, len(sessions), size)]) for o in part]
    lines, index, rows, idx = [], {}, [], []
    def lid(rec):
        k = json.dumps(rec, sort_keys=True)
        if k not in index:
            lines.append(rec)
            index[k] = len(lines)
        return index[k]
    for k, s in enumerate(runs):
        if "crash" in s:
            c.violation("the harness could not complete a session: %s" % s["crash"][-200:], {"session": s["files"], "ops": s["ops"]})
            continue
        ops = []
        for op in s["ops"]:
            o = {a: b for a, b in op.items() if a not in DROP and a != "obs"}
            o["obs"] = {a: b for a, b in op["obs"].items() if a not in DROP}
            ops.append(o)
        rows.append({"ver": s["ver"], "new": s["ver"] not in OLD, "ops": ops,
                     "files": {p: {"dir": os.path.dirname(p) if p.startswith("/") else "", "li": [lid(l) for l in ls]} for p, ls in s["docs"].items()}})
        idx.append(k)
    if not lines:
        lid(plain(P.blank()))
    fails, stats = vlib.judge_sessions("Trace_KsTools", rows, {"lines.ndjson": lines, "values.ndjson": values.rows or [cmddrv.fact("x")]})
    c.add(stats)
    for sid, opn, clause in fails:
        s = runs[idx[sid]]
        op = s["ops"][opn - 1]
        c.violation("%s: %s" % (s["ver"], clause[:300]), {"version": s["ver"], "files": {p: str(t) for p, t in s["files"].items()}, "start": s.get("start"), "typed": [x.get("text", x["op"]) for x in s["ops"]],
                                                        "op": {k: v for k, v in op.items() if k != "obs"}, "observed": op["obs"], "clause": clause}, key=re.sub(r"[^A-Za-z_ ].*", "", clause)[:60])
    for s in runs[:: max(1, len(runs) // 3)][:3]:
        c.sample({"version": s["ver"], "files": {p: str(t) for p, t in s["files"].items()}, "ops": [{k: v for k, v in x.items() if k in ("op", "argv", "text", "line", "rc")} for x in s["ops"]]})
    return fails
