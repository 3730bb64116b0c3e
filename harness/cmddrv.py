"""Runs command line sessions on the real code and records what happened (the trace that Trace_KsCommands judges)."""
import contextlib, io, json, multiprocessing, os, re, shlex, signal, sys, warnings
import cmdval, vlib

GRAMMAR = json.load(open(os.path.join(vlib.SPEC, "grammar.json")))
HIDE = {"op", "handler", "writePriority", "currentCmd", "currentLine", "seen", "lineno"}

Hang, _alarm = vlib.Hang, vlib.on_alarm

# ---------------------------------------------------------------- the value table
class Values(object):
    """The words used in a run; words get facts an independent reading of the formats gives."""
    def __init__(self):
        self.ids, self.rows, self.facts = {}, [], None

    def __call__(self, t):
        if t not in self.ids:
            self.rows.append(fact(t))
            self.ids[t] = len(self.rows)
        return self.ids[t]

def fact(t):
    isi = re.match(r"^\s*[+-]?[0-9]+(_[0-9]+)*\s*$", t) is not None
    n = int(t) if isi else 0
    if abs(n) > 2000000000:
        n = 0
    low = t.lower()
    return {"t": t, "isi": isi, "i": str(int(t)) if isi else "", "n": n,
            "bo": "T" if low in ("on", "yes", "true", "1") else "F" if low in ("off", "no", "false", "0") else "",
            "l": [x.strip() for x in t.split(",") if x.strip()],
            "m": norm(t) if t.startswith("/") else t,
            "sp": re.search(r"\s", t) is not None, "ha": "#" in t, "qu": "'" in t or "\\" in t, "dq": '"' in t,
            "ls": sorted({x.strip() for x in t.split(",") if x.strip()}),
            "mdi": mdint(t[2:] if t.startswith("md") else t),
            "ports": [p.strip() if ":" in p else p.strip() + ":tcp" for p in t.split(",")],
            "team": team(t)}

def mdint(t):
    return str(int(t)) if re.match(r"^\s*[+-]?[0-9]+\s*$", t) else ""

def team(t):
    """DEVICE['CONFIG'],... -> device|config"""
    out = []
    for m in re.finditer(r"([^,']+)(?:'([^']*)')?", t):
        out.append(m.group(1) + "|" + (m.group(2) or ""))
    return out

def norm(p):
    lead = "//" if p.startswith("//") and not p.startswith("///") else "/"
    out = []
    for part in p.split("/"):
        if part in ("", "."):
            continue
        if part == "..":
            if out:
                out.pop()
            continue
        out.append(part)
    return lead + "/".join(out)

# ---------------------------------------------------------------- rendering
def word(t):
    return shlex.quote(t)

def render(l, texts):
    """l: line record; texts: id -> text."""
    ops = []
    for u in l["opts"]:
        if u["v"] == 0:
            ops.append(u["n"])
        elif l.get("sep") == " " and not texts[u["v"]].startswith("-"):
            ops.append(u["n"] + " " + word(texts[u["v"]]))
        else:
            ops.append(u["n"] + "=" + word(texts[u["v"]]))
    pos = [word(texts[p]) for p in l["pos"]]
    place = l.get("place", "front")
    if place == "front":
        ws = pos + ops
    elif place == "split":
        ws = pos[:1] + ops + pos[1:]
    else:
        ws = ops + pos
    return " ".join([l["cmd"]] + ws)

# ---------------------------------------------------------------- observing
def delta(obj, want):
    """Attributes of obj that differ from the table's defaults."""
    out = {}
    for k, d in want.items():
        if k == "keyboard0":
            continue
        try:
            v = cmdval.enc(getattr(obj, k))
        except AttributeError:
            v = {"k": "missing", "v": []}
        if k == "ntpservers" and v["k"] == "l" and type(obj).__name__ == "F18_Timezone":
            v = {"k": "l", "v": sorted(v["v"])}
        if v != d:
            out[k] = v
    return out

def snap(o):
    return cmdval.flat(sorted((k, cmdval.flat(v)) for k, v in vars(o).items() if k not in HIDE and not k.startswith("_")))

def objects(h):
    return {type(o).__name__: o for o in h.commands.values() if o is not None}

def full(o, g):
    lst = o.dataList()
    return {"a": delta(o, g["attrs"]), "l": [delta(x, g["data"]) for x in (lst if lst is not None else [])]}

def bare(t):
    """The text without comments and blank lines."""
    return [x for x in t.split("\n") if x.strip() and not x.startswith("#")]

class Runner(object):
    def __init__(self, ver):
        from pykickstart.version import makeVersion
        from pykickstart.parser import KickstartParser
        self.ver = ver
        self.h = makeVersion(ver)
        self.p = KickstartParser(self.h)
        self.row = GRAMMAR["versions"][ver]

    def key(self, cmd):
        return self.row.get(cmd)

    def line(self, l, text, watch=True):
        from pykickstart.errors import KickstartParseError, KickstartDeprecationWarning, KickstartParseWarning
        key = self.key(l["cmd"])
        g = GRAMMAR["classes"].get(key)
        own = self.h.commands.get(l["cmd"])
        before = {n: (snap(o), o.seen) for n, o in objects(self.h).items() if o is not own} if watch else {}
        o = {"exc": "none", "ln": 0, "other": [], "deprs": 0, "dopts": [], "warns": 0, "list": [], "attrs": {}, "objln": 0, "seen": False, "text": False, "what": "", "msg": True, "wl": []}
        with warnings.catch_warnings(record=True) as w, contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("always")
            try:
                vlib.timer(20)
                self.p.readKickstartFromString("\n" * (l["ln"] - 1) + text + "\n")
            except KickstartParseError as e:
                o["exc"], o["ln"], o["what"] = "parse", e.lineno if isinstance(e.lineno, int) else 0, str(e)[:200]
                o["msg"] = re.search(r"(?<!\d)%d(?!\d)" % o["ln"], str(e)) is not None
            except Hang:
                o["exc"], o["what"] = "other", "hang"
            except Exception as e:
                o["exc"], o["what"] = "other", repr(e)[:200]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        for x in w:
            if not issubclass(x.category, KickstartParseWarning):
                continue
            o["wl"] += [int(n) for n in re.findall(r"\bon line (\d+)", str(x.message))]
            if issubclass(x.category, KickstartDeprecationWarning):
                o["deprs"] += 1
                o["dopts"] += re.findall(r"(?<![\w-])--[\w-]+", str(x.message))
            else:
                o["warns"] += 1
        if watch:
            for n, b in objects(self.h).items():
                if b is not own and n in before and (snap(b), b.seen) != before[n]:
                    o["other"].append(n)
        own = self.h.commands.get(l["cmd"])
        if own is not None and g is not None:
            o["seen"] = bool(own.seen)
            o["objln"] = own.lineno if isinstance(own.lineno, int) else 0
            if g["kind"] != "active":
                o["text"] = str(own) != ""
            elif g["fam"] != "Method":
                o["attrs"] = delta(own, g["attrs"])
                if g["list"]:
                    o["list"] = [{"a": delta(x, g["data"]), "ln": x.lineno if isinstance(getattr(x, "lineno", None), int) else 0}
                                 for x in (own.dataList() or [])]
        return o

    def written(self):
        """Write, read back into a fresh handler, write again."""
        o = {"fail": "", "back": [], "again": True, "once": True, "order": True, "what": "", "text": ""}
        with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                vlib.timer(20)
                t1 = str(self.h)
                o["text"] = t1
                r2 = Runner(self.ver)
                r2.p.readKickstartFromString(t1)
                t2 = str(r2.h)
                o["again"] = bare(t1) == bare(t2)
                if not o["again"]:
                    o["what"] = t2
            except Hang:
                o["fail"] = "hang"
                return o
            except Exception as e:
                o["fail"], o["what"] = type(e).__name__, str(e)[:300]
                return o
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        done = set()
        for cmd in sorted(self.row):
            key = self.row[cmd]
            g = GRAMMAR["classes"][key]
            if key in done or g["kind"] != "active" or g["fam"] == "Method":
                continue
            done.add(key)
            a, b = self.h.commands.get(cmd), r2.h.commands.get(cmd)
            if a is None or b is None:
                continue
            fa, fb = full(a, g), full(b, g)
            if a.seen or fa["a"] or fa["l"] or fb["a"] or fb["l"]:
                o["back"].append({"key": key, "cmd": cmd, "a1": fa["a"], "a2": fb["a"], "l1": fa["l"], "l2": fb["l"], "s1": bool(a.seen), "s2": bool(b.seen)})
        return o

def run_session(job):
    ses, texts = job
    signal.signal(signal.SIGALRM, _alarm)
    for x in ses["ops"]:
        if x["op"] == "line":
            x["l"]["raw"] = render(x["l"], texts)
            x["l"]["rest"] = x["l"]["raw"][len(x["l"]["cmd"]):].strip()
            x["l"]["words"] = shlex.split(x["l"]["rest"])
    try:
        r = Runner(ses["ver"])
    except Exception as e:
        for x in ses["ops"]:
            x["obs"] = {"exc": "other", "ln": 0, "other": [], "deprs": 0, "dopts": [], "warns": 0, "list": [], "attrs": {}, "objln": 0,
                        "seen": False, "text": False, "what": "no handler: %r" % e, "msg": False, "wl": []} if x["op"] == "line" else {"fail": repr(e), "back": [], "again": False, "order": False, "what": "", "text": ""}
        return ses
    for x in ses["ops"]:
        if x["op"] == "line":
            x["obs"] = r.line(x["l"], x["l"]["raw"], ses.get("watch", True))
        else:
            x["obs"] = r.written()
    return ses

_texts = None
def _init(repo, texts):
    global _texts
    sys.path.insert(0, repo)
    _texts = texts

def _one(ses):
    return run_session((ses, _texts))

def run_all(sessions, values):
    texts = [None] + [r["t"] for r in values.rows]
    with multiprocessing.Pool(vlib.WORKERS, _init, (vlib.REPO, texts)) as pool:
        return pool.map(_one, sessions, chunksize=32)

def slim(ses):
    """Without what only people read."""
    ops = []
    for x in ses["ops"]:
        o = {k: v for k, v in x["obs"].items() if k not in ("what", "text") or isinstance(v, bool)}
        y = {"op": x["op"], "obs": o}
        if x["op"] == "line":
            y["l"] = {k: x["l"][k] for k in ("cmd", "ln", "opts", "pos", "rest", "words")}
        ops.append(y)
    return {"ver": ses["ver"], "ops": ops}

def judge(sessions, values):
    fails, stats = vlib.judge_sessions("Trace_KsCommands", [slim(s) for s in sessions], {"values.ndjson": values.rows or [fact("x")]})
    return fails, stats
