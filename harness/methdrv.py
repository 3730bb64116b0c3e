"""C23: the installation source seen through handler.method (Trace_KsMethod)."""
import contextlib, copy, io, multiprocessing, random, re, shlex, signal, warnings
import vlib, cmddrv, cmdval
from gencmd import G, ORDER, Gen, bases, good

SOURCES = ["cdrom", "harddrive", "nfs", "url", "liveimg", "hmc"]
NAMES = ["dir", "partition", "biospart", "server", "opts", "url", "proxy", "noverifyssl", "mirrorlist", "metalink", "sslcacert", "checksum", "nosuch", "Url", "servers"]
VALUES = ["", "v1", "two words", "http://h/t", None, "/d"]

def known(ver):
    return [m for m in SOURCES if m in G["versions"][ver] and G["classes"][G["versions"][ver][m]]["kind"] == "active"]

def sessions(seed, n):
    g = Gen(seed)
    r = g.rnd
    out = []
    for k in range(n):
        ver = ORDER[k % len(ORDER)]
        have = known(ver)
        row = G["versions"][ver]
        def line():
            cmd = r.choice(have) if r.random() < .8 else r.choice(["method", "text", "skipx", "repo", "bootloader", "liveimg", "hmc"])
            cl = G["classes"].get(row.get(cmd))
            if cl is None or cl["kind"] != "active" or cmd == "method":
                return g.line(cmd, r.randint(1, 9), [("--url", "x")] if r.random() < .3 else [], ["url"] if r.random() < .2 else [])
            o, p = r.choice(bases(cl))
            names = [x for x in sorted(cl["opt"]) if x not in dict(o)]
            o = list(o) + [(x, r.choice(good(cl["fam"], x, cl["opt"][x]))) for x in r.sample(names, min(len(names), r.choice([0, 0, 1, 2])))]
            if r.random() < .15:
                o = o[1:] if r.random() < .5 else o + [("--bogus", "1")]
            return g.line(cmd, r.randint(1, 9), o, p)
        ops = []
        for _ in range(r.randint(2, 12)):
            x = r.random()
            if x < .2:
                op = line()
            elif x < .42:
                op = {"op": "setm", "m": r.choice(have + ["none"]) if r.random() < .8 else r.choice(SOURCES + ["repo", "", "Url", "method", "nosuch", "seen"])}
            elif x < .6:
                op = {"op": "get", "a": r.choice(NAMES)}
            elif x < .8:
                a = r.choice(NAMES)
                op = {"op": "set", "a": a, "x": r.choice([True, False]) if a == "noverifyssl" else r.choice(VALUES)}
            elif x < .84:
                op = {"op": "reset", "m": r.choice(have)}
            elif x < .89:
                op = {"op": "mark", "m": r.choice(have), "b": r.random() < .6}
            elif x < .93:
                op = {"op": "repo"} if "methodToRepo" in REPO.get(row.get("repo"), ()) else {"op": "str"}
            elif x < .96:
                op = {"op": "setln", "n": r.randint(1, 99)}
            else:
                op = {"op": "str"}
            if op["op"] in ("setm", "get", "set") and r.random() < .12:
                op["copy"] = True
            ops.append(op)
        out.append({"ver": ver, "ops": ops})
    return g, out

REPO = {k: ("methodToRepo",) for k, c in G["classes"].items() if c["fam"] == "Repo" and "F8_Repo" in c["mro"]}

def name(h):
    m = h.method.method
    return "none" if m is None else m if isinstance(m, str) else repr(m)

def run(ses, texts):
    from pykickstart.version import makeVersion
    from pykickstart.parser import KickstartParser
    from pykickstart.errors import KickstartError, KickstartParseError
    ver = ses["ver"]
    h, twin = makeVersion(ver), makeVersion(ver)
    p = KickstartParser(h)
    have = known(ver)
    row = G["versions"][ver]
    mine = {row[m] for m in have} | {row["method"]}
    for op in ses["ops"]:
        o = {"exc": "", "before": "", "after": "", "val": {"k": "n", "v": []}, "name": "", "objs": {}, "ln": 0, "more": [], "twin": "", "written": []}
        op["obs"] = o
        rest = {n: cmddrv.snap(x) for n, x in cmddrv.objects(h).items() if n not in mine}
        with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                o["before"] = name(h)
                m = copy.copy(h.method) if op.get("copy") else h.method
                if op["op"] == "line":
                    l = op["l"]
                    l["raw"] = cmddrv.render(l, texts)
                    l["rest"] = l["raw"][len(l["cmd"]):].strip()
                    l["words"] = shlex.split(l["rest"])
                    p.readKickstartFromString("\n" * (l["ln"] - 1) + l["raw"] + "\n")
                elif op["op"] == "setm":
                    m.method = None if op["m"] == "none" else op["m"]
                elif op["op"] == "get":
                    o["val"] = cmdval.enc(getattr(m, op["a"]))
                elif op["op"] == "set":
                    setattr(m, op["a"], op["x"])
                elif op["op"] == "reset":
                    h.resetCommand(op["m"])
                elif op["op"] == "mark":
                    getattr(h, op["m"]).seen = op["b"]
                elif op["op"] == "setln":
                    h.method.lineno = op["n"]
                elif op["op"] == "repo":
                    d = h.repo.methodToRepo()
                    o["name"], o["val"] = d.name, cmdval.enc(d.baseurl)
                else:
                    o["written"] = sorted({w[0] for w in (x.split() for x in str(h).split("\n")) if w and w[0] in SOURCES})
            except KickstartParseError:
                o["exc"] = "parse"
            except KickstartError:
                o["exc"] = "kick"
            except AttributeError as e:
                o["exc"] = "attr"
            except Exception as e:                   # pylint: disable=broad-except
                o["exc"] = repr(e)[:200]
            try:
                o["after"], o["twin"] = name(h), name(twin)
                o["ln"] = h.method.lineno
            except Exception as e:                   # pylint: disable=broad-except
                o["after"] = repr(e)[:200]
            for c in have:
                x = getattr(h, c)
                o["objs"][c] = {"seen": bool(x.seen), "ln": x.lineno, "a": cmddrv.delta(x, G["classes"][row[c]]["attrs"])}
                y = getattr(twin, c)
                if y.seen or cmddrv.delta(y, G["classes"][row[c]]["attrs"]):
                    o["twin"] = c
        if op["op"] != "line":
            o["more"] = sorted(n for n, x in cmddrv.objects(h).items() if n in rest and cmddrv.snap(x) != rest[n])
    return ses

def _worker(job):
    part, texts = job
    signal.signal(signal.SIGALRM, vlib.on_alarm)
    return [run(s, texts) for s in part]

def judge(c, seed, n):
    g, sess = sessions(seed, n)
    texts = [None] + [r["t"] for r in g.v.rows]
    size = max(1, (len(sess) + vlib.WORKERS - 1) // vlib.WORKERS)
    with multiprocessing.get_context("fork").Pool(vlib.WORKERS) as pool:
        runs = [s for part in pool.map(_worker, [(sess[i:i + size], texts) for i in range(0, len(sess), size)]) for s in part]
    rows = []
    for s in runs:
        ops = []
        for op in s["ops"]:
            r = {k: v for k, v in op.items() if k != "copy"}
            if "x" in r:
                r["x"] = cmdval.enc(r["x"])
            if "l" in r:
                r["l"] = {k: r["l"][k] for k in ("cmd", "ln", "opts", "pos", "rest", "words")}
            ops.append(r)
        rows.append({"ver": s["ver"], "ops": ops})
    fails, stats = vlib.judge_sessions("Trace_KsMethod", rows, {"values.ndjson": g.v.rows})
    c.add(stats)
    for sid, opn, clause in fails:
        s = runs[sid]
        c.violation("%s: %s: %s" % (s["ver"], s["ops"][opn - 1]["op"], clause[:300]), {"version": s["ver"], "ops": s["ops"][:opn], "clause": clause}, key=re.sub(r"[^A-Za-z_ ].*", "", clause)[:60])
    c.sample({"version": runs[0]["ver"], "ops": runs[0]["ops"][:3]})
    c.assumptions.append("Where several installation sources were given by lines, handler.method may name any of them. In F34 and later, where the proxy is deprecated, hmc is left out.")
