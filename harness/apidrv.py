"""C22: objects in the hands of a program (Trace_KsApi), and handlers built without a file (clone of Trace_KsLibrary)."""
import copy, multiprocessing, random, re, signal, warnings
import vlib, cmddrv, cmdval
from gencmd import G, ORDER

# settings that are not (plain) keywords of their class
ODD = {"displayMode", "keyboard", "keyboard0", "validActions", "validModes", "discover_options", "join_args", "join_realm", "rescue"}
ALL = {}
for _k, _g in G["classes"].items():
    for _w, _t in (("cmd", "attrs"), ("data", "data")):
        ALL.setdefault((_g["fam"], _w), set()).update(_g[_t] or {})
VALUES = ["", "v1", "v2", "two words", 0, 5, 77, True, False, None, [], ["a"], ["b", "c"]]

def where():
    """class key -> (version, command)"""
    out = {}
    for v in ORDER:
        for c, k in G["versions"][v].items():
            out.setdefault(k, []).append((v, c))
    return out
WHERE = where()

def sessions(rng, n):
    keys = sorted(k for k in WHERE if G["classes"][k]["fam"] != "Method" and G["classes"][k]["kind"] == "active")
    pairs = [(k, "cmd") for k in keys] + [(k, "data") for k in keys if G["classes"][k]["data"] ]
    fams = {}
    for k, w in pairs:
        fams.setdefault((G["classes"][k]["fam"], w), []).append(k)
    out = []
    for j in range(n):
        key, what = pairs[j % len(pairs)]
        g = G["classes"][key]
        mine = sorted(ALL[g["fam"], what])
        def kw(create, most):
            pool = [a for a in mine if a not in ODD]
            if rng.random() < .2:
                pool += ["nosuch", "frobnicate", "seenx"]
            ks = rng.sample(pool, min(len(pool), rng.randint(0, most)))
            return {a: copy.copy(rng.choice(VALUES)) if a != "level" else rng.choice(["debug", "v1"]) for a in ks}
        ops, made = [], []
        def create(k=None):
            made.append(k or key)
            ops.append({"op": "create", "key": made[-1], "what": what, "kw": kw(True, rng.choice([0, 2, 6]))})
        create()
        for _ in range(rng.randint(2, 6)):
            x = rng.random()
            if x < .3:
                create(key if rng.random() < .7 else rng.choice(fams[g["fam"], what]))
            elif x < .55:
                ops.append({"op": "call", "i": rng.randint(1, len(made)), "kw": kw(False, 4)})
            elif x < .8:
                ops.append({"op": "append", "i": rng.randint(1, len(made)), "a": "", "x": "zz%d" % len(ops)})
            else:
                i = rng.randint(1, len(made))
                js = [k + 1 for k in range(len(made)) if made[k] == made[i - 1]]
                ops.append({"op": "equal", "i": i, "j": rng.choice(js)})
        out.append(ops)
    # equality: objects that agree in everything but one attribute, and in nothing but some
    for key, what in pairs:
        g = G["classes"][key]
        attrs = [a for a in sorted(g["attrs"] if what == "cmd" else g["data"]) if a not in ODD]
        if what == "cmd" and g["fam"] not in ("HardDrive", "NFS", "Liveimg", "Url"):
            continue
        base = {a: rng.choice(["v1", "v2", 5]) for a in attrs}
        for a in attrs:
            out.append([{"op": "create", "key": key, "what": what, "kw": dict(base)}, {"op": "create", "key": key, "what": what, "kw": dict(base, **{a: "other"})},
                        {"op": "equal", "i": 1, "j": 2}, {"op": "equal", "i": 2, "j": 1}, {"op": "call", "i": 2, "kw": {a: base[a]}}, {"op": "equal", "i": 1, "j": 2}])
    return out

def classof(key, what):
    from pykickstart.version import makeVersion
    v, c = WHERE[key][0]
    o = makeVersion(v).commands[c]
    return type(o) if what == "cmd" else o.dataClass

def run(ops, cache):
    from pykickstart.errors import KickstartParseWarning
    objs, meta, res = [], [], []
    for op in ops:
        o = {"exc": "", "warned": [], "objs": [], "eq": False, "ne": False, "none": False}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                if op["op"] == "create":
                    ck = (op["key"], op["what"])
                    if ck not in cache:
                        cache[ck] = classof(*ck)
                    objs.append(cache[ck](**copy.deepcopy(op["kw"])))
                    meta.append(ck)
                elif op["op"] == "call":
                    objs[op["i"] - 1](**copy.deepcopy(op["kw"]))
                elif op["op"] == "append":
                    x, (k, w) = objs[op["i"] - 1], meta[op["i"] - 1]
                    t = G["classes"][k]["attrs" if w == "cmd" else "data"]
                    lists = [a for a in sorted(t) if a != "keyboard" and isinstance(getattr(x, a, None), list)]
                    if lists:
                        op["a"] = lists[len(op["x"]) % len(lists)]
                        getattr(x, op["a"]).append(op["x"])
                    else:
                        op["op"], op["kw"] = "call", {}
                        x()
                else:
                    a, b = objs[op["i"] - 1], objs[op["j"] - 1]
                    o["eq"], o["ne"], o["none"] = bool(a == b), bool(a != b), bool(a == None)      # pylint: disable=singleton-comparison
            except Exception as e:                   # pylint: disable=broad-except
                o["exc"] = repr(e)[:300]
        for w in ws:
            if issubclass(w.category, KickstartParseWarning):
                o["warned"] += re.findall(r"'([^']*)'", str(w.message)) or ["?"]
        for x, (k, w) in zip(objs, meta):
            g = G["classes"][k]
            t = g["attrs" if w == "cmd" else "data"]
            more = sorted(a for a in ALL[g["fam"], w] if a not in t and a not in ("keyboard0",) and hasattr(x, a)) if g["kind"] == "active" else []
            if "vc_keymap" in t:                     # there, keyboard is derived from the others
                t = {a: v for a, v in t.items() if a != "keyboard"}
            o["objs"].append({"a": cmddrv.delta(x, t), "seen": bool(getattr(x, "seen", False)), "more": more})
        res.append(o)
        if o["exc"]:
            break
    return ops, res

def _worker(job):
    signal.signal(signal.SIGALRM, vlib.on_alarm)
    cache = {}
    return [run(ops, cache) for ops in job]

def judge(c, sess):
    n = vlib.WORKERS
    size = max(1, (len(sess) + n - 1) // n)
    with multiprocessing.get_context("fork").Pool(n) as pool:
        runs = [o for part in pool.map(_worker, [sess[i:i + size] for i in range(0, len(sess), size)]) for o in part]
    rows = []
    for ops, obs in runs:
        so = []
        for op, o in zip(ops, obs):
            r = dict(op, obs=o)
            if "kw" in r:
                r["kw"] = {a: cmdval.enc(v) for a, v in r["kw"].items()}
            so.append(r)
        rows.append({"ops": so})
    fails, stats = vlib.judge_sessions("Trace_KsApi", rows, {"values.ndjson": [cmddrv.fact("x")]})
    c.add(stats)
    for sid, opn, clause in fails:
        ops, obs = runs[sid]
        c.violation("%s: %s" % (ops[0]["key"], clause[:300]), {"ops": ops[:opn], "observed": obs[opn - 1], "clause": clause}, key=re.sub(r"[^A-Za-z_ ].*", "", clause)[:60])
    c.sample({"ops": runs[0][0]})
    return fails
