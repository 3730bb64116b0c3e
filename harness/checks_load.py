"""C15 (versions), C16 (preprocessing), C17 (loading)."""
import itertools, json, multiprocessing, os, random, re, shutil, signal, sys
import vlib, sectdrv as S, parserdrv as D

def mult():
    return 8 if vlib.THOROUGH else 1

# ---------------------------------------------------------------- C15
NAMES = S.RELEASES

def mixed(rng, s):
    return "".join(rng.choice([ch.upper(), ch.lower()]) for ch in s)

def release_text(rng):
    n = rng.choice([str(rng.randint(0, 40)), "6", "7", "8", "20", "3", "07", "007", "", "1x", "20.1", "7.1", "7.", "8.2.1", "34", "35", "-7", "7 "])
    x = rng.random()
    if x < .45:
        mid = rng.choice(["", "", " Core", " release", " Server", " Core release", " 20", " x y"])
        t = mixed(rng, "Fedora") if rng.random() < .3 else "Fedora"
        return t + mid + rng.choice([" ", " ", " ", ""]) + n
    if x < .85:
        mid = rng.choice(["", "", " Server", " Server release", " 7", " AS release", " Client"])
        t = "Red Hat Enterprise Linux"
        t = mixed(rng, t) if rng.random() < .3 else t
        return t + mid + rng.choice([" ", " ", " ", ""]) + n
    return rng.choice(["F", "FC", "RHEL", "RHL"]) + n

def odd_names(rng):
    v = rng.choice(NAMES)
    return rng.choice([v + "0", v[:-1], "x" + v, v + " ", " " + v, v.replace("F", "FC"), v.replace("FC", "F"), v + ".1", "", "devel2", "rawhide", "Fedora", "Red Hat Linux 9", "CentOS 7",
                       "RHEL 7", "F 20", "f-20", "Fedora-20", "Fedora20", "RedHatEnterpriseLinux7", "0", "-1", "1e3"])

FILLER = ["\n", "# note\n", "text\n", "lang en_US\n", " #version=F20\n", "# version=F19\n", "#Version=F20\n", "#versions=F7\n", "%pre\n", "%end\n", "   \n", "x #version=F8\n", "version=F9\n", "#platform=x\n"]

def v_session(rng):
    ops = []
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        if x < .3:
            y = rng.random()
            s = mixed(rng, rng.choice(NAMES)) if y < .4 else release_text(rng) if y < .85 else odd_names(rng)
            ops.append({"op": "s2v", "s": s})
        elif x < .42:
            ops.append({"op": "v2s", "v": rng.choice(NAMES + [""]), "skip": rng.random() < .4})
        elif x < .5:
            ops.append({"op": "long", "v": rng.choice(NAMES)})
        elif x < .75:
            by = rng.choice(["name", "name", "const", "default"])
            s = {"name": rng.choice([mixed(rng, rng.choice(NAMES)), release_text(rng), odd_names(rng)]), "const": rng.choice(NAMES + ["", "F20"]), "default": ""}[by]
            if by == "name" and re.match(r"^\s*[+-]?[0-9]", s):      # a number as text stands for a constant
                s = "x" + s
            ops.append({"op": "make", "by": by, "s": "F34" if s == "DEVEL" and by == "const" else s, "cls": rng.random() < .5})
        else:
            ls = [rng.choice(FILLER) for _ in range(rng.randint(0, 4))]
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                ls.insert(rng.randint(0, len(ls)), "#version=%s%s" % (rng.choice([mixed(rng, rng.choice(NAMES)), rng.choice(NAMES), release_text(rng), odd_names(rng)]), rng.choice(["\n", "\n", " \n", "\r\n"])))
            if rng.random() < .05:
                ls = ["(missing)"]
            ops.append({"op": "file", "lines": ls})
    return ops

def v_worker(job):
    signal.signal(signal.SIGALRM, vlib.on_alarm)
    import warnings
    warnings.simplefilter("ignore")
    import pykickstart.version as V
    from pykickstart.errors import KickstartVersionError, KickstartError
    d = vlib.scratch()
    os.chdir(d)
    out = []
    path = list(sys.path)
    consts = {n: v for n, v in vars(V).items() if re.match(r"^(DEVEL|FC?[0-9]+|RHEL[0-9]+)$", n) and isinstance(v, int)}
    for ops in job:
        obs = []
        for op in ops:
            o = {"exc": "none", "v": -1, "s": "", "of": "", "text": ""}
            try:
                vlib.timer(10)
                if op["op"] == "s2v":
                    o["v"] = V.stringToVersion(op["s"])
                elif op["op"] == "v2s":
                    c = consts[op["v"]] if op["v"] else 12345
                    o["s"] = V.versionToString(c, skipDevel=True) if op["skip"] else V.versionToString(c)
                elif op["op"] == "long":
                    o["s"] = V.versionToLongString(consts[op["v"]])
                elif op["op"] == "make":
                    args = [] if op["by"] == "default" else [op["s"]] if op["by"] == "name" else [consts[op["s"]] if op["s"] else 12345]
                    if op["cls"]:
                        h = V.returnClassForVersion(*args)
                        o["of"] = h.__name__.replace("Handler", "").upper()
                    else:
                        h = V.makeVersion(*args)
                        o["of"] = type(h).__name__.replace("Handler", "").upper()
                        str(h)
                    o["v"] = h.version
                elif op["op"] == "file":
                    fn = os.path.join(d, "v.ks")
                    if op["lines"] == ["(missing)"]:
                        fn = os.path.join(d, "missing")
                    else:
                        with open(fn, "w", newline="") as f:
                            f.write("".join(op["lines"]))
                    o["v"] = V.versionFromFile(fn)
            except KickstartVersionError as e:
                o["exc"], o["text"] = "version", str(e)
            except KickstartError as e:
                o["exc"], o["text"] = "ks", str(e)
            except (Exception, vlib.Hang) as e:          # pylint: disable=broad-except
                o["exc"], o["text"] = "other", repr(e)
            finally:
                vlib.timer(0)
            obs.append(o)
        out.append((consts, obs))
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)
    return out

def pooled(fn, jobs):
    n = vlib.WORKERS
    size = max(1, min(300, (len(jobs) + n - 1) // n))
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return [o for part in pool.map(fn, [jobs[i:i + size] for i in range(0, len(jobs), size)]) for o in part]

def c15(c):
    rng = random.Random(vlib.SEED * 1000 + 15)
    ses = [[{"op": "consts"}]]
    for v in NAMES:
        ses.append([{"op": "s2v", "s": v}, {"op": "s2v", "s": v.lower()}, {"op": "v2s", "v": v, "skip": True}, {"op": "v2s", "v": v, "skip": False}, {"op": "long", "v": v},
                    {"op": "make", "by": "name", "s": v, "cls": True}, {"op": "make", "by": "name", "s": v.lower(), "cls": False}, {"op": "make", "by": "const", "s": v if v != "DEVEL" else "F34", "cls": False},
                    {"op": "make", "by": "const", "s": v if v != "DEVEL" else "F34", "cls": True}, {"op": "make", "by": "default", "s": "", "cls": False},
                    {"op": "file", "lines": ["#version=%s\n" % v]}, {"op": "file", "lines": ["# c\n", "\n", "#version=%s\n" % v, "#version=F20\n"]}])
    for n in range(0, 45):
        for t in ("Fedora %d", "fedora Core %d", "Red Hat Enterprise Linux %d", "Red Hat Enterprise Linux Server %d.3", "F%d", "FC%d", "RHEL%d", "Fedora release %d"):
            ses.append([{"op": "s2v", "s": t % n}, {"op": "make", "by": "name", "s": t % n, "cls": True}])
    ses += [v_session(rng) for _ in range(5000 * mult())]
    res = pooled(v_worker, ses)
    rows = []
    for ops, (consts, obs) in zip(ses, res):
        rows.append({"consts": consts, "order": [consts.get(r, -1) for r in S.RELEASES[:-1]],
                     "ops": [dict(op, obs={a: b for a, b in o.items() if a != "text"}) for op, o in zip(ops, obs)]})
    fails, stats = vlib.judge_sessions("Trace_KsVersions", rows, {})
    c.add(stats)
    for sid, opn, clause in fails:
        c.violation("%s (%s)" % (clause[:200], json.dumps(ses[sid][opn - 1])[:120]), {"session": ses[sid], "op": opn, "observed": res[sid][1][opn - 1], "clause": clause}, key=clause[:40])
    c.sample({"session": ses[50], "observed": res[50][1]})

# ---------------------------------------------------------------- C16, C17
def c17(c):
    import loaddrv as L
    c.model(vlib.run_tlc("MC_KsLoad", consts={"MaxLen": "5" if vlib.THOROUGH else "3"}, timeout=1500), "MC_KsLoad")
    rng = random.Random(vlib.SEED * 1000 + 17)
    L.judge(c, [L.load_session(rng) for _ in range(2500 * mult())])

def c16(c):
    import loaddrv as L
    c.model(vlib.run_tlc("MC_KsPreprocess", consts={"MaxLines": "5" if vlib.THOROUGH else "4"}, timeout=1500), "MC_KsPreprocess")
    rng = random.Random(vlib.SEED * 1000 + 16)
    L.judge(c, [L.pre_session(rng) for _ in range(2500 * mult())])
