"""C18-C21: the command line tools."""
import contextlib, io, json, os, random, re, shutil, signal, sys
import vlib, sectdrv as S
import tooldrv as T
import parserdrv as P
from checks_load import mixed, odd_names, pooled

def mult():
    return 8 if vlib.THOROUGH else 1

# ---------------------------------------------------------------- C18
def vsession(docs, ver, ops, **kw):
    for p in docs:
        docs[p] = [l if l["t"].endswith("\n") else dict(l, t=l["t"] + "\n") for l in docs[p]]
    return dict({"ver": ver, "docs": docs, "ops": ops}, **kw)

def vargs(rng, ver, e, i, top):
    a = []
    if ver != "DEVEL" or rng.random() < .5:
        v = ver if rng.random() < .9 else mixed(rng, ver)
        a.append(rng.choice([["-v", v], ["--version=" + v], ["--version", v]]))
    if e:
        a.append([rng.choice(["-e", "--firsterror"])])
    if i:
        a.append([rng.choice(["-i", "--followincludes"])])
    a.append([top])
    rng.shuffle(a)
    return sum(a, [])

def c18(c):
    rng = random.Random(vlib.SEED * 1000 + 18)
    L = T.Lines(vlib.SEED * 1000 + 18)
    ses = []
    N = 2600 * mult()
    for k in range(N):
        ver = T.ORDER[k % len(T.ORDER)] if k % 2 else rng.choice(["DEVEL", "F34", "RHEL8", "RHEL7", "F16", "FC6"])
        docs = {}
        docs["/w/top.ks"] = T.document(L, ver, "val", rng.randint(0, 9), rng.choice([0, .1, .3, .6]), docs, ksappend=True)
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            e, i = rng.random() < .35, rng.random() < .6
            top = rng.choice(["/w/top.ks", "top.ks"])
            ops.append({"op": "val", "e": e, "i": i, "top": "/w/top.ks", "argv": vargs(rng, ver, e, i, top), "how": "script" if k % 14 == 3 else "call"})
        ses.append(vsession(docs, ver, ops))
    # many errors
    for n in (255, 256, 257, 300):
        bad = T.plain(P.cmd("nosuch", ["x"]))
        ses.append(vsession({"/w/top.ks": [bad] * n}, "F20", [{"op": "val", "e": False, "i": False, "top": "/w/top.ks", "argv": ["-v", "F20", "/w/top.ks"], "how": "call"}]))
        ses.append(vsession({"/w/top.ks": [bad] * n}, "F20", [{"op": "arg", "want": "fail", "names": [], "argv": ["-v", "F20", "/w/top.ks"], "how": "script"}]))
    # nothing to read
    docs = {"/w/ok.ks": [T.plain(P.cmd("text", []))]}
    blobs = {"/w/latin": list(b"lang en_US # \xe9\xff\n"), "/w/cut": list(b"lang en\n%pre\n\xf0\x9f\n%end\n")}
    args = [("fail", []), ("fail", ["-e"]), ("fail", ["-i", "-v", "F20"]), ("fail", ["/w/none.ks"]), ("fail", ["none/none.ks"]), ("fail", ["/w"]), ("fail", ["."]), ("fail", ["-v", "F99", "/w/ok.ks"]),
            ("fail", ["--version=xyz", "/w/ok.ks"]), ("fail", ["-v", "F3", "ok.ks"]), ("fail", ["-v", "", "ok.ks"]), ("fail", ["-v", "F99", "/w/none.ks"]), ("fail", ["http://127.0.0.1:1/x.ks"]), ("fail", ["ftp://127.0.0.1:1/x.ks"]),
            ("fail", ["http://"]), ("fail", ["http://[::1/x"]), ("fail", ["file:///nonexistent/x.ks"]), ("fail", ["/w/latin"]), ("fail", ["-v", "F20", "/w/cut"]), ("fail", ["/dev/null/x"]), ("fail", ["a\0b"]), ("fail", [""]),
            ("zero", ["-h"]), ("zero", ["--help"]), ("zero", ["-h", "/w/none.ks"]), ("zero", ["-l"]), ("zero", ["--listversions"]), ("zero", ["-l", "-v", "F99"]), ("zero", ["-e", "-l", "/w/none.ks"])]
    for want, a in args:
        names = T.ORDER + (["DEVEL"] if "DEVEL" not in T.ORDER else []) if ("-l" in a or "--listversions" in a) else []
        for how in ("call", "script"):
            if how == "script" and "a\0b" in a:
                continue
            ses.append({"ver": "DEVEL", "docs": dict(docs), "blobs": blobs, "ops": [{"op": "arg", "want": want, "names": names, "argv": a, "how": how}]})
    T.judge(c, ses, L.g.v)

# ---------------------------------------------------------------- C19
def c19(c):
    rng = random.Random(vlib.SEED * 1000 + 19)
    L = T.Lines(vlib.SEED * 1000 + 19)
    ses = []
    for k in range(1800 * mult()):
        ver = T.ORDER[k % len(T.ORDER)] if k % 2 else rng.choice(["DEVEL", "F34", "RHEL8", "RHEL7", "F16", "FC6"])
        docs = {}
        docs["/w/top.ks"] = T.document(L, ver, "flat", rng.randint(0, 9), rng.choice([0, 0, 0, .02, .2]), docs)
        top = rng.choice(["/w/top.ks", "top.ks"])
        a = [["-v", ver] if rng.random() < .5 else ["--version=" + ver]] if ver != "DEVEL" or rng.random() < .5 else []
        rng.shuffle(a)
        ses.append(vsession(docs, ver, [{"op": "flat", "tool": "flat", "ver": ver, "top": "/w/top.ks", "argv": sum(a, []) + ["-c", top], "dest": rng.choice(["", "new", "old", "old"]),
                                         "how": "script" if k % 12 == 5 else "call"}]))
    docs = {"/w/ok.ks": [T.plain(P.cmd("text", []))]}
    blobs = {"/w/latin": list(b"lang en_US # \xe9\xff\n"), "/w/cut": list(b"%pre\n\xf0\x9f\n%end\n"), "/w/incl": b"text\n%include latin\n"}
    for a in ([], ["-c"], ["-c", "/w/none.ks"], ["-c", "/w"], ["-c", "/w/latin"], ["-c", "cut"], ["-c", "incl"], ["-c", ""], ["-v", "F99", "-c", "/w/ok.ks"], ["--version=", "-c", "ok.ks"], ["-c", "http://127.0.0.1:1/x.ks"],
              ["-c", "http://"], ["--bogus", "-c", "ok.ks"], ["-c", "/dev/null/x"]):
        for how in ("call", "script"):
            for dest in ("old", "new", ""):
                ses.append({"ver": "DEVEL", "docs": dict(docs), "blobs": blobs, "ops": [{"op": "arg", "tool": "flat", "ver": "DEVEL", "want": "fail", "names": [], "argv": a, "dest": dest, "how": how}]})
    T.judge(c, ses, L.g.v)

# ---------------------------------------------------------------- C20
def typed(rec):
    return {"op": "type", "text": rec["t"].rstrip("\n")}

def c20(c):
    rng = random.Random(vlib.SEED * 1000 + 20)
    L = T.Lines(vlib.SEED * 1000 + 20)
    ses = []
    for k in range(2000 * mult()):
        ver = T.ORDER[k % len(T.ORDER)] if k % 2 else rng.choice(["DEVEL", "F34", "RHEL8", "RHEL7", "F16", "FC6"])
        docs, ops = {}, []
        start = {"ver": ver, "dest": rng.choice(["", "new", "old"]), "how": "script" if k % 12 == 7 else "call", "end": rng.choice(["eof", "quit", "^C"]), "argv": []}
        if start["how"] == "script" and start["end"] == "^C":
            start["end"] = "eof"
        if ver != "DEVEL" or rng.random() < .5:
            start["argv"] += [rng.choice(["-v", "--version"]), ver]
        wrong = rng.choice([0, .1, .3])
        if rng.random() < .5:
            top = "/w/seed.ks"
            if rng.random() < .9:
                docs[top] = T.document(L, ver, "shell", rng.randint(0, 5), wrong, docs, ksappend=True)
            ops.append({"op": "seed", "top": top})
            start["argv"] += [rng.choice(["-i", "--input"]), rng.choice([top, "seed.ks"])]
        for j in range(rng.randint(0, 9)):
            x = rng.random()
            if x < .1 and start["how"] == "call":
                names = T.ORDER and sorted(T.G["versions"][ver])
                cmd = rng.choice(names + ["nosuch"])
                w = rng.choice(names + [".show", ".clear", ".quit", "nosuch"])
                w = w[:rng.randint(0, len(w))]
                if rng.random() < .4:
                    line, cmd = rng.choice(["", "  ", "\t", " \t "]) + w, ""
                else:
                    opts = sorted(T.G["classes"][T.G["versions"][ver][cmd]]["opt"]) if cmd in T.G["versions"][ver] else []
                    w = rng.choice(opts + ["--x"])
                    w = w[:rng.randint(0, len(w))]
                    line = rng.choice(["", " ", "\t"]) + cmd + rng.choice([" ", " ", "\t", "  "]) + rng.choice(["", "x ", "--y ", "%s " % rng.choice(names)]) + w
                ops.append({"op": "comp", "line": line, "cmd": cmd, "word": w, "tail": rng.choice(["", "", "", " ", " x", " %s --y" % rng.choice(names)])})
            elif x < .2:
                ops.append({"op": rng.choice(["show", "clear", "show"]), "text": ""})
                ops[-1]["text"] = rng.choice([".%s", ".%s", ".%s  ", ".%s now"]) % ops[-1]["op"]
            elif x < .23:
                ops.append({"op": "bogus", "text": rng.choice([".", ".nosuch", ".Show", ".quitx", "..clear"])})
            else:
                y = rng.random()
                if y < .7:
                    rec = L.wrong(ver) if rng.random() < wrong else L.good(ver)
                elif y < .78:
                    rec = T.plain(rng.choice(P.V_BLANK + P.V_COMMENT + [P.comment("", p="")]))
                elif y < .9:
                    f = "/w/t%d.ks" % j
                    docs[f] = T.document(L, ver, "shell", rng.randint(0, 4), wrong / 2, docs, depth=2)
                    rec = T.inc(rng, f if rng.random() < .5 else f[3:])
                elif y < .95:
                    rec = T.plain(rng.choice(P.V_QUOTE + P.V_QTAG + [P.inc("/w/none.ks"), P.inc(""), P.V_ZZZ[0], P.V_END[0]]))
                else:
                    rec = T.plain(rng.choice(P.V_SCRIPT[:3] + P.V_NULL[:1]))
                name = "typed:%d" % j
                docs[name] = [rec]
                ops.append({"op": "type", "top": name, "text": rec["t"].rstrip("\n")})
        ops.append({"op": "end"})
        s = vsession(docs, ver, ops, start=start)
        ses.append(s)
    T.judge(c, ses, L.g.v)

# ---------------------------------------------------------------- C21
CMD_HEAD = re.compile(r"^The following commands were (removed|deprecated|added) in (.*):$")
OPT_HEAD = re.compile(r"^The following options were (added to|removed from|deprecated from) the (\S+) command in (.*):$")

def report(text, t):
    o = {"blocks": [], "removed": [], "deprecated": [], "added": [], "opts": [], "named": True, "other": ""}
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        m, n = CMD_HEAD.match(l), OPT_HEAD.match(l)
        if m or n:
            i += 1
            raw = lines[i] if i < len(lines) else ""
            words = raw.split(" ") if raw else []
            if m:
                o["blocks"].append(m.group(1))
                o[m.group(1)] += words
                o["named"] = o["named"] and m.group(2) == t
            else:
                o["opts"].append({"c": n.group(2), "kind": n.group(1).split()[0], "l": words})
                o["named"] = o["named"] and n.group(3) == t
        elif l.strip():
            o["other"] = o["other"] or l
        i += 1
    return o

def vd_worker(job):
    signal.signal(signal.SIGALRM, vlib.on_alarm)
    import warnings
    warnings.simplefilter("ignore")
    from tools import ksverdiff
    out = []
    for s in job:
        buf, err = io.StringIO(), io.StringIO()
        o = {"exc": "", "rc": -1, "said": False}
        try:
            vlib.timer(20)
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
                o["rc"] = ksverdiff.main(s["argv"])
        except (Exception, SystemExit, vlib.Hang) as e:          # pylint: disable=broad-except
            o["exc"] = repr(e)
        finally:
            vlib.timer(0)
        if not isinstance(o["rc"], int):
            o["rc"] = -1
        o["said"] = bool(buf.getvalue().strip() or err.getvalue().strip())
        o.update(report(buf.getvalue(), s["tt"]))
        o["text"] = buf.getvalue()
        out.append(o)
    return out

def c21(c):
    rng = random.Random(vlib.SEED * 1000 + 21)
    ses = []
    def add(f, t, ft, tt):
        ses.append({"f": f, "t": t, "tt": tt, "argv": rng.choice([["-f", ft, "-t", tt], ["--from=" + ft, "--to=" + tt], ["-t", tt, "-f", ft]])})
    for f in S.RELEASES + (["DEVEL"] if "DEVEL" not in S.RELEASES else []):
        for t in S.RELEASES + (["DEVEL"] if "DEVEL" not in S.RELEASES else []):
            add(f, t, f if rng.random() < .9 else mixed(rng, f), t if rng.random() < .9 else mixed(rng, t))
    bad = ["F99", "xyz", "RHEL", "20x", "F3", "FC7", "Fedora"]
    for _ in range(60):
        g, b = rng.choice(S.RELEASES), rng.choice(bad)
        x = rng.random()
        if x < .4:
            add("", g, b, g)
        elif x < .8:
            add(g, "", g, b)
        else:
            ses.append({"f": "", "t": "", "tt": g, "argv": rng.choice([[], ["-f", g], ["-t", g], ["-f", b, "-t", b]])})
    # the same questions again, in another order: an answer must not depend on the ones before
    ses += rng.sample(ses, 200)
    obs = pooled(vd_worker, ses)
    rows = [{"f": s["f"], "t": s["t"], "obs": {k: v for k, v in o.items() if k != "text"}} for s, o in zip(ses, obs)]
    fails, stats = vlib.judge_sessions("Trace_KsVerdiff", rows, {})
    c.add(stats)
    for sid, _op, clause in fails:
        c.violation("%s: %s" % (" ".join(ses[sid]["argv"]), clause[:300]), {"session": ses[sid], "observed": obs[sid], "clause": clause}, key=clause.split(":")[0][:60])
    c.sample({"session": ses[40], "observed": obs[40]})
