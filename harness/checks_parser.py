"""C01-C05: the reader."""
import random
import vlib, parserdrv as D, libdrv

def model(c):
    big = vlib.THOROUGH
    c.model(vlib.run_tlc("MC_KsParser", consts={"FlagSets": '"all"' if big else '"some"', "MainMax": "3", "IncMax": "2" if not big else "3"},
                         timeout=3000), "MC_KsParser")
    c.assumptions.append("lines are abstracted to the fields of the line record (kind, words, quoting, text); the harness "
                         "builds text and record together")

def real(c, n, size, wrong, flags, write, twice=0.0):
    """The same with all real commands (Trace_KsLibrary)."""
    libdrv.judge(c, *libdrv.single(vlib.SEED * 1000 + int(c.prop[1:]), n * mult(), size, wrong, flags, write, twice))

def mult():
    return 8 if vlib.THOROUGH else 1

REPS = [D.V_BLANK[0], D.V_COMMENT[3], D.V_OK[0], D.V_BAD[0], D.V_UNK[0], D.V_QUOTE[0], D.V_SCRIPT[0], D.V_SCRIPT_OPT[1],
        D.V_SCRIPT_BAD[0], D.V_PKG[0], D.V_NULL[0], D.V_REC[0], D.V_REC[1], D.V_ZZZ[0], D.V_END[0]]

def small_docs(b, rng, reps, maxlen, flagsets, share=1.0, suffix=()):
    n = 0
    for doc in D.exhaustive_docs(maxlen, reps):
        if len(doc) == maxlen and rng.random() > share:
            continue
        for new in (True, False):
            for fl in flagsets:
                v = D.rver(rng, new)
                top = "str:a" if rng.random() < 0.8 else "/w/a.ks"
                b.add({top: doc + list(suffix)}, [D.newop(v, **fl), D.rread(1, top)] + ([D.rstr(1)] if rng.random() < 0.3 else []))
                n += 1
    return n

def c01(c):
    model(c)
    rng = random.Random(vlib.SEED * 1000 + 1)
    b = D.Batch()
    small_docs(b, rng, REPS, 3, [dict(), dict(unkfatal=False)], 1.0 if vlib.THOROUGH else 0.6)
    b.judge(c)
    if vlib.THOROUGH:
        small_docs(b, rng, [REPS[i] for i in (0, 1, 2, 5, 6, 9, 10, 12, 13, 14)], 5, [dict(unkfatal=False)], 0.5)
        b.judge(c)
    for i in range(5000 * mult()):
        v = D.rver(rng)
        doc = D.document(rng, rng.randint(2, 14), badrate=0.02, unclosed=0.05, new=v in D.NEWV)
        top = "str:a" if rng.random() < .6 else "/w/a.ks"
        b.add({top: doc}, [D.newop(v, unkfatal=rng.random() < .3), D.rread(1, top), D.rstr(1)])
    b.judge(c)

def inc_tree(rng, depth, new, ctx="cmd", names=None):
    """(lines, files): lines of a file in context ctx; files it needs."""
    files, out = {}, []
    dirs = ["/w", "/w/sub", "/w/sub/deep", "/w/other"]
    def decoy(path, ctx):
        """Another file an include could be taken to mean."""
        if path not in files:
            files[path] = D.body_lines(rng, 2) if ctx == "sec" else [D.pick(rng, D.V_OK) for _ in range(2)]
    def ref_for(path, mydir, ctx):
        x = rng.random()
        base = path.rsplit("/", 1)[1]
        if x < 0.5:
            return path
        if path.startswith("/w/") and rng.random() < 0.5:
            if rng.random() < .5:
                decoy(mydir + "/" + path[3:], ctx)
            return path[3:]                      # relative to the working directory
        if path.rsplit("/", 1)[0] == mydir:
            if rng.random() < .4:
                decoy(rng.choice(dirs + [mydir.rsplit("/", 1)[0] or "/w"]) + "/" + base, ctx)
            return base                          # next to the including file
        return path
    def make(depth, ctx, mydir, toplevel=False):
        ls = []
        if ctx == "sec":
            ls = D.body_lines(rng, rng.randint(0, 4))
            while depth and rng.random() < 0.5:
                ls.insert(rng.randint(0, len(ls)), child(depth - 1, "sec", mydir))
        else:
            for _ in range(rng.randint(0, 5)):
                x = rng.random()
                if x < 0.4:
                    ls.append(D.pick(rng, D.V_OK, D.V_OK, D.V_BLANK, D.V_COMMENT))
                elif x < 0.45:
                    ls.append(D.pick(rng, D.V_BAD, D.V_UNK))
                elif x < 0.65 and depth:
                    ls.append(child(depth - 1, "cmd", mydir))
                elif x < 0.7:
                    ls.append(rng.choice([D.inc("/w/none.ks"), D.inc("none.ks"), D.inc("", "%include"), D.inc("", "%include ''"), D.inc("/w/sub/none/x")]))
                else:
                    incs = [child(depth - 1, "sec", mydir)] if depth and rng.random() < 0.7 else []
                    if rng.random() < 0.07:
                        incs.append(D.inc("/w/gone"))
                    closed = rng.random() < (0.95 if new else 0.6)
                    ls += D.section(rng, closed=closed, bad=0.05, maxbody=3, incs=incs)
        if ls and rng.random() < 0.15:
            ls[-1] = dict(ls[-1], t=ls[-1]["t"].rstrip("\n") or "\n")
        return ls
    def child(depth, ctx, mydir):
        d = rng.choice(dirs + [mydir, mydir])
        if rng.random() < .08:
            n = "gone%d.ks" % len(files)
            decoy(rng.choice(dirs) + "/" + n, ctx)
            return D.inc(rng.choice([n, n, "sub/" + n, "deep/" + n]))
        path = "%s/f%d.ks" % (d if d else "/w", len(files) + 1)
        files[path] = []
        files[path] = make(depth, ctx, d or "/w")
        return D.inc(ref_for(path, mydir, ctx))
    return make, files

def c02(c):
    model(c)
    rng = random.Random(vlib.SEED * 1000 + 2)
    b = D.Batch()
    n = 0
    for i in range(9000 * mult()):
        v = D.rver(rng)
        make, files = inc_tree(rng, 3, v in D.NEWV)
        top = rng.choice(["str:a", "/w/a.ks", "/w/sub/a.ks"])
        doc = make(rng.choice([1, 2, 3]), "cmd", {"str:a": "", "/w/a.ks": "/w", "/w/sub/a.ks": "/w/sub"}[top])
        fl = dict(fatal=rng.random() < .8, follow=rng.random() < .9, missfatal=rng.random() < .7, unkfatal=rng.random() < .5)
        files[top] = doc
        if not any(l["k"] == "inc" for l in doc) and rng.random() < .8:
            continue
        n += 1
        b.add(files, [D.newop(v, **fl), D.rread(1, top)] + ([D.rstr(1)] if rng.random() < .4 else []))
    b.judge(c)
    # every position of one include in small documents, every small included file
    reps = [D.V_BLANK[0], D.V_COMMENT[2], D.V_OK[3], D.V_SCRIPT[1], D.V_PKG[0], D.V_NULL[0], D.V_END[0], D.inc("/w/i.ks"), D.inc("i.ks")]
    bodies = [[D.V_COMMENT[2], D.V_OK[0]], [D.V_BLANK[0], D.V_COMMENT[0], D.V_BLANK[1], D.V_OK[1]], [D.V_QUOTE[1], D.V_OK[0]],
              [D.V_ZZZ[1], D.V_TEXT[0]], [dict(D.V_OK[0], t="cmda x")], []]
    for doc in D.exhaustive_docs(4 if vlib.THOROUGH else 3, reps):
        if sum(1 for l in doc if l["k"] == "inc") != 1:
            continue
        for body in bodies:
            v = D.rver(rng)
            secs = D.V_END[0]
            for d in ([doc, doc + [secs]] if rng.random() < .5 else [doc + [secs, D.V_OK[2]]]):
                b.add({"/w/a.ks": d, "/w/i.ks": body}, [D.newop(v, missfatal=rng.random() < .7, unkfatal=False), D.rread(1, "/w/a.ks")])
    b.judge(c)
    real(c, 900, (2, 9), [0, 0, .15], lambda r: D.rflags(r, .15), .3)


def c03(c):
    model(c)
    rng = random.Random(vlib.SEED * 1000 + 3)
    b = D.Batch()
    errs = [D.V_BAD[0], D.V_BAD[1], D.V_UNK[0], D.V_UNK[3], D.V_SCRIPT_BAD[0], D.V_SCRIPT_BAD[1], D.V_PKG_BAD[0], D.V_ZZZ[0], D.inc("", "%include"),
            D.V_END[0]]
    pre = [[], [D.V_BLANK[0]], [D.V_COMMENT[1]], [D.V_OK[0]], [D.V_SCRIPT[0], D.V_TEXT[0], D.V_END[0]], [D.V_PKG[0], D.V_BLANK[0], D.V_OK[0], D.V_COMMENT[0], D.V_END[0]],
           [D.V_NULL[1], D.V_BLANK[0], D.V_COMMENT[0], D.V_TEXT[0], D.V_END[1]], [D.V_REC[1], D.V_BLANK[0], D.V_END[0]], [D.V_REC[0], D.V_BLANK[0], D.V_TEXT[0], D.V_END[0]], [D.inc("/w/i.ks")],
           [D.V_SCRIPT[1], D.inc("/w/b.ks"), D.V_TEXT[0], D.V_END[0]], [D.V_SCRIPT[0], D.V_TEXT[0]], [D.V_PKG[0], D.V_OK[0]],
           [D.V_SCRIPT[2], D.V_BLANK[0], D.V_BLANK[0], D.V_TEXT[1], D.V_BLANK[1]], [D.V_KSA[0]]]
    inner = {"/w/i.ks": [D.V_BLANK[0], D.V_OK[1], D.V_SCRIPT[0], D.V_TEXT[0], D.V_END[0], D.V_OK[2]], "/w/b.ks": [D.V_COMMENT[2], D.V_TEXT[0], D.V_BLANK[0]]}
    for p1 in pre:
        for p2 in pre:
            for e in errs + [None]:
                for new in (True, False):
                    v = D.rver(rng, new)
                    doc = p1 + p2 + ([e] if e else []) + [D.V_OK[4], D.V_SCRIPT_OPT[0], D.V_TEXT[0], D.V_END[0], D.V_OK[0]]
                    x = rng.random()
                    files = dict(inner)
                    top = "/w/a.ks"
                    if x < .25:
                        files["/w/m.ks"] = doc
                        doc = [D.V_OK[0], D.V_BLANK[0], D.inc("/w/m.ks"), D.V_OK[2]]
                    files[top] = doc
                    b.add(files, [D.newop(v, fatal=rng.random() < .85), D.rread(1, top)])
    for i in range(4000 * mult()):
        v = D.rver(rng)
        doc = D.document(rng, rng.randint(2, 14), badrate=0.06, unclosed=0.05, new=v in D.NEWV)
        doc.insert(rng.randint(0, len(doc)), rng.choice(errs))
        b.add({"str:a": doc}, [D.newop(v, **D.rflags(rng, .15)), D.rread(1, "str:a")])
    b.judge(c)
    real(c, 1100, (1, 9), [.1, .3], lambda r: dict(D.rflags(r, .2), fatal=r.random() < .6), 0, .2)
    import checks_cmds
    checks_cmds.c03(c)


def c04(c):
    model(c)
    rng = random.Random(vlib.SEED * 1000 + 4)
    b = D.Batch()
    reps = [D.V_OK[0], D.V_OK[1], D.V_BAD[0], D.V_BOOM[0], D.V_UNK[0], D.V_SCRIPT_BAD[0], D.V_SCRIPT[0], D.V_PKG_BAD[0], D.V_TEXT[0], D.V_END[0], D.V_ZZZ[0]]
    small_docs(b, rng, reps, 3, [dict(fatal=True), dict(fatal=False)], 1.0)
    for i in range(6000 * mult()):
        v = D.rver(rng)
        fl = D.rflags(rng, .3)
        fl["fatal"] = rng.random() < .35
        doc = D.document(rng, rng.randint(2, 14), badrate=0.4, unclosed=0.03, new=v in D.NEWV)
        files = {"str:a": doc}
        if rng.random() < .3:
            files["/w/i.ks"] = D.document(rng, rng.randint(1, 6), badrate=0.4, unclosed=0.1, new=v in D.NEWV)
            doc.insert(0, D.inc("/w/i.ks"))
            doc.insert(0, D.V_OK[2])
        b.add(files, [D.newop(v, **fl), D.rread(1, "str:a"), D.rstr(1)])
    b.judge(c)
    real(c, 1100, (2, 9), [.3, .6], lambda r: dict(D.rflags(r, .15), fatal=r.random() < .35), .5, .2)


def c05(c):
    model(c)
    rng = random.Random(vlib.SEED * 1000 + 5)
    b = D.Batch()
    for i in range(7000 * mult()):
        files, ops = {}, []
        nd = rng.randint(2, 4)
        np = rng.choice([1, 2, 2, 3])
        vers = [D.rver(rng, rng.random() < .6) for _ in range(np)]
        for k in range(nd):
            new = rng.random() < .7
            doc = D.document(rng, rng.randint(1, 6), badrate=0.1, unclosed=0.15, new=new)
            nm = rng.choice(["str:d%d" % k, "/w/d%d.ks" % k, "/w/sub/d%d.ks" % k])
            if rng.random() < .35:
                doc.insert(rng.randint(0, len(doc)), rng.choice([D.V_QUOTE[0], D.inc("", "%include"), D.inc("nothere"), D.V_ZZZ[1], D.V_BOOM[0]]))
            if rng.random() < .3:
                doc.insert(0, D.inc(rng.choice(["x.ks", "/w/sub/x.ks"])))
                files["/w/sub/x.ks"] = D.V_OK[:2] + [D.V_SCRIPT[0], D.V_TEXT[0], D.V_END[0]]
            files[nm] = doc
        tops = [t for t in files if "x.ks" not in t]
        made = 0
        total = rng.randint(4, 9)
        while len(ops) < total or not any(o["op"] == "read" for o in ops):
            if made < np and (made == 0 or rng.random() < .4):
                ops.append(D.newop(vers[made], **D.rflags(rng, .3)))
                made += 1
            elif rng.random() < .7:
                ops.append(D.rread(rng.randint(1, made), rng.choice(tops)))
            else:
                ops.append(D.rstr(rng.randint(1, made)))
        ops.append(D.rstr(rng.randint(1, made)))
        b.add(files, ops)
    b.judge(c)
    libdrv.judge(c, *libdrv.histories(vlib.SEED * 1000 + 5, 900 * mult()))

