"""C07-C09: package selection, section headers, documents written and read back."""
import itertools, random
import vlib, sectdrv as S, parserdrv as D

def mult():
    return 8 if vlib.THOROUGH else 1

def c07(c):
    c.model(vlib.run_tlc("MC_KsPackages", consts={"MaxLen": "5"}, timeout=1500), "MC_KsPackages (all sequences of 5 lines)")
    rng = random.Random(vlib.SEED * 1000 + 7)
    b = S.Batch()
    # every sequence over the small alphabet, added by program
    top = 4 if vlib.THOROUGH else 3
    for n in range(1, top + 1):
        for seq in itertools.product(S.SMALL, repeat=n):
            v = rng.choice(S.RELEASES)
            ops = [S.addop(list(seq), one=rng.random() < .5)]
            if n > 1 and rng.random() < .3:
                k = rng.randint(1, n - 1)
                ops = [S.addop(list(seq[:k]), one=False), S.addop(list(seq[k:]), one=rng.random() < .5)]
            b.add(v, *(ops + ([S.RT] if rng.random() < .25 else [])))
    for l in S.BADL:
        for pre in S.SMALL:
            b.add(rng.choice(S.RELEASES), S.addop([pre], True), S.addop([l], True))
    b.judge(c)
    # documents: several sections, comments, blanks, includes, accumulation over documents
    for i in range(4000 * mult()):
        v = rng.choice(S.RELEASES)
        ops = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            d = S.Doc(rng, v, inc=rng.choice([0, 0, .3]))
            for _ in range(rng.choice([1, 1, 2, 3])):
                d.gap()
                ls = []
                for _ in range(rng.randint(0, 7)):
                    x = rng.random()
                    ls.append(S.comment(rng, rng.choice(S.SMALL)) if x < .6 else S.comment(rng, rng.choice(S.FANCY)) if x < .85 else
                              rng.choice(S.NOISE) if x < .99 else rng.choice(S.BADL))
                d.packages(S.some_header(rng, "%packages", rng.choice([0, 0, 0, 1]), 0), ls)
            ops.append(d.op())
        b.add(v, *(ops + [S.RT]))
    b.judge(c)

def c08(c):
    rng = random.Random(vlib.SEED * 1000 + 8)
    b = S.Batch()
    # every version: every option alone, every pair (packages), every option on every script tag
    for v in S.RELEASES:
        for tag in S.SCRIPT_TAGS + ["%packages"]:
            flags = S.PKG_FLAGS if tag == "%packages" else ["--erroronfail", "--nochroot"]
            vals = S.PKG_VALS if tag == "%packages" else ["--interpreter", "--log", "--logfile"]
            alls = [S.opt(o) for o in flags] + [S.opt(o, "3" if o in ("--timeout", "--retries") else "/v") for o in vals]
            combos = [[]] + [[x] for x in alls]
            # the wrong way round, other sections' options, unknown ones
            combos += [[S.opt(o, "1")] for o in flags] + [[S.opt(o)] for o in vals]
            combos += [[S.opt(o)] for o in ("--bogus", "--erroronfail", "--nochroot", "--excludedocs", "--default") if o not in flags]
            pairs = list(itertools.permutations(alls, 2))
            combos += [list(p) for p in pairs if tag != "%packages" or vlib.THOROUGH or rng.random() < .35]
            for opts in combos:
                d = S.Doc(rng, v)
                d.gap()
                h = S.header(tag, opts)
                if tag == "%packages":
                    d.packages(h, [S.SMALL[0]])
                else:
                    d.script(h, "echo x\n")
                b.add(v, d.op(), *([S.RT] if rng.random() < .15 else []))
            for st in ("stray", "x=y"):
                d = S.Doc(rng, v)
                h = S.header(tag, alls[:1], st, rng.choice([0, None]))
                d.packages(h, []) if tag == "%packages" else d.script(h, "a\n")
                b.add(v, d.op())
    b.judge(c)
    docs(c, rng, b, 4500 * mult(), S.RT, .04)

def docs(c, rng, b, n, *tail_and_odd):
    tail, odd = tail_and_odd
    for i in range(n):
        v = rng.choice(S.RELEASES)
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            d = S.Doc(rng, v, inc=.05)
            for _ in range(rng.choice([1, 2, 2, 3, 4])):
                d.gap()
                tag = rng.choice(S.SCRIPT_TAGS + ["%packages"] * 4)
                h = S.some_header(rng, tag, None, odd)
                if tag == "%packages":
                    # options of later releases are refused often enough: prefer fitting ones
                    if rng.random() < .7:
                        h = fitting(rng, v)
                    d.packages(h, [S.comment(rng, rng.choice(S.SMALL + S.FANCY)) for _ in range(rng.randint(0, 3))])
                else:
                    d.script(h, rng.choice(S.BODIES))
            ops.append(d.op())
        b.add(v, *(ops + [tail]))
    b.judge(c)

def at_least(v, r):
    return S.RELEASES.index(v) >= S.RELEASES.index(r)

def fitting(rng, v):
    """Mostly acceptable %packages headers of that release (a hint for the generator; the specification decides)."""
    fl = ["--excludedocs", "--ignoremissing"]
    vals = []
    if at_least(v, "F7"): fl.append("--default")
    if at_least(v, "F9"): vals += ["--inst-langs", "--instLangs"]
    if at_least(v, "RHEL6") and not at_least(v, "F22"): fl.append("--nobase")
    if at_least(v, "F18"): fl.append("--multilib")
    if at_least(v, "F21"): fl.append("--nocore")
    if at_least(v, "RHEL7"): vals += ["--timeout", "--retries"]
    if at_least(v, "F24"): fl += ["--exclude-weakdeps", "--excludeWeakdeps"]
    if at_least(v, "F32"): fl.append("--ignorebroken")
    out = []
    for o in rng.sample(fl + vals, rng.randint(0, min(4, len(fl + vals)))):
        if o in vals:
            x = S.valued(rng, o)
            if o in ("--timeout", "--retries") and not x["isi"]:
                x = S.opt(o, str(rng.randint(0, 99)))
            out.append(x)
        else:
            out.append(S.opt(o))
    return S.header("%packages", out)

def c09(c):
    rng = random.Random(vlib.SEED * 1000 + 9)
    b = S.Batch()
    docs(c, rng, b, 4500 * mult(), S.RT, .01)
    # single scripts: every body x every option value
    for v in S.RELEASES:
        for tag in S.SCRIPT_TAGS:
            for body in S.BODIES:
                d = S.Doc(rng, v)
                d.script(S.header(tag, [S.opt(rng.choice(["--interpreter", "--log"]), rng.choice(S.STRINGS))] if rng.random() < .5 else []), body)
                b.add(v, d.op(), S.RT)
    b.judge(c)
    # pass-through sections, platform, commands: judged against the reader specification
    p = D.Batch()
    for i in range(3000 * mult()):
        v = D.rver(rng)
        doc = D.document(rng, rng.randint(2, 14), badrate=0.02, unclosed=0.03, new=v in D.NEWV)
        if rng.random() < .2:
            doc.insert(0, rng.choice(D.V_COMMENT))
        p.add({"str:a": doc}, [D.newop(v, unkfatal=False, fatal=False), D.rread(1, "str:a"), D.rstr(1)])
    p.judge(c)
