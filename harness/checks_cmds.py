"""C10-C14: command lines against KsCommands/KsRules (Trace_KsCommands)."""
import itertools
import vlib, cmddrv, gencmd
from gencmd import QUOTED, needs, G, ORDER, CMDS, UNION, Gen, bases, good, takes, odd, oddwords, BAD, BADVAL

FAST = not vlib.THOROUGH
STORAGE = ["autopart", "part", "raid", "volgroup", "logvol", "mount", "reqpart", "btrfs", "clearpart"]

def cls(ver, cmd):
    return G["classes"].get(G["versions"][ver].get(cmd))

def active(ver):
    for cmd in CMDS:
        c = cls(ver, cmd)
        if c is not None and c["kind"] == "active" and c["fam"] != "Method":
            yield cmd, c

def scopes(g):
    """(version, command, class): each class once, in a version picked at random; everything when thorough."""
    by = {}
    for ver in ORDER:
        for cmd, c in active(ver):
            by.setdefault((G["versions"][ver][cmd], cmd), []).append((ver, cmd, c))
    for k in sorted(by):
        yield g.rnd.choice(by[k])

LINES = ("rejection is not", "rejection names", "the error message", "a warning names", "line number")

def finish(c, g, only=None):
    runs = cmddrv.run_all(g.sessions, g.v)
    fails, stats = cmddrv.judge(runs, g.v)
    if only:
        fails = [x for x in fails if x[2].startswith(only)]
    c.add(stats)
    for s in runs[:: max(1, len(runs) // 4)]:
        c.sample({"version": s["ver"], "lines": [x["l"]["raw"] for x in s["ops"] if x["op"] == "line"]})
    for i, op, v in fails:
        s = runs[i]
        x = s["ops"][op - 1]
        line = x["l"]["raw"] if x["op"] == "line" else "(written)"
        key = finding(s, op, v)
        c.violation("%s: %s: %s" % (s["ver"], line, v), {"version": s["ver"], "lines": [y["l"]["raw"] for y in s["ops"] if y["op"] == "line"],
                    "failing": op, "clause": v, "observed": x["obs"]}, key)
    c.assumptions += ["Option and attribute tables (spec/grammar.json) state each release's syntax; their content was reviewed against the documentation and release history in the option help.",
                      "Abbreviated option names are unspecified."]

def finding(s, op, v):
    """Identity of a failing case, for the recorded findings."""
    x = s["ops"][op - 1]
    if x["op"] == "line" and x["l"]["cmd"] == "raid" and v == "rejection is not a kickstart parse error" and "F19_Raid" not in cls(s["ver"], "raid")["mro"] \
            and x["obs"]["what"].startswith("ValueError(\"invalid literal for int()"):
        return "raid --device=<not a number>|ValueError"
    if x["op"] == "str" and s["ver"] in ("FC3", "RHEL3", "RHEL4") and v.replace("\\", "") in ('read back: bootloader: {"linear"}', 'read back: lilo: {"linear"}') \
            and any(b["cmd"] in ("bootloader", "lilo") and b["a1"].get("linear") for b in x["obs"]["back"]):
        return "bootloader --nolinear|not written"
    cmds = [y["l"]["cmd"] for y in s["ops"] if y["op"] == "line"]
    if x["op"] == "str" and s["ver"] in ("F16", "F17", "F18", "F19") and v == "written file: KickstartParseError" \
            and "autopart" in cmds and "volgroup" in cmds[:cmds.index("autopart")]:
        return "volgroup then autopart|unreadable"
    return "%s|%s|%s" % (G["versions"][s["ver"]].get(x["l"]["cmd"], "") if x["op"] == "line" else s["ver"], cmds[op - 1] if x["op"] == "line" else "str", v)

def value(g, fam, n, o=None, bad=0.0, strange=0.0, writing=False):
    if strange and o is not None and g.rnd.random() < strange:
        vs = odd(fam, n, o, writing)
        if vs:
            return g.rnd.choice(vs)
    if bad and g.rnd.random() < bad:
        b = BAD.get((fam, n))
        if b is None and o is not None:
            b = BADVAL.get(o["type"]) or (["nosuch"] if o["ch"] else None)
        if b:
            return g.rnd.choice(b)
    return g.rnd.choice(good(fam, n, o))

def combo(g, c, size, bad=0.0, strange=0.0, writing=False):
    """A random line of this class: a base line and some more options."""
    o, p = g.rnd.choice(bases(c))
    names = [n for n in sorted(c["opt"]) if n not in dict(o)]
    g.rnd.shuffle(names)
    opts = list(o) + [(n, value(g, c["fam"], n, c["opt"][n], bad, strange, writing)) for n in names[:size]]
    if g.rnd.random() < .6:
        opts = needs(c, opts)
    if bad and g.rnd.random() < bad and opts:
        opts.pop(g.rnd.randrange(len(opts)))
    if bad and g.rnd.random() < bad / 2:
        p = p + ["surplus"] if g.rnd.random() < 0.6 else p[:-1]
    return opts, p

def shuffled(g, opts):
    opts = list(opts)
    g.rnd.shuffle(opts)
    return opts

# ---------------------------------------------------------------- C10
def c10(c):
    g = Gen(vlib.SEED * 7 + 10)
    for ver in ORDER:
        unknown = [cmd for cmd in CMDS + ["nosuchcommand", "Part", "%bogus-", "network-"] if cmd not in G["versions"][ver] and not cmd.startswith("%")]
        for k in range(0, len(unknown), 8):
            g.add(ver, [g.line(cmd, 2 + j, *gencmd.anybase(cmd)) for j, cmd in enumerate(unknown[k:k + 8])])
        for cmd in CMDS:
            cl = cls(ver, cmd)
            if cl is None:
                continue
            if cl["fam"] == "Method" and cl["kind"] == "active":
                for k, (o, p) in enumerate((([], []), ([("--url", "http://h/")], []), ([], ["cdrom"]))):
                    g.add(ver, [g.line(cmd, 2 + k, o, p)])
                continue
            for o, p in bases(cl):
                g.add(ver, [g.line(cmd, 3, o, p)])
            if cl["kind"] != "active":
                g.add(ver, [g.line(cmd, 1, [], [])])
                g.add(ver, [g.line(cmd, 2, [("--bogus", None)], ["x"])])
                continue
            o, p = bases(cl)[0]
            for n in sorted(UNION.get(cl["fam"], {})):
                if n in dict(o):
                    continue
                g.add(ver, [g.line(cmd, 2, o + [(n, value(g, cl["fam"], n, cl["opt"].get(n)))], p)])
            for n, v in (("--bogus", None), ("--bogus", "1"), ("--%sx" % g.rnd.choice(sorted(UNION.get(cl["fam"]) or ["--q"]))[2:], "1")):
                if n not in UNION.get(cl["fam"], {}):
                    g.add(ver, [g.line(cmd, 4, o + [(n, v)], p, g.rnd.choice(["front", "back"]))])
    # names that go on where an option's ends, and other spellings of it
    for ver, cmd, cl in scopes(g):
        for n in sorted(cl["opt"]):
            for m in (n + "x", n.upper(), n.replace("-", "_").replace("__", "--", 1)):
                if m not in UNION.get(cl["fam"], {}):
                    o, p = bases(cl)[0]
                    g.add(ver, [g.line(cmd, 2, o + [(m, value(g, cl["fam"], n, cl["opt"][n]))], p)])
    finish(c, g)

# ---------------------------------------------------------------- C11
def c11(c):
    g = Gen(vlib.SEED * 7 + 11)
    rounds = 1 if FAST else 6
    for r in range(rounds):
        for ver, cmd, cl in scopes(g):
            names = sorted(cl["opt"])
            bs = bases(cl)
            # every option with every value, in both spellings
            if r == 0:
                for n in names:
                    for v in good(cl["fam"], n, cl["opt"][n]):
                        for sep, place in (("=", "front"), (" ", "back")):
                            o, p = bs[g.rnd.randrange(len(bs))]
                            o = [x for x in o if x[0] != n] + [(n, v)]
                            g.add(ver, [g.line(cmd, 2, needs(cl, o) if sep == " " else o, p, place, sep)])
                    for v in odd(cl["fam"], n, cl["opt"][n]):
                        o, p = bs[g.rnd.randrange(len(bs))]
                        g.add(ver, [g.line(cmd, 2, [x for x in o if x[0] != n] + [(n, v)], p, g.rnd.choice(["front", "back"]), "=")])
                for o, p in bs:
                    for q in oddwords(cl, p):
                        g.add(ver, [g.line(cmd, 2, o, q, g.rnd.choice(["front", "back"]))])
            # pairs of options, either order
            pairs = list(itertools.combinations(names, 2))
            g.rnd.shuffle(pairs)
            for a, b in pairs[: 14 if FAST else 60]:
                o, p = g.rnd.choice(bs)
                o = [x for x in o if x[0] not in (a, b)]
                add = [(a, value(g, cl["fam"], a, cl["opt"][a])), (b, value(g, cl["fam"], b, cl["opt"][b]))]
                g.add(ver, [g.line(cmd, g.rnd.randrange(1, 6), shuffled(g, o + add), p, g.rnd.choice(["front", "back", "split"]), g.rnd.choice("= "))])
            for k in range(10 if FAST else 60):
                o, p = combo(g, cl, g.rnd.randrange(1, 9), 0, .3 if k % 2 else 0)
                g.add(ver, [g.line(cmd, g.rnd.randrange(1, 6), shuffled(g, o), p, g.rnd.choice(["front", "back", "split"]), g.rnd.choice("= "))])
    finish(c, g)

# ---------------------------------------------------------------- C12
def c12(c):
    g = Gen(vlib.SEED * 7 + 12)
    refused(g, 12 if FAST else 40)
    finish(c, g)

def c03(c):
    """Lines that are refused or warned about: which line they are said to be (part of C03)."""
    g = Gen(vlib.SEED * 7 + 3)
    refused(g, 24 if FAST else 60)
    for ver in ORDER:
        for cmd, cl in active(ver):
            for n in sorted(cl["opt"]):
                if cl["opt"][n]["depr"]:
                    o, p = g.rnd.choice(bases(cl))
                    g.add(ver, [g.line(cmd, 4, [x for x in o if x[0] != n] + [(n, value(g, cl["fam"], n, cl["opt"][n]))], p)])
    for s in g.sessions:
        s["watch"] = False
        add = g.rnd.choice([0, 0, 1, 3, 7])
        for x in s["ops"]:
            x["l"]["ln"] += add
    finish(c, g, LINES)

def refused(g, combos):
    for ver, cmd, cl in (scopes(g) if FAST else ((v, m, k) for v in ORDER for m, k in active(v))):
        bs = bases(cl)
        for o, p in bs:
            for k in range(len(o)):
                g.add(ver, [g.line(cmd, 2, o[:k] + o[k + 1:], p)])
            for k in range(len(p)):
                g.add(ver, [g.line(cmd, 2, o, p[:k])])
            for k in (1, 2):
                g.add(ver, [g.line(cmd, 2, o, p + ["surplus", "words"][:k], g.rnd.choice(["front", "back"]))])
        g.add(ver, [g.line(cmd, 1, [], [])])
        for n in sorted(cl["opt"]):
            op = cl["opt"][n]
            o, p = g.rnd.choice(bs)
            o = [x for x in o if x[0] != n]
            g.add(ver, [g.line(cmd, 3, o + [(n, None if takes(op) else "1")], p)])
            vals = list(BAD.get((cl["fam"], n), [])) + list(BADVAL.get(op["type"], [])) + (["nosuch", op["ch"][0].upper() + "x"] if op["ch"] else [])
            for v in vals:
                if takes(op):
                    g.add(ver, [g.line(cmd, 3, o + [(n, v)], p)])
                    if needs(cl, o + [(n, v)]) != o + [(n, v)]:
                        g.add(ver, [g.line(cmd, 3, needs(cl, o + [(n, v)]), p)])
            for v in odd(cl["fam"], n, op):
                if v in ("", "0", "-1"):
                    g.add(ver, [g.line(cmd, 3, o + [(n, v)], p)])
        for k in range(combos):
            o, p = combo(g, cl, g.rnd.randrange(0, 9), 0.25, .2 if k % 2 else 0)
            g.add(ver, [g.line(cmd, g.rnd.randrange(1, 6), shuffled(g, o), p, g.rnd.choice(["front", "back"]), g.rnd.choice("= "))])
    for ver in ORDER:
        g.add(ver, [g.line("method", g.rnd.randrange(1, 6), *g.rnd.choice([([], []), ([("--server", "h")], []), ([], ["url"])]))])
    # commands that exclude each other, in every version
    for ver in ORDER:
        have = [(m, cls(ver, m)) for m in STORAGE if cls(ver, m) is not None]
        for a, b in itertools.product(have, have):
            lines = [g.line(m, 2 + 2 * j, *bases(k)[0]) for j, (m, k) in enumerate((a, b))]
            g.add(ver, lines)
        for k in range(10 if FAST else 60):
            lines = []
            for j in range(3):
                m, kk = g.rnd.choice(have)
                if kk["kind"] != "active":
                    o, p = bases(kk)[0]
                else:
                    o, p = combo(g, kk, g.rnd.randrange(0, 4), 0.1)
                lines.append(g.line(m, 2 + 2 * j, o, p))
            g.add(ver, lines)

# ---------------------------------------------------------------- C13
def c13(c):
    g = Gen(vlib.SEED * 7 + 13)
    for ver, cmd, cl in (scopes(g) if FAST else ((v, m, k) for v in ORDER for m, k in active(v))):
        for o, p in bases(cl):
            g.add(ver, [g.line(cmd, 2, o, p)], True)
        for n in sorted(cl["opt"]):
            vals = good(cl["fam"], n, cl["opt"][n])
            for v in vals:
                o, p = g.rnd.choice(bases(cl))
                g.add(ver, [g.line(cmd, 2, needs(cl, [x for x in o if x[0] != n] + [(n, v)]), p)], True)
            vals = odd(cl["fam"], n, cl["opt"][n], True)
            for v in vals if not FAST or n in QUOTED["quoted"][cl["fam"]] else g.rnd.sample(vals, min(2, len(vals))):
                o, p = g.rnd.choice(bases(cl))
                g.add(ver, [g.line(cmd, 2, needs(cl, [x for x in o if x[0] != n] + [(n, v)]), p)], True)
        for o, p in bases(cl):
            for q in oddwords(cl, p, True):
                g.add(ver, [g.line(cmd, 2, o, q)], True)
        for k in range(12 if FAST else 36):
            o, p = combo(g, cl, g.rnd.randrange(1, 10), 0, .3 if k > 9 else 0, True)
            g.add(ver, [g.line(cmd, 2, shuffled(g, o), p)], True)
    for ver in ORDER:
        have = list(active(ver))
        for k in range(12 if FAST else 80):
            lines, ln = [], 1
            for cmd, cl in g.rnd.sample(have, min(len(have), g.rnd.randrange(2, 8))):
                for _j in range(g.rnd.choice([1, 1, 2]) if cl["list"] else 1):
                    o, p = combo(g, cl, g.rnd.randrange(0, 5))
                    lines.append(g.line(cmd, ln, shuffled(g, o), p))
                    ln += 1
            g.add(ver, lines, True, False)
        # commands that depend on each other, in either order (a refused one has no effect)
        have = [(m, k) for m, k in have if m in STORAGE]
        for a, b in itertools.permutations(have, 2):
            g.add(ver, [g.line(m, 2 + 2 * j, *g.rnd.choice(bases(k))) for j, (m, k) in enumerate((a, b))], True, False)
    finish(c, g)

# ---------------------------------------------------------------- C14
def c14(c):
    g = Gen(vlib.SEED * 7 + 14)
    for ver in ORDER:
        for cmd, cl in active(ver):
            variants = gencmd.variants(g, cl)
            n = len(variants)
            if cl["list"]:
                picks = list(itertools.product(range(min(n, 4)), repeat=2))
                picks += [tuple(g.rnd.randrange(n) for _ in range(3)) for _ in range(3 if FAST else 15)]
            else:
                picks = [tuple(g.rnd.randrange(n) for _ in range(g.rnd.choice([2, 2, 3]))) for _ in range(4 if FAST else 25)]
            for pk in picks:
                names = sorted({m for m in CMDS if G["versions"][ver].get(m) == G["versions"][ver][cmd]})
                g.add(ver, [g.line(g.rnd.choice(names) if cl["fam"] in ("Partition", "Raid") else cmd, 2 + 2 * j, *variants[k]) for j, k in enumerate(pk)])
    finish(c, g)
