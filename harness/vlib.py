"""Shared machinery: scratch folders, running TLC, verdicts, evidence, known findings."""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
WORKERS = min(8, os.cpu_count() or 1)
T0 = time.time()
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = []

def scratch():
    d = tempfile.mkdtemp(prefix="ksverif-")
    _scratch.append((os.getpid(), d))
    return d

@atexit.register
def _cleanup():
    for pid, d in _scratch:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)

class MachineryError(Exception):
    pass

def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            t = json.dumps(r, ensure_ascii=True, separators=(",", ":"))
            # TLC does not keep characters beyond ASCII: spell them out, the same everywhere.
            f.write(re.sub(r"(?<!\\)((?:\\\\)*)\\u([0-9a-f]{4})", lambda m: m.group(1) + ("<U+%s>" % m.group(2)), t) + "\n")

def run_tlc(module, files=None, cfg=None, workers=None, timeout=800, consts=None, heap="8g", extra=()):
    """Run TLC on spec/<module>.tla in a scratch folder.  files: name -> rows (ndjson) or object (json)
    or text.  Returns dict(states, distinct, lines, ok, out)."""
    d = scratch()
    for n in os.listdir(SPEC):
        if n.endswith((".tla", ".cfg", ".json")):
            shutil.copy(os.path.join(SPEC, n), d)
    for name, content in (files or {}).items():
        p = os.path.join(d, name)
        if name.endswith(".ndjson"):
            write_ndjson(p, content)
        elif isinstance(content, str):
            open(p, "w").write(content)
        else:
            json.dump(content, open(p, "w"))
    cfgname = cfg or module + ".cfg"
    if consts:
        txt = open(os.path.join(d, cfgname)).read()
        for k, v in consts.items():
            txt, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + v, txt)
            if n != 1:
                raise MachineryError("constant %s not in %s" % (k, cfgname))
        cfgname = "run_" + cfgname
        open(os.path.join(d, cfgname), "w").write(txt)
    os.makedirs(os.path.join(d, "tmp"))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + os.path.join(d, "tmp"),
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers or WORKERS), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", cfgname] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % module)
    out = r.stdout.decode("utf-8", "replace")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    res = {"out": out, "rc": r.returncode, "states": int(m[-1][0]) if m else 0,
           "distinct": int(m[-1][1]) if m else 0,
           "ok": "Model checking completed. No error has been found." in out or "Finished computing" in out and r.returncode == 0}
    res["ok"] = r.returncode == 0
    m = re.findall(r'^"?V\|(\d+)\|(\d+)\|(.*?)"?$', out, re.M)
    res["verdicts"] = [(int(a), int(b), c) for a, b, c in m]
    m = re.search(r"Invariant (\S+) is violated", out)
    res["violated"] = m.group(1) if m else None
    shutil.rmtree(d, ignore_errors=True)
    return res

def require_ok(res, what):
    if not res["ok"]:
        raise MachineryError("%s: TLC failed (rc %s)\n%s" % (what, res["rc"], res["out"][-3000:]))

def culprit(module, part, files, res, **kw):
    """TLC stopped: was it one of the observations (a value of a kind that no specified behaviour has)?
    The index of one session that stops it alone; an error if there is none."""
    lo, hi = 0, len(part)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        r = run_tlc(module, dict(files, **{"sessions.ndjson": part[lo:mid]}), **kw)
        if r["ok"]:
            lo = mid
        else:
            hi, res = mid, r
    res = run_tlc(module, dict(files, **{"sessions.ndjson": part[lo:hi]}), **kw)
    require_stop(res, module)
    return lo

def require_stop(res, what):
    if res["ok"] or "Error" not in res["out"] or "OutOfMemory" in res["out"] or "semantic analysis failed" in res["out"]:
        raise MachineryError("%s: TLC failed (rc %s)\n%s" % (what, res["rc"], res["out"][-3000:]))

def judge_sessions(module, sessions, files, chunk=None, **kw):
    """Validate sessions against a trace module; returns (failures [(index, op, clause)], stats)."""
    stats = {"states": 0, "distinct": 0, "traces": 0, "unspec": 0}
    fails = []
    chunk = chunk or 40000
    for base in range(0, len(sessions), chunk):
        part = sessions[base:base + chunk]
        f = dict(files)
        f["sessions.ndjson"] = part
        res = run_tlc(module, f, **kw)
        if not res["ok"]:
            k = culprit(module, part, files, res, **kw)
            return [(base + k, 1, "the specification cannot follow what was observed")], stats
        seen = {}
        for sid, op, v in res["verdicts"]:
            seen.setdefault(sid, (op, v))
        if len(seen) != len(part):
            raise MachineryError("%s: %d sessions, %d verdicts\n%s" % (module, len(part), len(seen), res["out"][-2000:]))
        for sid, (op, v) in sorted(seen.items()):
            if v == "ok":
                stats["traces"] += 1
            elif v == "unspec":
                stats["unspec"] += 1
            else:
                stats["traces"] += 1
                fails.append((base + sid - 1, op, v))
        stats["states"] += res["distinct"]
        stats["distinct"] += res["distinct"]
        stats["transitions"] = stats.get("transitions", 0) + res["states"]
    return fails, stats

# ---------------------------------------------------------------- hangs of the implementation
class Hang(BaseException):
    """The code under test did not come back."""

_hangs = [0]

def on_alarm(*_a):
    _hangs[0] += 1
    raise Hang()

def timer(seconds):
    """Start (or with 0 stop) the clock; a process that has seen several hangs waits less for the next."""
    signal.setitimer(signal.ITIMER_REAL, seconds if _hangs[0] < 3 else min(seconds, .4))

# ---------------------------------------------------------------- findings and evidence
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f.get("status") == "known"]

class Check(object):
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []
        self.known_hit = {}
        self.assumptions = []
        self.known = [f for f in known_findings() if f["property"] == prop]

    def add(self, stats):
        self.cov["states"] += stats.get("distinct", 0)
        self.cov["transitions"] += stats.get("transitions", stats.get("states", 0))
        self.cov["traces_validated_against_impl"] += stats.get("traces", 0)
        if stats.get("unspec"):
            self.cov["unspecified_traces_skipped"] = self.cov.get("unspecified_traces_skipped", 0) + stats["unspec"]

    def model(self, res, name):
        """An exhaustive run of a design model: must hold (the spec is ours)."""
        require_ok(res, name)
        self.cov["states"] += res["distinct"]
        self.cov["transitions"] += res["states"]
        self.cov.setdefault("models", {})[name] = {"distinct_states": res["distinct"], "transitions": res["states"]}

    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, what, detail, key=None):
        """key: identity of the failing case, matched against known findings."""
        for f in self.known:
            if key is not None and f["key"] == key:
                self.known_hit[f["key"]] = f["what"]
                return
        self.viol.append({"what": what, "detail": detail, "key": key})

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.viol)}
        if not self.cov["samples"]:
            self.cov["samples"].append("none")
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, w in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
        if os.path.exists(rp):
            os.unlink(rp)
        if self.viol:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                kept, per = [], {}
                for v in self.viol:                 # a few of each kind
                    per[v["key"]] = per.get(v["key"], 0) + 1
                    if per[v["key"]] <= 3 and len(kept) < 600:
                        kept.append(v)
                json.dump(kept, f, indent=1, default=str)
            for v in self.viol[:5]:
                print("  %s: %s" % (self.prop, v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s: held (%d traces validated, %d states, %.1fs)" % (self.prop, self.cov["traces_validated_against_impl"],
              self.cov["states"], time.time() - T0))
        return 0
