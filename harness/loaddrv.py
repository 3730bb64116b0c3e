"""Runs sessions of loading and preprocessing on the real code, with files in a scratch folder and a web server on the loopback."""
import gzip, http.server, multiprocessing, os, random, resource, shutil, signal, socket, sys, tempfile, threading, warnings, zlib
import vlib

NOBODY = 65534

def _can_drop():
    """Can a child of this process become nobody (so that there are files it may not read)?"""
    pid = os.fork()
    if pid == 0:
        try:
            os.setegid(NOBODY)
            os.seteuid(NOBODY)
            os._exit(0)
        except OSError:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0

CAN_DROP = os.getuid() != 0 or _can_drop()
PATHS = ["p1", "p2", "p3", "a:b", "http:/p1", "sp ace", "-n", "pünkt", "sub/p4", "x:/y"]
URLS = ["u1", "u2", "u3", "u4"]

def unit(b):
    def dec(c):
        try:
            return b.decode(c)
        except UnicodeDecodeError:
            return "BAD"
    return {"u8": dec("utf-8"), "as": dec("ascii"), "l1": b.decode("latin-1")}

def raw(src):
    return b"".join(u["l1"].encode("latin-1") for u in src["units"])

# ---------------------------------------------------------------- the web server
class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    world, base, d = {}, "", ""
    def log_message(self, *_a):
        pass
    def do_GET(self):
        src = self.world.get(self.path.lstrip("/").split("?")[0])
        self.close_connection = True
        if src is None or src["k"] != "http":
            src = {"status": 404, "to": "", "framing": "length", "cut": 0, "cs": "none", "enc": "none", "units": [unit(b"not here")], "hdr": ""}
        if src["status"] == 0:
            self.connection.shutdown(socket.SHUT_RDWR)
            return
        body = raw(src).replace(b"@B@", self.base.encode()).replace(b"@D@", self.d.encode())
        if src["enc"] == "gzip":
            body = gzip.compress(body)
        elif src["enc"] == "deflate":
            body = zlib.compress(body)
        elif src["enc"] == "broken":
            body = b"\x00no gzip stream" + body
        self.send_response(src["status"])
        self.send_header("Connection", "close")
        if src["to"]:
            self.send_header("Location", src["to"] if ":" in src["to"] else "/" + src["to"])
        if src["cs"] != "none" or src["hdr"]:
            self.send_header("Content-Type", src["hdr"])
        if src["enc"] != "none":
            self.send_header("Content-Encoding", "deflate" if src["enc"] == "deflate" else "gzip")
        sent = body[:len(body) - src["cut"]] if src["cut"] else body
        if src["framing"] == "length":
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(sent)
        elif src["framing"] == "chunked":
            self.send_header("Transfer-Encoding", "chunked")
            self.end_headers()
            step = max(1, len(sent) // 3)
            for i in range(0, len(sent), step):
                part = sent[i:i + step]
                self.wfile.write(b"%x\r\n%s\r\n" % (len(part), part))
            if src["cut"]:
                self.wfile.write(b"%x\r\n%s" % (src["cut"] + 1, b"") if src["cut"] % 2 else b"")
            else:
                self.wfile.write(b"0\r\n\r\n")
        else:
            self.end_headers()
            self.wfile.write(sent)
        self.wfile.flush()
        try:
            self.connection.shutdown(socket.SHUT_WR)
        except OSError:
            pass

class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    def handle_error(self, *_a):            # the client went away
        pass

class Impl(object):
    def __init__(self):
        self.root = vlib.scratch()
        os.chmod(self.root, 0o755)
        self.d, self.tmp = os.path.join(self.root, "w"), os.path.join(self.root, "t")
        for n in list(os.environ):
            if n.lower().endswith("_proxy"):
                del os.environ[n]
        self.srv = Server(("127.0.0.1", 0), Handler)
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()
        self.port = self.srv.server_address[1]
        self.base = "127.0.0.1:%d" % self.port
        Handler.base, Handler.d = self.base, self.d
        import pykickstart.load as L, pykickstart.parser as P
        from pykickstart.errors import KickstartError
        self.L, self.P, self.KE = L, P, KickstartError
        warnings.simplefilter("ignore")
        Handler.world = {}
        for loc in ("http://%s/x" % self.base, "https://%s/x" % self.base):     # load everything there is to load, while it can be read
            try:
                L.load_to_str(loc)
            except KickstartError:
                pass
        tempfile.tempdir = None
        os.environ["TMPDIR"] = self.tmp

    def fresh(self):
        for d in (self.d, self.tmp):
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.mkdir(d)
            os.chmod(d, 0o777)
        for s in ("sub", "http:", "x:"):
            os.mkdir(os.path.join(self.d, s))
            os.chmod(os.path.join(self.d, s), 0o777)
        os.chdir(self.d)
        Handler.world = {}
        tempfile.tempdir = None

    def put(self, name, src):
        if src["k"] == "http" or name in URLS:
            Handler.world[name] = src
            return
        p = os.path.join(self.d, name)
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.unlink(p)
        if src["k"] == "dir":
            os.mkdir(p)
            os.chmod(p, 0o777)
        elif src["k"] in ("file", "secret", "locked"):
            with open(p, "wb") as f:
                f.write(raw(src).replace(b"@B@", self.base.encode()).replace(b"@D@", self.d.encode()))
            os.chmod(p, {"secret": 0, "locked": 0o444}.get(src["k"], 0o666))

    def render(self, t):
        return t.replace("@B@", self.base).replace("@D@", self.d)

    def shot(self, d):
        out = {}
        for r, ds, fs in os.walk(d):
            for n in ds:
                out[os.path.relpath(os.path.join(r, n), d)] = "dir"
            for n in fs:
                p = os.path.join(r, n)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, d)] = f.read().replace(self.base.encode(), b"@B@").replace(self.d.encode(), b"@D@")
        return out

    def call(self, fn, limit=None):
        exc, ln, ret = "none", 0, None
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        if os.geteuid() == 0 and CAN_DROP:
            os.setegid(NOBODY)
            os.seteuid(NOBODY)
        try:
            if limit:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            vlib.timer(20)
            ret = fn()
        except self.KE as e:
            exc, ln, ret = "ks", e.lineno if isinstance(e.lineno, int) else 0, str(e)
        except (Exception, vlib.Hang) as e:          # pylint: disable=broad-except
            exc, ret = "other", repr(e)
        finally:
            vlib.timer(0)
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            if os.getuid() == 0 and CAN_DROP:
                os.seteuid(0)
                os.setegid(0)
        return exc, ln, ret

    def text(self, t):
        if isinstance(t, bytes):
            try:
                t = t.decode("utf-8")
            except UnicodeDecodeError:
                return "BAD"
        return t.replace(self.base, "@B@").replace(self.d, "@D@") if isinstance(t, str) else "not text: %r" % (t,)

    def run(self, ops):
        self.fresh()
        out = []
        for op in ops:
            o = {"exc": "none", "ln": 0, "t": "", "extra": [], "changed": [], "dest": "same", "bytes": "", "text": "", "ret": True, "temp": 0, "what": ""}
            out.append(o)
            if op["op"] == "put":
                self.put(op["name"], op["src"])
                continue
            before = self.shot(self.d)
            if op["op"] == "str":
                o["exc"], _ln, r = self.call(lambda: self.L.load_to_str(self.render(op["loc"]["text"])))
                o["t" if o["exc"] == "none" else "what"] = self.text(r)
            elif op["op"] == "file":
                dst = self.render(op["dest"]["text"])
                o["exc"], _ln, r = self.call(lambda: self.L.load_to_file(self.render(op["loc"]["text"]), dst), 16 if op["full"] else None)
                if o["exc"] == "none":
                    o["ret"] = r == dst
                else:
                    o["what"] = str(r)
            else:
                f = {"s2s": self.P.preprocessFromStringToString, "f2s": self.P.preprocessKickstartToString,
                     "s2f": self.P.preprocessFromString, "f2f": self.P.preprocessKickstart}[op["entry"]]
                arg = self.render(op["loc"]["text"] if op["entry"][0] == "f" else "".join(op["lines"]))
                t0 = self.shot(self.tmp)
                o["exc"], o["ln"], r = self.call(lambda: f(arg), 16 if op["full"] else None)
                t1 = self.shot(self.tmp)
                new = [n for n in t1 if n not in t0]
                o["temp"] = len(new)
                o["changed"] += sorted(n for n in t0 if t1.get(n) != t0[n])
                if o["exc"] == "none" and op["entry"][-1] == "f":
                    o["ret"] = isinstance(r, str) and len(new) == 1 and os.path.abspath(r) == os.path.join(self.tmp, new[0])
                    o["t"] = self.text(t1[new[0]]) if len(new) == 1 else ""
                else:
                    o["t" if o["exc"] == "none" else "what"] = self.text(r)
            after = self.shot(self.d)
            dest = op["dest"]["name"] if op["op"] == "file" and op["dest"]["parent"] == "there" else None
            o["extra"] = sorted(n for n in after if n not in before and n != dest)
            o["changed"] += sorted(n for n in before if after.get(n) != before[n] and n != dest)
            if dest:
                o["dest"] = "same" if after.get(dest) == before.get(dest) else "new"
                if isinstance(after.get(dest), bytes):
                    o["bytes"], o["text"] = after[dest].decode("latin-1"), self.text(after[dest])
        return out

def _worker(job):
    signal.signal(signal.SIGALRM, vlib.on_alarm)
    impl, out = Impl(), []
    for ops in job:
        try:
            out.append(impl.run(ops))
        except Exception as e:          # pylint: disable=broad-except
            out.append([{"crash": repr(e)}])
    os.chdir("/")
    impl.srv.shutdown()
    impl.srv.server_close()
    del os.environ["TMPDIR"]
    tempfile.tempdir = None
    shutil.rmtree(impl.root, ignore_errors=True)
    return out

# ---------------------------------------------------------------- generators
UNITS = [b"lang en_US\n", b"text\n", b"# note\n", b"a\r\n", b"\n", b"no newline", b"x\x0cy\n", b"\xc3\xa4\xc3\xb6", b"\xe2\x82\xac\n", b"\xf0\x9f\x98\x80", b"\xef\xbb\xbf", b"\x00", b"tab\tend\n", b"\r", b"%end\n", b"%include x\n"]
BADS = [b"\xff\n", b"\xe4x", b"\xc3(\n"]
LONG = b"0123456789abcdef" * 8 + b"\n"

def units(rng, bad=.12):
    n = rng.choice([0, 1, 2, 3, 5, 8])
    us = [unit(rng.choice(UNITS)) for _ in range(n)]
    if rng.random() < bad:
        us.insert(rng.randint(0, n), unit(rng.choice(BADS)))
    if rng.random() < .1:
        us.insert(rng.randint(0, n), unit(LONG * rng.choice([1, 3, 3, 600])))
    return us

CT = {"none": ["", "text/plain", "application/octet-stream", "text/html"], "utf-8": ["text/plain; charset=utf-8", "text/plain;charset=UTF-8", 'text/html; Charset="utf-8"'],
      "latin-1": ["text/plain; charset=iso-8859-1", "text/plain; charset=ISO-8859-1"], "ascii": ["text/plain; charset=us-ascii"], "unknown": ["text/plain; charset=bogus"]}

def http_src(rng, us=None, tame=False):
    us = units(rng) if us is None else us
    s = {"k": "http", "status": 200, "to": "", "framing": rng.choice(["length", "chunked", "close"]), "cut": 0, "cs": "none", "enc": "none", "units": us}
    n = sum(len(u["l1"]) for u in us)
    if not tame:
        if rng.random() < .2:
            s["status"] = rng.choice([404, 500, 403, 301, 204, 206, 203, 0, 503, 401])
            if s["status"] == 204:
                s["units"], s["framing"] = [], "length"
        elif rng.random() < .2:
            s["status"], s["to"] = rng.choice([301, 302, 303, 307, 308]), rng.choice(URLS + ["http://[::1", "file:///etc/passwd", "foo:bar", "nosuch"])
        if rng.random() < .2 and n > 0 and s["status"] == 200:
            s["cut"] = rng.randint(1, n)
        if rng.random() < .2:
            s["enc"] = rng.choice(["gzip", "deflate", "broken"])
            s["cut"] = min(s["cut"], 8)
    if rng.random() < .4:
        s["cs"] = rng.choice(["utf-8", "utf-8", "latin-1", "ascii", "unknown"])
    s["hdr"] = rng.choice(CT[s["cs"]])
    return s

def path_src(rng, us=None):
    k = rng.choice(["file"] * 8 + ["none", "dir"] + (["secret", "locked"] if CAN_DROP else []))
    return {"k": k, "units": (units(rng) if us is None else us) if k in ("file", "locked", "secret") else []}

def put(rng, name, us=None, tame=False):
    return {"op": "put", "name": name, "src": http_src(rng, us, tame) if name in URLS else path_src(rng, us) if not tame else {"k": "file", "units": us}}

def loc(rng, name):
    if name in URLS:
        return {"url": True, "name": name, "text": rng.choice(["http://@B@/%s"] * 4 + ["HTTP://@B@/%s", "http://@B@/%s?x=1", "http://@B@/%s#f", "http://u:p@@B@/%s"]) % name}
    return {"url": False, "name": name, "text": rng.choice(["%s", "%s", "@D@/%s", "./%s", "sub/../%s"]) % name}

STRANGE = [(True, "https://@B@/u1"), (True, "foo://@D@/p1"), (True, "file://@D@/p1"), (True, "http://"), (True, "http://[::1"), (True, "http://" + "a" * 70 + ".com/"), (True, "://"), (True, "x://y"),
           (True, "http://*x/"), (True, "http://127.0.0.1:99999/"), (True, "http://127.0.0.1:abc/"), (True, "http://127.0.0.1:1/x"), (True, "ftp://@B@/u1"), (True, "http://@B@/nosuch"), (True, "p1://"),
           (False, ""), (False, "nosuch"), (False, "p1/x"), (False, "p1\0"), (False, "http:/u1"), (False, "n" * 300), (False, "@B@/u1")]

def anyloc(rng, names):
    if rng.random() < .12:
        u, t = rng.choice(STRANGE)
        return {"url": u, "name": "(none)", "text": t}
    return loc(rng, rng.choice(names))

def dest(rng):
    x = rng.random()
    if x < .1:
        return {"name": "(none)", "parent": "missing", "text": rng.choice(["nodir/f", "p1/f/g", ""])}
    n = rng.choice(PATHS + ["new1", "new2"])
    return {"name": n, "parent": "there", "text": rng.choice(["%s", "@D@/%s", "./%s"]) % n}

def load_session(rng):
    names = rng.sample(PATHS, 3) + rng.sample(URLS, 2)
    ops = [put(rng, n) for n in names]
    for _ in range(rng.randint(3, 9)):
        x = rng.random()
        if x < .25:
            ops.append(put(rng, rng.choice(names)))
        elif x < .6:
            ops.append({"op": "str", "loc": anyloc(rng, names)})
        else:
            l, d = anyloc(rng, names), dest(rng)
            if d["name"] not in names and d["parent"] == "there" and rng.random() < .5:
                names.append(d["name"])
            full = False
            if rng.random() < .08 and l["name"] != "(none)":
                ops.append(put(rng, l["name"], [unit(LONG * rng.choice([1, 1, 1, 700]))], tame=True))
                full = True
            ops.append({"op": "file", "loc": l, "dest": d, "full": full})
    return ops

PLAIN = ["lang en_US\n", "%include p1\n", "#%ksappend p1\n", "x %ksappend p1\n", "\n", "  \n", "%pre\n", "echo ä €\n", "%end\n", "text\r\n", "%ksappended p1\n", "%KSAPPEND p1\n", "a\tb\n", "tail", "%ksappends\n", "\ufeffx\n"]
def append_line(rng, words):
    w = rng.choice(words)
    return rng.choice(["%%ksappend %s\n"] * 5 + ["  %%ksappend %s\n", "%%ksappend  %s\n", "\t%%ksappend\t%s\n", "%%ksappend %s # more\n", "%%ksappend %s", "%%ksappend %s \n", "%%ksappend %s\r\n"]) % w

def document(rng, words):
    ls = []
    for _ in range(rng.randint(0, 6)):
        x = rng.random()
        ls.append(rng.choice(PLAIN) if x < .55 else append_line(rng, words) if x < .97 else rng.choice(["%ksappend\n", "  %ksappend  \n", "%ksappend"]))
    return [l if l.endswith("\n") or i == len(ls) - 1 else l + "\n" for i, l in enumerate(ls)]

PRE_UNITS = [b"one\n", b"two\nthree\n", b"last", b"\n", b"\xc3\xa4\n", b"%ksappend p2\n", b"%include p3\n", b"%ksappend http://@B@/u1\n", b"a\r\n"]
def pre_session(rng):
    paths = ["p1", "p2", "a:b", "sub/p4"]
    names = rng.sample(paths, 2) + rng.sample(URLS, 2)
    refs = {"(none)": {"url": False, "name": "(none)"}}
    for n in names:
        for _ in range(2):
            l = loc(rng, n)
            refs[l["text"]] = {"url": l["url"], "name": n}
    if rng.random() < .3:
        u, t = rng.choice([s for s in STRANGE if s[1] and "\0" not in s[1]])
        refs[t] = {"url": u, "name": "(none)"}
    words = [w for w in refs if w != "(none)"]
    ops = []
    for n in names:
        if rng.random() < .8:
            ops.append(put(rng, n, [unit(rng.choice(PRE_UNITS)) for _ in range(rng.randint(0, 3))], tame=rng.random() < .85))
        else:
            ops.append(put(rng, n))
    for _ in range(rng.randint(2, 5)):
        if rng.random() < .2:
            ops.append(put(rng, rng.choice(names), [unit(rng.choice(PRE_UNITS)) for _ in range(rng.randint(0, 3))], tame=True))
        doc = document(rng, words)
        entry = rng.choice(["s2s", "f2s", "s2f", "f2f"])
        o = {"op": "pre", "entry": entry, "refs": refs, "lines": doc, "full": False, "loc": {"url": False, "name": "(none)", "text": ""}}
        if entry[-1] == "f" and rng.random() < .1:
            o["full"] = True
            o["lines"] = doc = ["# more than fits on the disk" * rng.choice([1, 9, 9, 3000]) + "\n"] + doc
        if entry[0] == "f":
            m = rng.choice(["main.ks", "main.ks", "main.ks", "u4" if "u4" not in names else "main.ks", "bad"])
            o["lines"] = []
            if m == "bad":
                o["loc"] = anyloc(rng, names)
                o["op"] = "pre"
                if o["loc"]["name"] in names:                # a document that is not cut into lines here: only when it cannot be read
                    o["loc"] = {"url": False, "name": "(none)", "text": "nosuch"}
            else:
                us = [unit(l.encode("utf-8")) for l in doc]
                if rng.random() < .06:
                    us.append(unit(b"\xff\n"))
                ops.append({"op": "put", "name": m, "src": {"k": "file", "units": us} if m == "main.ks" else http_src(rng, us, tame=True)})
                o["loc"] = {"url": m != "main.ks", "name": m, "text": "main.ks" if m == "main.ks" else "http://@B@/" + m}
        ops.append(o)
    return ops

def run_all(jobs):
    n = vlib.WORKERS
    size = max(1, min(200, (len(jobs) + n - 1) // n))
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return [o for part in pool.map(_worker, [jobs[i:i + size] for i in range(0, len(jobs), size)], chunksize=1) for o in part]

def judge(check, ses):
    obs = run_all(ses)
    rows, idx = [], []
    for k, (ops, ob) in enumerate(zip(ses, obs)):
        if len(ob) != len(ops):
            check.violation("the session could not be completed", {"session": ops, "observed": ob}, key="crash")
            continue
        rows.append({"ops": [dict(op, obs={a: b for a, b in o.items() if a != "what"}) for op, o in zip(ops, ob)]})
        idx.append(k)
    fails, stats = vlib.judge_sessions("Trace_KsLoad", rows, {}, chunk=6000)
    check.add(stats)
    for sid, opn, clause in fails:
        k = idx[sid]
        check.violation(clause[:300], {"session": ses[k][:opn], "op": ses[k][opn - 1], "observed": obs[k][opn - 1], "clause": clause}, key=clause[:60])
    check.sample({"session": ses[0], "observed": obs[0]})
