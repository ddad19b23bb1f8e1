"""Shared machinery of the checks: building the harnesses from /repo, running
scenarios in them, and running TLC on the specifications."""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, random, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KEYD_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
REPLAY = os.path.join(VERIF, "replay")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="keydv.")
        if not os.environ.get("KEYD_KEEP"):
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

class CheckError(Exception):
    pass

def latin(s):
    """text -> the byte string (one character per byte) of its UTF-8 encoding"""
    return s.encode("utf-8").decode("latin-1")

# ------------------------------------------------------------------ building
CDEFS = ['-DVERSION="v"', '-DSOCKET_PATH="./sock"', '-DCONFIG_DIR="./conf"',
         '-DDATA_DIR="./data"', "-D_DEFAULT_SOURCE", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-w"]

EXECS = ["execl", "execle", "execlp", "execv", "execvp", "execve", "system", "posix_spawn", "posix_spawnp"]

def build(name, main_c, wraps, extra_src=(), defs=(), vkbd="uinput", cc=None):
    """Compile all of /repo/src (with its main renamed) and a harness into one program."""
    out = os.path.join(scratch(), name)
    d = out + ".d"
    os.makedirs(d)
    base = (cc or ["gcc", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"]) + \
        ["-g", "-O1", "-fno-omit-frame-pointer"] + CDEFS + list(defs)
    jobs = []
    srcs = sorted(glob.glob(REPO + "/src/*.c"))
    if vkbd:
        srcs.append("%s/src/vkbd/%s.c" % (REPO, vkbd))
    for s in srcs:
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        jobs.append((s, subprocess.Popen(base + ["-std=gnu11", "-Dmain=keyd_main", "-c", s, "-o", o],
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for s, p in jobs:
        t, _ = p.communicate()
        if p.returncode:
            raise CheckError("cannot compile %s:\n%s" % (s, t.decode()))
    cmd = base + ["-iquote", REPO + "/src", main_c] + list(extra_src) + sorted(glob.glob(d + "/*.o")) + \
        ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread", "-o", out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError("cannot link %s:\n%s" % (name, r.stdout.decode()))
    return out

_engine = None
def engine():
    global _engine
    if _engine is None:
        _engine = build("engine", VERIF + "/harness/engine.c", ["usleep", "sleep", "nanosleep"] + EXECS)
    return _engine

# ------------------------------------------------------------- key names
def key_table():
    """[(code, name, alternate name, shifted name)] of the committed key table"""
    rows = []
    for l in open(os.path.join(SPEC, "keys.tsv")):
        f = l.rstrip("\n").split("\t")
        rows.append((int(f[0]), f[1], f[2] if len(f) > 2 else "", f[3] if len(f) > 3 else ""))
    return rows
CODE = {}
NAME = {}
for _c, _n, _a, _s in key_table():
    CODE.setdefault(_n, _c)
    NAME[_c] = _n
for _c, _n, _a, _s in key_table():
    if _a:
        CODE.setdefault(_a, _c)

# ------------------------------------------------------------- scenarios
class Conf:
    """A configuration file (lines are byte strings in latin-1 form) with the
    files it may include: incs from its own directory, data from the data
    directory (which configurations share: the names must not collide)."""
    def __init__(self, lines, incs=None, data=None):
        self.lines = list(lines)
        self.incs = dict(incs or {})
        self.data = dict(data or {})
    def key(self):
        return json.dumps([self.lines, sorted(self.incs.items()), sorted(self.data.items())])
    def write(self, d, data=None):
        put_file(d + "/k.conf", self.lines)
        for n, ls in self.incs.items():
            put_file(d + "/" + n, ls)
        for n, ls in self.data.items():
            put_file(data + "/" + n, ls)
        return d + "/k.conf"
    def json(self, ok):
        return {"lines": self.lines, "ok": ok,
                "incs": [{"name": n, "lines": ls} for n, ls in sorted({**self.data, **self.incs}.items())]}

def put_file(path, lines):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="latin-1", newline="") as f:
        f.write("\n".join(lines))

class Scenario:
    """ops: ("K", code, pressed, t) ("T", t) ("E", expr) ("Q", t) ("J", seed, max)"""
    def __init__(self, conf, ops, sid=None):
        self.conf, self.ops, self.sid = conf, ops, sid
    def text(self, path):
        return "S %s %s\n%s\n.\n" % (self.sid, path, "\n".join(" ".join(str(x) for x in o) for o in self.ops))

def run_engine(scs, exe=None, env=None):
    """Run scenarios in the real engine; returns {sid: result}."""
    exe = exe or engine()
    d = tempfile.mkdtemp(prefix="run", dir=scratch())
    paths = {}
    for i, s in enumerate(scs):
        if s.sid is None:
            s.sid = "s%d" % i
        k = s.conf.key()
        if k not in paths:
            paths[k] = s.conf.write(os.path.join(d, "c%d" % len(paths)), d + "/data")
    os.makedirs(d + "/data", exist_ok=True)
    procs = []
    for w in range(NCPU):
        part = scs[w::NCPU]
        if not part:
            continue
        wd = os.path.join(d, "w%d" % w)
        os.makedirs(wd)
        os.symlink("../data", wd + "/data")
        open(wd + "/in", "w", encoding="latin-1").write("".join(s.text(paths[s.conf.key()]) for s in part))
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0", **(env or {}))
        procs.append(subprocess.Popen([exe, wd + "/in"], cwd=wd, env=e,
                                      stdout=open(wd + "/out", "wb"), stderr=subprocess.DEVNULL,
                                      stdin=subprocess.DEVNULL))
    for p in procs:
        p.wait(timeout=800)
    res = {}
    for f in glob.glob(d + "/w*/out"):
        for l in open(f, encoding="latin-1"):
            try:
                r = json.loads(l)
            except ValueError:
                continue
            res[r["id"]] = r
    shutil.rmtree(d, True)
    # (the harness gives up when it hangs again and again)
    hung = any(r.get("crash") in HANG for r in res.values())
    for s in scs:
        if s.sid not in res:
            res[s.sid] = {"id": s.sid, "crash": -2 if hung else -1, "at": 0}
    return res
HANG = (9, 14, 24)

def settle(scs, res):
    """Runs what crashed or hung again: (scenario, result) if it does so again,
    None if everything has a result (res is updated)."""
    for _ in range(4):
        for s in scs:
            if res[s.sid].get("crash", -2) != -2:
                again = run_engine([s])[s.sid]
                if "crash" in again:
                    return s, again
                res[s.sid] = again
        rest = [s for s in scs if "crash" in res[s.sid]]
        if not rest:
            return None
        res.update(run_engine(rest))
    raise CheckError("some scenarios hang at times")

# ------------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, workers=2, extra=(), heap="3g", timeout=850, cwd=SPEC, jvm=()):
    """Run TLC; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Djava.io.tmpdir=" + meta] + list(jvm) + ["-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout)
        out, rc = r.stdout.decode("utf-8", "replace"), r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf-8", "replace"), -1
    shutil.rmtree(meta, True)
    return rc, out

def printed(out):
    """The JSON objects printed by a specification ("##" followed by JSON)"""
    res = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"##') and l.endswith('"'):
            try:
                res.append(json.loads(json.loads(l)[2:]))
            except ValueError:
                try:
                    res.append(json.loads(l[3:-1].replace('\\"', '"').replace("\\\\", "\\")))
                except ValueError:
                    raise CheckError("cannot read what TLC printed: " + l[:300])
    return res

def states_of(out):
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", ""))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def jdump(path, rows):
    with open(path, "w", encoding="ascii") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")

SHARDS = 4
def validate(scs, res, mode="full", uni=None, shards=None, module="EngineTrace"):
    """Check recorded traces against the specification.  Returns
    (rejections {sid: report}, accepted set, stats)."""
    live = [s for s in scs if "crash" not in res[s.sid]]
    rej, acc = {}, set()
    stats = {"states": 0, "distinct": 0, "events": 0, "broken": [], "undetermined": 0}
    if not live:
        return rej, acc, stats
    bykey = {}
    for s in live:
        bykey.setdefault(s.conf.key(), []).append(s)
    shards = shards or SHARDS
    groups = [[] for _ in range(min(shards, len(bykey)))]
    def cost(ss):
        return sum(len(s.ops) + 20 for s in ss) + 4 * len(ss[0].conf.lines) + sum(map(len, ss[0].conf.lines)) // 20
    load = [0] * len(groups)
    for k, ss in sorted(bykey.items(), key=lambda kv: -cost(kv[1])):
        j = load.index(min(load))
        groups[j].append((k, ss))
        load[j] += cost(ss)
    from concurrent.futures import ThreadPoolExecutor
    def one(g):
        d = tempfile.mkdtemp(prefix="val", dir=scratch())
        confs, traces, names = [], [], []
        for k, ss in g:
            confs.append(ss[0].conf.json(res[ss[0].sid]["ok"]))
            names.append(ss)
            for s in ss:
                traces.append({"id": s.sid, "cfg": len(confs), "ev": res[s.sid]["ev"]})
        jdump(d + "/confs.json", confs)
        jdump(d + "/traces.json", traces)
        env = {"KEYD_CONFS": d + "/confs.json", "KEYD_TRACES": d + "/traces.json", "KEYD_MODE": mode}
        env["KEYD_UNI"] = uni or "/dev/null"
        rc, out = tlc(module, env=env, workers=1 if shards > 4 else 2)
        if rc != 0 and "Model checking completed" not in out:
            keep = os.path.join(tempfile.gettempdir(), "keydv-last-error.txt")
            open(keep, "w").write(out)
            raise CheckError("TLC failed (%d):\n%s" % (rc, out[-3000:]))
        shutil.rmtree(d, True)
        return names, traces, confs, printed(out), states_of(out)
    with ThreadPoolExecutor(len(groups)) as ex:
        results = list(ex.map(one, groups))
    for names, traces, confs, rows, st in results:
        stats["states"] += st[0]
        stats["distinct"] += st[1]
        for r in rows:
            if "accept" in r:
                acc.add(r["accept"])
                stats["undetermined"] += bool(r["amb"])
            elif "broken" in r:
                stats["broken"].append(r)
            elif "reject" in r:
                rej[r["reject"]] = r
            elif "conf" in r:
                for s in names[r["conf"] - 1]:
                    rej[s.sid] = {"reject": s.sid, "kind": "config", "expected": r["expected"],
                                  "got": confs[r["conf"] - 1]["ok"]}
        for ss in names:
            for s in ss:
                if res[s.sid]["ok"] == 0 and s.sid not in rej:
                    acc.add(s.sid)
        stats["events"] += sum(len(t["ev"]) for t in traces)
    for s in live:
        if s.sid not in rej and s.sid not in acc:
            raise CheckError("no verdict for trace %s" % s.sid)
    for r in rej:
        acc.discard(r)
    return rej, acc, stats

# ------------------------------------------------- supported characters (C17)
def key_by_char():
    """Keys by the character they type (names of one character)"""
    return {n: c for c, n, a, s in key_table() if len(n) == 1}

_compose = None
def compose():
    """{code point: [k1, k2, k3]} of the compose file shipped with keyd"""
    global _compose
    if _compose is None:
        ch = key_by_char()
        tab = {}
        for l in open(REPO + "/data/keyd.compose", encoding="utf-8"):
            m = re.match(r'^<Cancel> <(\w+)> <(\w+)> <(\w+)> : "(.+)"$', l.rstrip("\n"))
            if m and len(m.group(4)) == 1:
                ks = [ch.get(x, 0) for x in m.groups()[:3]]
                tab.setdefault(ord(m.group(4)), ks)
        _compose = tab
    return _compose

def uni_file(scs, extra=""):
    """The rows of the compose table for the characters occurring in the scenarios"""
    cps = set(ord(c) for c in extra)
    seen = set()
    texts = []
    for s in scs:
        if id(s.conf) not in seen:
            seen.add(id(s.conf))
            texts += s.conf.lines + [l for ls in s.conf.incs.values() for l in ls]
        texts += [o[1] for o in s.ops if o[0] == "E"]
    for t in texts:
        if not t.isascii():
            b = t.encode("latin-1")
            for i, x in enumerate(b):       # decoded leniently, as keyd does
                for n, m in ((2, 0x1f), (3, 0x0f), (4, 0x07)):
                    if x >= 0xc0 and i + n <= len(b):
                        c = x & m
                        for y in b[i + 1:i + n]:
                            c = c << 6 | y & 0x3f
                        cps.add(c)
    tab = compose()
    p = tempfile.mktemp(prefix="uni", dir=scratch())
    jdump(p, [{"cp": c, "ks": tab[c]} for c in sorted(cps) if c in tab])
    return p
