"""Checks of the daemon properties (C19-C25): the whole daemon runs in a scripted
world of devices, clients and time (harness/daemon.c); every recorded trace is
decided by spec/DaemonTrace.tla."""
import json, os, random, shutil, subprocess, tempfile, copy
import kv
from kv import *
from gen import Profile, Gen, OUTK
from engine_checks import prof, opts, ENV

ASSUMPTIONS = ["input devices, uinput, inotify, the clock and the clients of the socket are played by harness/daemon.c",
               "keys held on a device when it is unplugged, and absolute positions at the very edge, are left out"]

WRAPS = ("open open64 close ioctl read write writev recv poll ppoll opendir readdir readdir64 closedir inotify_init "
         "inotify_init1 inotify_add_watch accept accept4 clock_gettime usleep sleep nanosleep nice setgid getgrnam").split() + EXECS
FULL = 4112         # sizeof(struct ipc_message)
_daemon = None
def daemon():
    global _daemon
    if _daemon is None:
        _daemon = build("daemon", VERIF + "/harness/daemon.c", WRAPS)
    return _daemon

# ------------------------------------------------------------------ the world
class Device:
    def __init__(self, vendor, product, name, keys=(), rels=(), abss=(), rng=(0, 0, 0, 0), held=()):
        self.vendor, self.product, self.name = vendor, product, name
        self.keys, self.rels, self.abss, self.rng, self.held = [tuple(k) for k in keys], list(rels), list(abss), list(rng), list(held)
    def mask(self, l):
        return sum(1 << x for x in set(l) if x < 8)
    def codes(self):
        return sorted(set(c for a, b in self.keys for c in range(a, b + 1)))
    def ident(self):
        h = 5183
        n = len([c for c in self.codes() if c < 288])
        for x in [n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255, self.mask(self.abss), self.mask(self.rels)] + \
                list(self.name.encode()):
            h = (h * 33 + x) & 0xffffffff
        return "%04x:%04x:%08x" % (self.vendor, self.product, h)
    def line(self, i):
        j = lambda l: ",".join(str(x) for x in l) or "-"
        return "V %d %x %x %s %s %s %d %d %d %d %s %s" % ((i, self.vendor, self.product,
               ",".join("%d:%d" % k for k in self.keys) or "-", j(self.rels), j(self.abss)) + tuple(self.rng) +
               (j(self.held), self.name))
    def json(self):
        return {"keys": [list(k) for k in self.keys], "rel": self.mask(self.rels), "abs": self.mask(self.abss),
                "vendor": self.vendor, "id": self.ident(),
                "minx": self.rng[0], "maxx": self.rng[1], "miny": self.rng[2], "maxy": self.rng[3]}
    def kinds(self):
        k = set(self.codes())
        return ({"mouse"} if self.mask(self.rels) or self.mask(self.abss) else set()) | \
               ({"keyboard"} if set(range(2, 12)) | set(range(16, 22)) <= k or 225 in k or 115 in k else set())
    def data(self):
        return [self.vendor, self.product, self.name, self.keys, self.rels, self.abss, self.rng, self.held]

class World:
    """devs: devices (numbered from 1); start: those there from the start; sets: lists of
    configurations; reqs: requests (numbered from 1); ops: (time, text of the operation)"""
    def __init__(self, sid, devs, start, sets, base, jitter, reqs, ops):
        self.sid, self.devs, self.start, self.sets = sid, devs, start, sets
        self.base, self.jitter, self.reqs, self.ops = base, jitter, reqs, ops
    def text(self, d):
        out = ["S " + d, "L 0"]
        if self.base:
            out.append("B %d" % self.base)
        if self.jitter:
            out.append("J %d %d" % tuple(self.jitter))
        out += [v.line(i + 1) for i, v in enumerate(self.devs)]
        out += ["N %d" % i for i in self.start]
        out += self.ops + ["."]
        return "\n".join(out) + "\n"
    def data(self):
        return {"kind": "daemon", "devs": [v.data() for v in self.devs], "start": self.start,
                "sets": [[[c.lines, c.incs] for c in s] for s in self.sets], "base": self.base, "jitter": self.jitter,
                "reqs": self.reqs, "ops": self.ops}
    @staticmethod
    def load(d, sid):
        return World(sid, [Device(*v) for v in d["devs"]], d["start"], [[Conf(*c) for c in s] for s in d["sets"]], d["base"],
                     d["jitter"], d["reqs"], d["ops"])

def run_worlds(ws):
    exe = daemon()
    d = tempfile.mkdtemp(prefix="dmn", dir=scratch())
    sets = {}
    for s in ws:
        for cs in s.sets:
            k = json.dumps([c.key() for c in cs])
            if k not in sets:
                p = sets[k] = os.path.join(d, "s%d" % len(sets))
                os.makedirs(p)
                for i, c in enumerate(cs):
                    open("%s/c%d.conf" % (p, i), "w", encoding="latin-1", newline="").write("\n".join(c.lines))
                    for n, ls in c.incs.items():
                        open("%s/%s" % (p, n), "w", encoding="latin-1", newline="").write("\n".join(ls))
                open(p + "/README", "w").write("[ids]\n*\n[main]\na = z\n")
    procs, name = [], {}
    for w in range(NCPU):
        part = ws[w::NCPU]
        if not part:
            continue
        text = []
        for n, s in enumerate(part):
            sd = "%s/w%d-%d" % (d, w, n)
            os.makedirs(sd)
            name[sd] = s.sid
            for i, cs in enumerate(s.sets):
                os.symlink(sets[json.dumps([c.key() for c in cs])], "%s/set%d" % (sd, i))
            text.append(s.text(sd))
        f = "%s/in%d" % (d, w)
        open(f, "w", encoding="latin-1").write("".join(text))
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0")
        procs.append(subprocess.Popen([exe, f], cwd=d, env=e, stdout=open("%s/out%d" % (d, w), "wb"), stderr=subprocess.DEVNULL,
                                      stdin=subprocess.DEVNULL))
    for p in procs:
        p.wait(timeout=800)
    res = {}
    for w in range(len(procs)):
        for l in open("%s/out%d" % (d, w), encoding="latin-1"):
            try:
                r = json.loads(l)
            except ValueError:
                if os.environ.get("KEYD_KEEP"):
                    print("unreadable:", l[:200], l[-200:])
                continue
            res[name[r["id"]]] = r
    if not os.environ.get("KEYD_KEEP"):
        shutil.rmtree(d, True)
    # (the harness gives up when it hangs again and again)
    hung = any(r["st"] in HANG for r in res.values())
    for s in ws:
        if s.sid not in res:
            res[s.sid] = {"id": s.sid, "ev": [], "st": -2 if hung else -1}
    return res

def rows(ws, res):
    confs, idx, out = [], {}, []
    for s in ws:
        sets = []
        for cs in s.sets:
            l = []
            for c in cs:
                if c.key() not in idx:
                    idx[c.key()] = len(confs) + 1
                    confs.append(c.json(1))
                l.append(idx[c.key()])
            sets.append(l)
        cur, reqs = 0, []
        seen = 0
        for o in s.ops:
            if o.startswith("L "):
                cur = int(o[2:])
            elif o.startswith("C "):
                r = dict(s.reqs[int(o.split()[2]) - 1])
                data = (r["data"] + "x" * 4096)[:r["size"] if r["size"] < 4096 else 4095]
                r["data"] = data.split("\0")[0]
                r["size"], r["to"] = min(r["size"], 1 << 30), min(r["to"], 1 << 30)
                r["set"] = cur + 1
                r["full"] = FULL
                reqs.append(r)
        out.append({"id": s.sid, "devs": [v.json() for v in s.devs], "start": s.start, "sets": sets, "set": 1, "reqs": reqs,
                    "ev": res[s.sid]["ev"], "st": res[s.sid]["st"]})
    return confs, out

def validate_worlds(ws, res, shards=6):
    """(rejections, accepted, stats)"""
    from concurrent.futures import ThreadPoolExecutor
    live = [s for s in ws if res[s.sid]["st"] != 1081]
    order = sorted(live, key=lambda s: -len(res[s.sid]["ev"]))
    groups = {}
    for s in order:
        groups.setdefault(json.dumps([[c.key() for c in cs] for cs in s.sets]), []).append(s)
    load = [0] * min(shards, len(groups))
    parts = [[] for _ in load]
    for k, ss in sorted(groups.items(), key=lambda kv: -sum(len(res[s.sid]["ev"]) for s in kv[1])):
        j = load.index(min(load))
        parts[j] += ss
        load[j] += sum(len(res[s.sid]["ev"]) for s in ss) + len(k) // 40
    def one(p):
        d = tempfile.mkdtemp(prefix="val", dir=scratch())
        confs, out = rows(p, res)
        jdump(d + "/confs.json", confs)
        jdump(d + "/traces.json", out)
        fake = [Scenario(c, []) for s in p for cs in s.sets for c in cs] + \
               [Scenario(Conf([r["data"]]), []) for s in p for r in s.reqs]
        env = {"KEYD_CONFS": d + "/confs.json", "KEYD_TRACES": d + "/traces.json", "KEYD_MODE": "full", "KEYD_UNI": uni_file(fake)}
        rc, o = tlc("DaemonTrace", env=env, workers=1)
        if rc != 0 and "Model checking completed" not in o:
            open(os.path.join(tempfile.gettempdir(), "keydv-last-error.txt"), "w").write(o)
            raise CheckError("TLC failed (%d):\n%s" % (rc, o[-3000:]))
        shutil.rmtree(d, True)
        return printed(o), states_of(o)
    rej, acc, st = {}, {}, {"states": 0, "distinct": 0, "events": 0, "undetermined": 0, "broken": []}
    if not parts:
        return rej, set(), st
    with ThreadPoolExecutor(len(parts)) as ex:
        results = list(ex.map(one, parts))
    for rs, n in results:
        st["distinct"] += n[1]
        st["states"] += n[0]
        for r in rs:
            if "accept" in r:
                acc[r["accept"]] = acc.get(r["accept"], True) and r["amb"]
            elif "broken" in r:
                st["broken"].append(r)
            elif "reject" in r and (r["reject"] not in rej or rej[r["reject"]]["at"] < r["at"]):
                rej[r["reject"]] = r
    for k in acc:
        rej.pop(k, None)
    st["undetermined"] = sum(1 for k in acc if acc[k])
    st["events"] = sum(len(res[s.sid]["ev"]) for s in live)
    for s in live:
        if s.sid not in rej and s.sid not in acc:
            raise CheckError("no verdict for world %s" % s.sid)
    return rej, set(acc), st

# ------------------------------------------------------------------ generation
NAMES = ["Acme Keyboard", "Acme Keyboard 2", "AT Translated", "x"]
VENDORS = [(1, 2), (1, 3), (0x46d, 0xc52b), (0x1234, 0xabcd)]
KBD = [(1, 127)]
BTN = [(272, 279)]
BADKEYS = {0, 148, 149, 177, 178, 202, 203, 222, 195, 196} | set(range(249, 256))

class D:
    """What a property's worlds are like"""
    def __init__(self, **kw):
        self.prof = prof(dict(ENV, oneshot=1.5, toggle=1, overload=1.5, overloadt=1, timeout=.6, macro=1, macro2=.4, swap=.5,
                              setlayout=.4, clear=.3, command=.4, scroll=.2, overloadi=.4, lettermod=.4, layerm=.3),
                         keys=(3, 6), layers=(1, 3), chords=.2, layouts=.3, events=(10, 30), wakes=0, dup=.02,
                         opts=opts(oneshot_timeout=.4, macro_timeout=.4, chord_timeout=.3, disable_modifier_guard=.1))
        self.sets = (1, 1)
        self.files = (1, 2)
        self.devices = (1, 3)
        self.kinds = dict(kbd=5, mouse=1)
        self.ids = dict(wild=1)                # how the configurations name their devices
        self.late = .2                         # devices which are plugged in later
        self.unplug = .2
        self.mouse = (0, 10)
        self.reqs = dict()
        self.nreqs = (0, 0)
        self.how = dict(full=1)
        self.listen = 0                        # listeners at the beginning
        self.extra = 0                         # keys of all codes
        self.jitter = .3
        self.panic = 0
        self.indicator = 0
        self.odd = 0                           # odd evdev events
        self.held = 0
        self.oddconf = 0
        self.term = 0
        self.crowd = 0                         # of devices
        self.many = .02                        # crowds of clients, reloads over and over, ...
        self.__dict__.update(kw)

def pick(r, w):
    return r.choices(list(w), list(w.values()))[0]

class Maker:
    def __init__(self, rng, d):
        self.r, self.d = rng, d
    def chance(self, p):
        return self.r.random() < p

    def device(self):
        r = self.r
        v, p = r.choice(VENDORS)
        n = r.choice(NAMES)
        k = pick(r, self.d.kinds)
        held = r.sample(range(2, 60), r.randint(1, 3)) if self.chance(self.d.held) else []
        if k == "kbd":
            return Device(v, p, n, KBD + ([(183, 194), (224, 248)] if self.chance(.5) else []), held=held)
        if k == "mouse":
            return Device(v, p, n, BTN, r.choice([[0, 1, 8], [0, 1, 8, 6], [0, 1]]))
        if k == "both":
            return Device(v, p, n, KBD + BTN, [0, 1, 8], held=held)
        if k == "tablet":
            return Device(v, p, n, [(272, 274)], [], [0, 1], r.choice([(0, 1024, 0, 1024), (0, 4095, 0, 2047), (-100, 100, -500, 3500), (100, 1100, 200, 2200)]))
        if k == "power":
            return Device(v, p, n, r.choice([[(116, 116)], [], [(2, 11)], [(272, 272)], [(1, 1), (16, 21), (2, 10)]]))
        if k == "bright":
            return Device(v, p, n, r.choice([[(224, 225)], [(115, 115)], [(113, 115)], [(225, 225), (120, 120)]]))
        if k == "barely":
            return Device(v, p, n, [(2, 11), (16, 21)])
        if k == "virtual":
            return Device(0x0fac, r.choice([0x0ade, 0x1ade]), n, KBD, r.choice([[], [0, 1]]))
        raise Exception(k)

    def idline(self):
        r = self.r
        k = pick(r, self.d.ids)
        v = r.choice(self.devs)
        short, long = "%04x:%04x" % (v.vendor, v.product), v.ident()
        part = r.choice([short, short, long])
        return {"wild": "*", "id": part, "not": "-" + part, "k": "k:" + part, "m": "m:" + part,
                "prefix": long[:r.choice([4, 7, 10, 12])], "other": r.choice(["0001:0009", "ffff:ffff:00000000", long[:-1] + "0"]),
                "badcase": short.upper()}[k]

    def conf(self, n):
        r = self.r
        g = Gen(r, self.d.prof)
        c = g.conf()
        lines = c.lines[2:]
        ids = [self.idline() for _ in range(r.choice([1, 1, 1, 2, 3]))]
        if self.d.ids.keys() == {"wild"}:
            ids = ["*"]
        head = ["[ids]"] + ids
        if self.chance(self.d.indicator):
            i = lines.index("[global]")
            lines.insert(i + 1, "layer_indicator = 1")
        c.lines = [latin(x) for x in head] + lines
        if self.chance(self.d.oddconf):
            c.lines = r.choice([c.lines[1:], ["nonsense"] + c.lines, [], c.lines + ["[nosuch+nothing]", "a = b"],
                                c.lines + ["[main]", "a = nosuch(1)"]])
        self.gens.append(g)
        return c

    def world(self, sid, share=None):
        """share: the world whose configurations and devices are used again"""
        r, d = self.r, self.d
        if share:
            self.devs, self.gens, self.sets = share.devs, share.gens, share.sets
        else:
            self.devs = [self.device() for _ in range(r.randint(*d.devices))]
            if self.chance(d.crowd):
                self.devs += [self.device() for _ in range(r.randint(62, 70))]
            self.gens = []
            self.sets = []
            for _ in range(r.randint(*d.sets)):
                self.sets.append([self.conf(i) for i in range(r.randint(*d.files) if len(self.devs) < 60 else 1)])
            if not self.gens:
                self.sets[0].append(self.conf(0))
        self.ops = []          # (time, order, text)
        self.reqs = []
        self.n = 0
        base = r.choice([0, 0, (1 << 31) - r.randint(1, 3000), (1 << 32) - r.randint(1, 3000), r.randint(10**6, 1 << 40)])
        jitter = (r.randint(1, 1 << 30), r.choice([1, 3, 10])) if self.chance(d.jitter) and len(self.devs) < 60 else None
        self.many = self.chance(d.many)
        start, end = [], 0
        for i, v in enumerate(self.devs):
            t = 0
            if len(self.devs) > 60:             # more than there is room for
                t = 10 * i + 1
                self.op(t, "A %d %d" % (t, i + 1))
                t += 800
                if self.chance(.1):
                    t += i
                    self.op(t, "X %d %d" % (t, i + 1))
                    t += 100
                    self.op(t, "A %d %d" % (t, i + 1))
                elif self.chance(.5):
                    continue
            elif self.chance(d.late):
                t = r.randint(1, 800)
                self.op(t, "A %d %d" % (t, i + 1))
            else:
                start.append(i + 1)
            rounds = 2 if self.chance(d.unplug) else 1
            if self.many and d.unplug > .3 and (i == 0 or self.chance(.5)):
                for _ in range(r.randint(10, 30)):
                    t += r.choice([1, 5, 20])
                    if i + 1 in start or t > 900:
                        self.op(t, "X %d %d" % (t, i + 1))
                        t += r.choice([1, 5, 20])
                    self.op(t, "A %d %d" % (t, i + 1)) if i + 1 in start or t > 900 else None
            for k in range(rounds):
                t = self.history(i + 1, v, t + r.choice([0, 1, 5, 50]))
                if rounds == 2 and k == 0:
                    t += r.choice([1, 20, 200])
                    both = [o[0] for o in self.ops if t < o[0] < t + 300 and o[2][0] == "E"]
                    if both and self.chance(.5 if not d.indicator else .8):        # at the very moment when something happens elsewhere
                        t = r.choice(both)
                    self.op(t, "X %d %d" % (t, i + 1))
                    t += r.choice([1, 20, 200])
                    if self.chance(.6):
                        self.op(t, "A %d %d" % (t, i + 1))
                    else:
                        break
            end = max(end, t)
        if d.indicator:
            self.coincide()
        self.clients(end)
        end = max([end] + [o[0] for o in self.ops])
        if self.chance(d.term):
            self.op(end + 1, "K %d" % (end + 1))
        end += 4000
        self.op(end, "Q %d" % end)
        self.ops.sort(key=lambda o: (o[0], o[1]))
        # clients are numbered in the order in which they come
        num, reqs, ops = {}, [], []
        for t, n, o in self.ops:
            f = o.split()
            if f[0] == "C":
                num[f[2]] = len(num) + 1
                reqs.append(self.reqs[int(f[2]) - 1])
                f[2] = str(num[f[2]])
                o = " ".join(f)
            elif f[0] == "R":
                f[2] = str(num[f[2]])
                o = " ".join(f)
            ops.append(o)
        w = World(sid, self.devs, start, self.sets, base, jitter, reqs, ops)
        w.gens = self.gens
        return w

    def coincide(self):
        """devices which vanish while others, which are looked after first, light their LEDs"""
        for k, (t, n, o) in enumerate(self.ops):
            f = o.split()
            if f[0] == "X" and self.chance(.8):
                own = [x[0] for x in self.ops if x[2][0] == "A" and x[2].split()[2] == f[2]]
                lo, hi = max([x for x in own if x < t] or [0]), min([x for x in own if x > t] or [10**9])
                c = [x[0] for x in self.ops if x[2][0] == "E" and lo < x[0] < hi and int(x[2].split()[2]) < int(f[2]) and
                     x[2].split()[3] in ("1", "17")]
                if c:
                    t = self.r.choice(c)
                    self.ops[k] = (t, n, "X %d %s" % (t, f[2]))

    def op(self, t, text):
        self.n += 1
        self.ops.append((t, self.n, text))

    # ---- what happens at a device
    def history(self, i, v, t):
        r, d = self.r, self.d
        kinds = v.kinds()
        end = t
        codes = set(v.codes())
        ev = lambda t, ty, co, va: (self.op(t, "E %d %d %d %d %d" % (t, i, ty, co, va)))
        if not kinds:
            return t
        if "keyboard" in kinds:
            g = r.choice(self.gens)
            ops = []
            te = g.segment(ops, t, r.randint(*d.prof.events))
            last = t
            ops = [o for o in ops if o[0] == "K" and o[1] in codes and o[1] not in BADKEYS]
            panic = -1
            if d.panic:
                ops = self.with_panic(ops)
            for o in ops:
                ev(o[3], 1, o[1], o[2])
                last = o[3]
                if self.chance(.3):
                    ev(o[3], 0, 0, 0)
                if self.chance(d.odd):
                    self.oddity(ev, o[3], v)
            end = max(end, last)
            if self.chance(d.extra):
                pool = [c for c in codes if c not in BADKEYS] + [c for c in self.far() if True]
                tt = t
                down = []
                for c in r.sample(pool, min(len(pool), r.randint(4, 25))):
                    tt += r.choice([0, 1, 10, 30])
                    ev(tt, 1, c, 1)
                    tt += r.choice([0, 1, 10, 30])
                    ev(tt, 1, c, 0)
                end = max(end, tt)
        if "mouse" in kinds:
            tt = t
            down = []
            for _ in range(r.randint(*d.mouse)):
                tt += r.choice([0, 1, 5, 20, 60])
                x = r.random()
                if v.mask(v.abss) and x < .5:
                    self.position(ev, tt, v)
                elif x < .35 and v.rels:
                    ev(tt, 2, r.choice([0, 1]), r.choice([-7, -3, -1, 1, 2, 5, 40, 0]))
                    if self.chance(.5):
                        ev(tt, 2, r.choice([0, 1]), r.choice([-4, 1, 3]))
                elif x < .5 and v.rels:
                    ev(tt, 2, r.choice([8, 8, 6]), r.choice([-2, -1, 1, 1, 3]))
                elif x < .8:
                    free = [c for c in codes if 272 <= c <= 277 and c not in down]
                    if free and (not down or self.chance(.6)):
                        c = r.choice(free)
                        down.append(c)
                        ev(tt, 1, c, 1)
                    elif down:
                        ev(tt, 1, down.pop(0), 0)
                else:
                    ev(tt, 0, 0, 0)
                if self.chance(d.odd):
                    self.oddity(ev, tt, v)
            for c in down:
                tt += 5
                ev(tt, 1, c, 0)
            end = max(end, tt)
        if v.vendor == 0x0fac and self.chance(.7):
            for c in r.sample([0, 1, 2, 4], r.randint(1, 3)):
                ev(end, 17, c, r.choice([0, 1]))
        return end

    def position(self, ev, t, v):
        ax = self.r.choice([0, 1])
        lo, hi = v.rng[2 * ax], v.rng[2 * ax + 1]
        for _ in range(20):
            m = (hi - lo) // 2 if self.chance(.15) else 0       # or beyond the ends of the axis
            x = self.r.randint(lo - m, hi + m)
            q = abs((x - lo) * 1024) // abs(hi - lo)
            if q:
                ev(t, 3, ax, x)
                return

    def far(self):
        return [372, 582, 444, 445, 446, 485, 374, 562, 634, 532, 531, 360, 464] + list(range(422, 432)) + list(range(466, 478)) + \
               list(range(256, 266)) + [279]

    def oddity(self, ev, t, v):
        r = self.r
        x = r.choice(["rep", "msc", "led", "rel", "abs", "key", "snd"])
        if x == "rep":
            ev(t, 1, r.choice([30, 31, 57, 1, 14, 28]), 2)
        elif x == "msc":
            ev(t, 4, 4, r.choice([30, 458756]))
        elif x == "led":
            ev(t, 17, r.choice([0, 1, 2]), r.choice([0, 1]))
        elif x == "rel":
            ev(t, 2, r.choice([2, 3, 7, 9, 11, 12]), r.choice([-120, 120, 1]))
        elif x == "abs" and v.mask(v.abss):
            ev(t, 3, r.choice([24, 40, 47, 57]), r.choice([0, 5]))
        elif x == "key":
            ev(t, 1, r.choice([330, 325, 333, 500, 600, 700, 320]), r.choice([0, 1]))
        else:
            ev(t, 18, 1, 1)

    def with_panic(self, ops):
        """some of the keys of the panic sequence, with or without all of them together"""
        r = self.r
        out = []
        t = 0
        shift = 0
        down = set()
        for o in ops:
            o = (o[0], o[1], o[2], o[3] + shift)
            t = o[3]
            out.append(o)
            if self.chance(.2):
                for _ in range(r.randint(1, 4)):
                    c = r.choice([1, 14, 28])
                    if c in down:
                        down.discard(c)
                        out.append(("K", c, 0, t))
                    elif len(down) < 2 or (self.d.panic > 1 and self.chance(.3)):
                        down.add(c)
                        out.append(("K", c, 1, t))
                    dt = r.choice([0, 1, 30, 200])
                    t += dt
                    shift += dt
        for c in sorted(down):
            t += 3
            out.append(("K", c, 0, t))
        return sorted(out, key=lambda o: o[3])

    # ---- the clients
    def request(self, t, typ, data=None, to=0, size=None, how="full", arg=0):
        data = "" if data is None else data
        size = len(data) if size is None else size
        self.reqs.append({"type": typ, "to": to, "size": size, "data": data, "how": how, "arg": arg})
        h = data.encode("latin-1").hex() or "-"
        self.op(t, "C %d %d %d %d %d %s %s %d" % (t, len(self.reqs), typ, to, size, h, how, arg))
        return len(self.reqs)

    def clients(self, end):
        r, d = self.r, self.d
        nl = d.listen if isinstance(d.listen, int) else r.randint(*d.listen)
        nr = r.randint(*d.nreqs)
        if self.many and nl:
            nl = r.randint(29, 36)
        if self.many and nr:
            nr = r.randint(25, 45)
        lost = 0            # the specification may have to guess when these are given up
        for _ in range(nl):
            t = r.choice([0, 0, 1, r.randint(0, end + 1)])
            how = "stall" if "stall" in d.how and self.chance(.2) and lost < 4 else "full"
            lost += how == "stall"
            c = self.request(t, 6, how=how)
            if self.chance(.3):
                t2 = r.randint(t, end + 1)
                self.op(t2, "R %d %d" % (t2, c))
        for _ in range(nr):
            t = r.randint(0, end + 1)
            k = pick(r, d.reqs)
            how = pick(r, d.how)
            arg = 0
            if how in ("eof", "silent"):
                arg = r.choice([0, 1, 7, 8, 100, 4103, 4104, 4111, 4112, r.randint(0, 4112)])
            elif how == "drip":
                arg = r.choice([1, 3, 10, 2000])
            to, size, data = 0, None, ""
            if k == "bind":
                typ = 2
                g = r.choice(self.gens)
                data = g.evalexp() if self.chance(.7) else r.choice(["reset", "nonsense", "a", "nosuch.a = b", "a = nosuch", "", "main.a=",
                                                                    "a = x", "reset ", "[main]", "s = layer(l1)"])
            elif k == "reset":
                typ, data = 2, "reset"
            elif k == "input":
                typ = 3
                data = r.choice(["hi", "Hello, World!", "a\tb\n", "x y", "éa", "añb€", "\x01", "ab\x07cd", "", "1;2", "ok\xff"])
                if self.chance(.4):
                    data = "".join(r.choice(ITXT) for _ in range(r.randint(1, 12)))
                to = r.choice([0, 0, 100, 1000, 20000])
            elif k == "macro":
                typ = 4
                data = r.choice(["a b", "C-a", "C-S-x hi", "leftshift+a", "a 20ms b", "nosuch+", "a\n", "é", "", "hello", "C-", "(", "50ms",
                                 "leftmouse", "scrollup", "hello\n", "a b\n\n", "\n"])
                if self.chance(.4):
                    data = " ".join(r.choice(MTOK) for _ in range(r.randint(1, 6))) + r.choice(["", "", "\n", "\n\n"])
                to = r.choice([0, 0, 100, 2000])
            elif k == "reload":
                typ = 5
                if len(self.sets) > 1 or self.chance(.3):
                    self.op(t, "L %d" % r.randrange(len(self.sets)))
            elif k == "listen":
                typ = 6
            elif k == "bad":
                typ = r.choice([0, 1, 7, 8, 99, 1000000, -1, -2147483648])
            elif k == "big":
                typ = r.choice([2, 3, 4, 5])
                size = r.choice([4095 if typ in (2, 5) else 150, 4096, 4097, 1 << 31, (1 << 32) + 3, (1 << 63), (1 << 64) - 1])
            elif k == "slow":
                typ, data, to = r.choice([3, 4]), "ab", r.choice([1000000, 1000001, 4294967295])
            if how in ("gone", "stall") and typ == 6:
                how = r.choice(["gone", "stall"]) if lost < 4 else "full"
                lost += 1
            data = latin(data) if k in ("input", "macro") and "\xff" not in data else data
            if size is None and self.chance(.05):
                size = r.choice([0, len(data) + 3, len(data) + 40])
            c = self.request(t, typ, data, to, size, how, arg)
            if typ == 6 and how == "full" and self.chance(.4):
                t2 = r.randint(t, end + 50)
                self.op(t2, "R %d %d" % (t2, c))
        if "gone" in d.how:
            for _ in range(r.choice([0, 0, 1, 2])):
                t = r.randint(0, end + 1)
                self.op(t, "F %d" % t)

IDS = dict(wild=3, id=3, k=1, m=1, prefix=.7, other=1, badcase=.2)
IDS["not"] = 1.5
EVERY = dict(kbd=5, mouse=2, both=1, tablet=1, power=.7, bright=.7, barely=.5, virtual=.8)
MTOK = ["a", "B", "S-c", "C-M-x", "leftcontrol+v", "a+b", "5ms", "100ms", "text", "Mixed1!", "é", "€x", "space", "enter", "tab", "~",
        "leftshift+5ms+k", "A-S-tab", "0", "esc", "f12", "G-q", "volumeup", "1ms", "\x80"]
ITXT = ["\x80"] + list("abzAZ019 \n\t!@~`|\\{}[]()+-=_,.;:'\"<>?/") + ["é", "ß", "€", "Ω", "ж", "￿", "\x7f", "\x1b"]
PLAN = {
 "C19": D(crowd=.02, kinds=EVERY, ids=IDS, files=(1, 3), devices=(2, 6), late=.4, unplug=.4, mouse=(0, 5), held=.3, oddconf=.1,
          sets=(1, 2), reqs=dict(reload=1), nreqs=(0, 1), prof=prof(dict(ENV, macro=.5), keys=(3, 5), layers=(1, 2), chords=0,
          layouts=.1, events=(3, 8), wakes=0, dup=0, opts={})),
 "C20": D(kinds=dict(kbd=5, mouse=2, both=1, tablet=.7), ids=dict(wild=3, id=2), devices=(2, 4), mouse=(3, 20), jitter=.5, odd=.08),
 "C21": D(listen=(1, 4), nreqs=(0, 2), reqs=dict(listen=3, bind=1, reload=.4), ids=dict(wild=3, id=1), how=dict(full=1, stall=.1, gone=.1),
          prof=prof(dict(ENV, layer=5, toggle=4, setlayout=3, oneshot=3, swap=2, clear=1, overload=2, overloadt=1, layerm=.5),
                    keys=(3, 6), layers=(2, 4), layouts=.8, composites=.6, chords=.1, events=(10, 40), wakes=0, longnames=.2,
                    opts=opts(oneshot_timeout=.3))),
 "C22": D(listen=(0, 2), nreqs=(3, 12), how=dict(full=4, eof=2, silent=2, drip=1, gone=1.5, stall=1),
          reqs=dict(bind=3, reset=.5, input=1.5, macro=1.5, reload=.7, listen=1, bad=1, big=1, slow=.4), term=.2),
 "C23": D(sets=(2, 3), files=(0, 3), nreqs=(1, 3), reqs=dict(reload=5, bind=2, reset=.3, macro=.3), listen=(0, 2), oddconf=.1,
          ids=dict(IDS, wild=5), indicator=.3),
 "C24": D(kinds=dict(kbd=4, mouse=3, both=1.5, tablet=2, virtual=1), ids=dict(wild=3, m=4, id=3), files=(1, 2), devices=(1, 4), mouse=(5, 25), unplug=.5,
          extra=.7, odd=.15, indicator=.4, nreqs=(0, 2), reqs=dict(macro=2, input=1),
          prof=prof(dict(ENV, scroll=2, scrollt=2, macro=1, toggle=.6, overload=.6), keys=(3, 6), layers=(1, 2), events=(5, 15), wakes=0,
                    opts=opts())),
 "C25": D(kinds=dict(kbd=5, both=1, mouse=1, barely=.3, virtual=.4), ids=dict(wild=3, id=1, other=.5), devices=(1, 3), panic=2, odd=.2, mouse=(0, 8),
          unplug=.1, prof=prof(dict(ENV, overload=1, macro=.5, noop=.5, toggle=.5), keys=(3, 5), layers=(1, 2), chords=.2, events=(8, 25), wakes=0,
                    opts=opts())),
}
QUICK = 800
THOROUGH = 16000

def worlds(prop, seed, first, n):
    out, d = [], PLAN[prop]
    last = None
    for i in range(first, first + n):
        r = random.Random("%s/%s/%d" % (seed, prop, i))
        if i % 4 == 0:
            last = None
        m = Maker(r, d)
        w = m.world("%s-%d" % (prop, i), last)
        last = last or w
        out.append(w)
    return out

def run(prop, seed, tier, rep):
    total = THOROUGH if tier == "thorough" else QUICK
    done = 0
    while done < total and not rep.late() and not rep.violations:
        n = min(QUICK, total - done)
        ws = worlds(prop, seed, done, n)
        done += n
        judge(prop, ws, rep)

def judge(prop, ws, rep):
    for _ in range(4):
        res = run_worlds(ws)
        done = [s for s in ws if res[s.sid]["st"] != -2]
        decide(prop, done, res, rep)
        if rep.violations or len(done) == len(ws):
            return
        ws = [s for s in ws if res[s.sid]["st"] == -2]
    raise CheckError("some worlds hang at times")

def decide(prop, ws, res, rep):
    rej, acc, st = validate_worlds(ws, res)
    rep.add(states=st["distinct"], transitions=st["events"], traces_validated_against_impl=len(acc), undetermined=st["undetermined"])
    for s in ws[:1]:
        if s.sid in acc:
            rep.sample({"world": s.text(".").split("\n")[:40], "recorded": [e for e in res[s.sid]["ev"] if e["k"] != "ui"][:12]})
    by = {s.sid: s for s in ws}
    for sid in sorted(rej):
        r2 = run_worlds([by[sid]])
        rej2, _, _ = validate_worlds([by[sid]], r2)
        if sid in rej2:
            rep.violation_data(rej2[sid], by[sid].data())
            return

def replay(d):
    w = World.load(d, "replay")
    res = run_worlds([w])
    rej, acc, st = validate_worlds([w], res)
    print(w.text("."))
    for i, e in enumerate(res["replay"]["ev"]):
        if e["k"] != "ui":
            print(i + 1, json.dumps(e))
    print("status", res["replay"]["st"])
    print(json.dumps(rej, indent=1))
    return 1 if rej else 0
