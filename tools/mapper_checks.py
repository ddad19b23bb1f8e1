"""The check of C27: the real application mapper with the desktop played by
fakes (a Wayland compositor, the fifo of the Gnome extension, KWin's scripting
interface, an X server), random configurations and histories of the windows;
the bindings which are in force are decided by spec/MapperTrace.tla."""
import fcntl, json, os, random, shutil, signal, socket, struct, subprocess, tempfile, termios, time
from concurrent.futures import ThreadPoolExecutor
from kv import *

ASSUMPTIONS = ["the desktop environments are played by stand-ins (harness/mapper, tools/mapper_checks.py)",
               "keyd(1) is a stand-in which records the commands; keyd bind applies its arguments in order"]
SCRIPT = os.path.join(REPO, "scripts/keyd-application-mapper")
FAKES = VERIF + "/harness/mapper"
BACKENDS = ["wlroots", "cosmic", "gnome", "kde", "x"]
PATIENCE = 20

def cps(s):
    return [ord(c) for c in s]

# ---- scenarios --------------------------------------------------------------
CLASSES = ["kitty", "st-256color", "Google-chrome", "org.gnome.Nautilus", "foo", "Foo Bar!", "été", "a_b", "", "--x--", "X11",
           "root", "foo|bar", "[x]"]
TITLES = ["", "inbox - Mail", "vim: notes.txt", "Élan ж Ж", "中 “x”", "a_b", "find  me", "foo", "** bold **", "My Document (1)", "a|b",
          "x" * 90, "tab\there", "…", "[draft] é", "CAPS"]
BINDS = ["alt.] = C-tab", "a = b", "control.1 = macro(Inside space st)", "alt.t = C-S-t", "x = é", "[broken", "reset", "b = c",
         "main.z = oneshot(shift)", "q = command(echo 'a  b')", "-x = y", "a = b", "k = macro(# [)", "layer = layout"]

def nclass(s):
    o = "".join(c.lower() if c.isascii() and c.isalnum() else "-" for c in s)
    while "--" in o:
        o = o.replace("--", "-")
    return o.strip("-")
def ntitle(s):
    o = "".join(c.lower() if c.isalnum() else "-" for c in s)
    while "--" in o:
        o = o.replace("--", "-")
    return o.strip("-")

def pattern(r, s):
    k = r.random()
    if not s or k < .12:
        return "*"
    if k < .5:
        return s
    i = r.randrange(len(s))
    j = r.randint(i, len(s))
    if k < .6:
        return s[:j] + "*"
    if k < .68:
        return "*" + s[i:]
    if k < .76:
        return "*" + s[i:j] + "*"
    c = s[i]
    if k < .84:
        return s[:i] + "?" + s[i + 1:]
    if not (c.isascii() and c.isalnum()):
        return s
    if k < .9:
        return s[:i] + r.choice(["[%s]" % c, "[x%sy]" % c, "[a-z]", "[0-9]"]) + s[i + 1:]
    if k < .96:
        return s[:i] + r.choice(["[!%s]" % c, "[!%%]" if 0 else "[!_]", "[!a-m]"]) + s[i + 1:]
    return s[:i] + "[" + s[i:]

def conf_text(r, cls, tit, odd=True):
    out = []
    if r.random() < .08:
        out.append(r.choice(["a = b", "orphan = x", "]", "[x"]))
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
        h = pattern(r, nclass(r.choice(cls)))
        if r.random() < .5:
            h += "|" + pattern(r, ntitle(r.choice(tit)))
        if r.random() < .04:
            h = r.choice(["", "|", "|*", "*|*", "*"])
        out.append(r.choice(["", "  ", "\t"]) * (r.random() < .1) + "[" + h + "]" + " " * (r.random() < .1))
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            out.append("# comment" if x < .08 else "" if x < .16 else r.choice(["", "  ", "\t"]) + r.choice(BINDS) + r.choice(["", " "]))
    t = r.choice(["\n"] * 8 + ["\r\n"]).join(out) + ("\n" if r.random() < .9 else "")
    if odd and r.random() < .06:
        i = r.randrange(len(t) + 1)
        t = t[:i] + r.choice(["\udcff", "\udcc3", "\0"]) + t[i:]
    return t

def scenario(seed, idx):
    r = random.Random("%s/mapper/%s" % (seed, idx))
    be = BACKENDS[idx % len(BACKENDS)]
    cls = r.sample(CLASSES, r.randint(2, 4))
    tit = r.sample(TITLES, r.randint(2, 5))
    def text(xs):
        s = r.choice(xs)
        if r.random() < .04:
            s += "\ufffd"
        if be == "x":
            s = s.replace("\t", " ") or "x"
        if be == "gnome" and xs is cls:
            s = s.replace("\t", " ")
        return s
    steps, ids, act, n = [], [], None, 0
    called = {}
    def wl(kind):
        """the messages by which the focus moves, a title changes, a window appears or is closed"""
        nonlocal act, n
        m = []
        if kind == "new" or not ids:
            n += 1
            m.append({"op": "top", "id": n})
            ids.append(n)
            w = n
            part = [{"op": "title", "id": w, "s": text(tit)}, {"op": "app", "id": w, "s": text(cls)}]
            twin = act in called and len(called[act]) == 2 and r.random() < .4
            if twin:            # another window of the same name
                part = [{"op": k, "id": w, "s": called[act][k]} for k in ("title", "app")]
            r.shuffle(part)
            if r.random() < .15 and not twin:
                part.pop()
            m += part
            if r.random() < .3:
                m.append({"op": "other", "id": w})
            if r.random() < .5:
                m += [{"op": "state", "id": w, "l": r.choice([[], [0], [1]])}, {"op": "done", "id": w}]
                return m
            kind = "focus"
        else:
            w = r.choice(ids)
        if kind == "title":
            w = act if act and r.random() < .7 else w
            m.append({"op": r.choice(["title", "title", "app"]), "id": w, "s": text(r.choice([tit, cls]))})
            if r.random() < .2:
                m.append({"op": "title", "id": w, "s": text(tit)})
            m.append({"op": "done", "id": w})
        elif kind == "close":
            if act == w and r.random() < .5:
                m += [{"op": "state", "id": w, "l": []}, {"op": "done", "id": w}]
            if act == w:
                act = None
            ids.remove(w)
            m.append({"op": "closed", "id": w})
        elif kind == "states":       # maximised and so on, the focus stays
            l = [x for x in (0, 3) if r.random() < .5] + ([2] if act == w else [])
            r.shuffle(l)
            m += [{"op": "state", "id": w, "l": l}, {"op": "done", "id": w}]
        elif kind == "focus":
            l = [x for x in (0, 3) if r.random() < .25] + [2]
            r.shuffle(l)
            a = [{"op": "state", "id": w, "l": l}]
            if r.random() < .1:
                a.append({"op": "title", "id": w, "s": text(tit)})
            a.append({"op": "done", "id": w})
            b = []
            if act and act != w:
                b = [{"op": "state", "id": act, "l": r.choice([[], [0]])}, {"op": "done", "id": act}]
            m += r.choice([a + b, b + a, b + a])
            act = w
        return m
    def xstate():
        ws, top = [], []
        for _ in range(r.randint(1, 3)):
            i = len(ws) + 1
            c = [text(cls)] if r.random() < .7 else []
            name = text(tit)
            latin = r.choice([x for x in tit if all(ord(y) < 256 for y in x)] or ["latin"]).replace("\t", " ")
            ws.append({"id": i, "up": 0 if r.random() < .5 or not ws else r.choice(ws)["id"], "c": c, "n": [name] if r.random() < .7 else [],
                       "m": [latin] if r.random() < .6 else [], "above": False, "note": False})
        x = r.random()
        if x < .15:
            r.choice(ws)["above"] = True
        elif x < .3:
            w = r.choice(ws)
            w["above"] = w["note"] = True
        f = 0 if r.random() < .06 else r.choice(ws)["id"]
        return {"op": "x", "f": f, "w": ws}
    def happen():
        k = r.random()
        if be in ("wlroots", "cosmic"):
            m = wl("new" if k < .2 else "focus" if k < .65 else "title" if k < .82 else "states" if k < .9 else "close")
            for x in m:
                if x["op"] in ("title", "app"):
                    called.setdefault(x["id"], {})[x["op"]] = x["s"]
            return m
        if be == "x":
            return [xstate()]
        if be == "gnome" and k < .06:
            return [{"op": "junk", "s": r.choice(["no tab", "", "x" * 300, "\ufffd"])}]
        return [{"op": "focus", "c": text(cls), "t": text(tit)}]
    conf = conf_text(r, cls, tit, odd=False)
    for _ in range(r.randint(5, 16)):
        k = r.random()
        m = []
        if k < .12:
            m.append({"op": "conf", "s": conf_text(r, cls, tit)})
        elif k < .15:
            m.append({"op": "noconf"})
        elif k < .22 and be != "kde":
            steps.append([{"op": "usr1"}])
            continue
        elif k < .25 and be == "gnome":
            steps.append([{"op": "nothing", "how": "reopen"}])
            continue
        elif k < .27 and be == "gnome":
            steps.append([{"op": "nothing", "how": "part"}])
            continue
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            m += happen()
        steps.append(m)
    return {"id": "m%s-%d" % (seed, idx), "be": be, "conf": conf, "steps": steps, "split": r.random() < .3, "fail": r.random() < .1,
            "kde": r.choice(["5", "6"]), "verbose": r.random() < .2}

# ---- running the mapper -----------------------------------------------------
class Gone(Exception):
    pass
class Busy(Exception):
    pass

_stub = None
def stub():
    global _stub
    if _stub is None:
        d = os.path.join(scratch(), "bin")
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(["gcc", "-O1", "-o", d + "/keyd", FAKES + "/keyd.c"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError(r.stdout.decode())
        _stub = d
    return _stub

def wstr(b):
    p = struct.pack("I", len(b) + 1) + b + b"\0"
    return p + b"\0" * (-len(p) % 4)
def wmsg(obj, op, payload):
    return struct.pack("II", obj, (len(payload) + 8) << 16 | op) + payload
def raw(s):
    return s.encode("utf8", "surrogateescape").replace("\ufffd".encode("utf8"), b"\xff\xc3")

class Mapper:
    def __init__(self, sc, d):
        self.sc, self.d, self.be = sc, d, sc["be"]
        self.home = d + "/home"
        os.makedirs(self.home + "/.config/keyd")
        os.makedirs(d + "/run")
        self.conf, self.log = self.home + "/.config/keyd/app.conf", d + "/log"
        open(self.log, "w").close()
        self.nth = 0
        self.off, self.sock, self.fifo, self.held = 0, None, None, b""
        self.put_conf(sc["conf"])
        env = {"HOME": self.home, "PATH": stub() + ":/usr/bin:/bin", "KV_LOG": self.log, "KV_TMP": d, "XDG_RUNTIME_DIR": d + "/run",
               "PYTHONPATH": FAKES, "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8"}
        if sc["fail"]:
            env["KV_FAIL"] = "1"
        fds = ()
        lst = None
        if self.be in ("wlroots", "cosmic"):
            lst = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            lst.bind(d + "/wl")
            lst.listen(5)
            lst.settimeout(PATIENCE)
            env["WAYLAND_DISPLAY"] = d + "/wl"
        elif self.be == "gnome":
            env["XDG_CURRENT_DESKTOP"] = "ubuntu:GNOME"
            os.mkfifo(d + "/run/keyd.fifo")
        else:
            self.sock, b = socket.socketpair()
            os.set_inheritable(b.fileno(), True)
            fds = (b.fileno(),)
            env["KV_FD"] = str(b.fileno())
            env["PYTHONPATH"] += ":" + FAKES + "/" + self.be
            if self.be == "x":
                env["DISPLAY"] = ":0"
            else:
                env["KDE_SESSION_VERSION"] = sc["kde"]
        self.err = open(d + "/err", "wb")
        self.p = subprocess.Popen(["/usr/bin/python3", SCRIPT] + ["-v"] * sc["verbose"], env=env, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=self.err, pass_fds=fds, cwd=d)
        if fds:
            b.close()
        try:
            if lst:
                self.compositor(lst)
            elif self.be == "gnome":
                self.open_fifo()
            self.settle()
        finally:
            if lst:
                lst.close()
    def put_conf(self, s):
        if s is None:
            os.path.exists(self.conf) and os.unlink(self.conf)
            return
        with open(self.conf + ".new", "wb") as f:
            f.write(s.encode("utf8", "surrogateescape"))
        self.nth += 1
        self.tick = (10**9 + (self.nth if len(s) % 3 else -self.nth)) * 10**9 + self.nth * 10**6
        os.utime(self.conf + ".new", ns=(self.tick, self.tick))
        os.rename(self.conf + ".new", self.conf)
    def compositor(self, lst):
        ifc = {"wlroots": b"zwlr_foreign_toplevel_manager_v1", "cosmic": b"zcosmic_toplevel_info_v1"}[self.be]
        globs = [(1, b"wl_compositor", 5), (2, b"wl_shm", 1), (7, ifc, 3), (9, b"wl_seat", 8)]
        for _ in range(4):
            try:
                c, _a = lst.accept()
            except socket.timeout:
                raise Gone()
            c.settimeout(PATIENCE)
            buf, reg, done = b"", 0, 0
            try:
                while True:
                    while len(buf) < 8 or len(buf) < struct.unpack("I", buf[4:8])[0] >> 16:
                        x = c.recv(4096)
                        if not x:
                            raise EOFError()
                        buf += x
                    obj, w = struct.unpack("II", buf[:8])
                    body, buf = buf[8:w >> 16], buf[w >> 16:]
                    if obj == 1 and w & 0xffff == 1:
                        reg = struct.unpack("I", body)[0]
                        c.sendall(b"".join(wmsg(reg, 0, struct.pack("I", n) + wstr(i) + struct.pack("I", v)) for n, i, v in globs))
                    elif obj == 1 and w & 0xffff == 0:
                        cb = struct.unpack("I", body)[0]
                        c.sendall(wmsg(cb, 0, struct.pack("I", 5)) + wmsg(1, 1, struct.pack("I", cb)))
                    elif obj == reg and w & 0xffff == 0:
                        name = struct.unpack("I", body[:4])[0]
                        i = body[8:8 + struct.unpack("I", body[4:8])[0] - 1]
                        ver, self.mgr = struct.unpack("II", body[-8:])
                        if (name, i) != (7, ifc) or not 1 <= ver <= 3:
                            c.close()
                            raise Gone()
                        self.sock = c
                        return
            except (EOFError, ConnectionError):
                c.close()
            except socket.timeout:
                raise Gone()
        raise Gone()
    def open_fifo(self):
        end = time.time() + PATIENCE
        while True:
            try:
                self.fifo = os.open(self.d + "/run/keyd.fifo", os.O_WRONLY | os.O_NONBLOCK)
                os.set_blocking(self.fifo, True)
                return
            except OSError:
                if self.p.poll() is not None or time.time() > end:
                    raise Gone()
                time.sleep(.002)
    def pending(self):
        if self.be == "gnome":
            return struct.unpack("i", fcntl.ioctl(self.fifo, termios.FIONREAD, b"\0" * 4))[0] if self.fifo is not None else 0
        return struct.unpack("i", fcntl.ioctl(self.sock.fileno(), termios.TIOCOUTQ, b"\0" * 4))[0]
    def look(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                st = f.read().rsplit(")", 1)[1].split()
            with open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)) as f:
                kids = f.read().split()
            with open("/proc/%d/status" % self.p.pid) as f:
                sw = [l for l in f if "ctxt" in l]
        except OSError:
            raise Gone()
        return st[0], bool(kids), (st[11], st[12], sw)
    def settle(self):
        """until the mapper waits for something to happen and everything has been read"""
        end = time.time() + PATIENCE
        last, calm = None, 0
        while True:
            if self.p.poll() is not None:
                raise Gone()
            s, kids, x = self.look()
            if s == "S" and not kids and self.pending() == 0 and x == last:
                calm += 1
                if calm == 3:
                    return
            else:
                calm = 0
            last = x
            if time.time() > end or os.path.getsize(self.log) > self.off + 400000:
                raise Busy()
            time.sleep(.0015)
    def commands(self):
        with open(self.log) as f:
            f.seek(self.off)
            ls = f.readlines()
            self.off = f.tell()
        return [[bytes.fromhex(a[1:]).decode("utf8", "surrogateescape") for a in l.split()] for l in ls]
    def wait_read(self):
        end = time.time() + PATIENCE
        while self.pending() and self.p.poll() is None and time.time() < end:
            time.sleep(.0005)
    def write(self, b):
        try:
            if self.sc["split"] and len(b) > 3:
                k = 1 + len(b) * 5 % (len(b) - 1)
                self.out(b[:k])
                self.wait_read()
                self.out(b[k:])
            else:
                self.out(b)
        except OSError:
            raise Gone()
    def out(self, b):
        if self.be == "gnome":
            os.write(self.fifo, b)
        else:
            self.sock.sendall(b)
    def send(self, ms):
        ev = b""
        for m in ms:
            op = m["op"]
            if op == "conf":
                self.put_conf(m["s"])
            elif op == "noconf":
                self.put_conf(None)
            elif op == "usr1":
                self.p.send_signal(signal.SIGUSR1)
                time.sleep(.004)
            elif op == "nothing" and m["how"] == "reopen":
                os.close(self.fifo)
                self.fifo = None
                self.settle()
                self.open_fifo()
            elif op == "nothing":
                self.out(b"half a cl")      # completed by the next step
                self.held = b"half a cl"
            elif self.be == "gnome":
                if op == "junk":
                    ev += raw(m["s"]) + b"\n"
                else:
                    ev += raw(m["c"]) + b"\t" + raw(m["t"]) + b"\n"
            elif self.be == "x":
                ev += (json.dumps(m) + "\n").encode()
            elif self.be == "kde":
                ev += (json.dumps({"c": m["c"], "t": m["t"]}) + "\n").encode()
            else:
                ev += self.wayland(m)
        if ev:
            self.write(ev)
        self.settle()
    def wayland(self, m):
        w, op = 0xff000000 + m["id"], m["op"]
        wlr = self.be == "wlroots"
        if op == "top":
            return wmsg(self.mgr, 0, struct.pack("I", w))
        if op == "title":
            return wmsg(w, 0 if wlr else 2, wstr(raw(m["s"])))
        if op == "app":
            return wmsg(w, 1 if wlr else 3, wstr(raw(m["s"])))
        if op == "other":
            return wmsg(w, 2 if wlr else 4, struct.pack("I", 12))
        if op == "state":
            return wmsg(w, 4 if wlr else 8, struct.pack("I", 4 * len(m["l"])) + b"".join(struct.pack("I", x) for x in m["l"]))
        if op == "done":
            return wmsg(w, 5 if wlr else 1, b"")
        return wmsg(w, 6 if wlr else 0, b"")
    def stop(self):
        self.p.kill()
        self.p.wait()
        self.err.close()
        if self.sock:
            self.sock.close()
        if self.fifo is not None:
            os.close(self.fifo)

def codes(m):
    """a message with its texts as code points"""
    o = {k: cps(v) if k in ("s", "c", "t") else v for k, v in m.items()}
    if o["op"] == "x":
        o["w"] = [dict(w, c=[cps(x) for x in w["c"]], n=[cps(x) for x in w["n"]], m=[cps(x) for x in w["m"]]) for w in o["w"]]
    return o

def record(sc):
    """runs a scenario; the trace for MapperTrace"""
    d = tempfile.mkdtemp(prefix="map", dir=scratch())
    ev, why, mp = [], None, None
    try:
        try:
            mp = Mapper.__new__(Mapper)
            mp.__init__(sc, d)
            mp.commands()
        except (Gone, Busy) as e:
            why = type(e).__name__
            ev.append({"m": [{"op": "nothing"}], "cmd": [], "alive": 0})
        if why is None:
            for m in sc["steps"]:
                shown = [codes(x) for x in m]
                held = mp.held
                if held and mp.be == "gnome":
                    # the line which was begun is completed first: what it says is not specified
                    shown = [{"op": "junk", "s": cps("half a cl")}] + shown if m[0]["op"] != "usr1" else shown
                try:
                    if held and m[0]["op"] not in ("usr1", "nothing"):
                        mp.held = b""
                        mp.out(b"\n")
                    elif held and m[0]["op"] == "nothing":
                        ev.append({"m": [{"op": "nothing"}], "cmd": [], "alive": 1})
                        continue
                    mp.send(m)
                    ev.append({"m": shown, "cmd": [[cps(a) for a in c[1:]] for c in mp.commands() if c[:1] == ["bind"]], "alive": 1})
                except (Gone, Busy, BrokenPipeError) as e:
                    why = type(e).__name__
                    ev.append({"m": shown, "cmd": [], "alive": 0})
                    break
        if mp is not None and hasattr(mp, "p"):
            mp.stop()
        try:
            with open(d + "/err") as f:
                err = f.read()[-600:]
        except OSError:
            err = ""
    finally:
        shutil.rmtree(d, True)
    return {"id": sc["id"], "conf": cps(sc["conf"]), "ev": ev}, why, err

def decide(recs):
    d = tempfile.mkdtemp(prefix="mapv", dir=scratch())
    jdump(d + "/t", recs)
    rc, o = tlc("MapperTrace", env={"KEYD_TRACES": d + "/t"}, workers=8)
    shutil.rmtree(d, True)
    if rc != 0:
        raise CheckError("TLC failed (%d):\n%s" % (rc, o[-3000:]))
    rows = printed(o)
    return {x["reject"]: x for x in rows if "reject" in x}, {x["accept"] for x in rows if "accept" in x}, states_of(o)

def readable(x):
    if isinstance(x, list):
        if x and all(isinstance(c, int) for c in x):
            return "".join(chr(c) for c in x)
        return [readable(y) for y in x]
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    return x

def run(prop, seed, tier, rep):
    rc, o = tlc("MapperMC", workers=8)
    if rc != 0:
        raise CheckError("the specification does not have its properties:\n" + o[-3000:])
    rep.add(states=states_of(o)[1], transitions=states_of(o)[0])
    stub()
    total = 8000 if tier == "thorough" else 500
    for a in range(0, total, 500):
        part = [scenario(seed, i) for i in range(a, min(a + 500, total))]
        with ThreadPoolExecutor(12) as ex:
            recs = list(ex.map(record, part))
        rej, acc, st = decide([x[0] for x in recs])
        rep.add(states=st[1], transitions=sum(len(x[0]["ev"]) for x in recs), traces_validated_against_impl=len(acc))
        if a == 0:
            rep.sample({"backend": part[0]["be"], "conf": part[0]["conf"], "steps": part[0]["steps"][:4], "recorded": readable(recs[0][0]["ev"][:4])})
        for sc, (rec, why, err) in zip(part, recs):
            if sc["id"] in rej:
                rep.violation_data(dict(readable(rej[sc["id"]]), why=why, err=err), {"kind": "mapper", "scenario": sc})
                return
            if sc["id"] not in acc:
                raise CheckError("no verdict for " + sc["id"])

def replay(d):
    rec, why, err = record(d["scenario"])
    rej, acc, st = decide([rec])
    print(d["scenario"]["conf"])
    for m, e in zip(d["scenario"]["steps"], rec["ev"]):
        print(json.dumps(m), "->", json.dumps(readable(e["cmd"])))
    print(why, err)
    print(json.dumps(readable(rej)))
    return 1 if rej else 0
