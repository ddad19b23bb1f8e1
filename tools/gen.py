"""Random configurations and key histories, steered by profiles."""
import random
from kv import CODE, NAME, Conf, Scenario, latin

PHYS = ["a", "s", "d", "f", "j", "k", "l", ";", "capslock", "space", "leftshift", "leftcontrol",
        "leftalt", "rightalt", "leftmeta", "rightshift", "q", "w", "tab", "esc"]
OUTK = ["b", "c", "e", "g", "h", "i", "m", "n", "o", "p", "r", "t", "u", "v", "x", "y", "z",
        "1", "2", "f5", "enter", "left", "backspace"]
OUTX = ["leftmouse", "rightmouse", "middlemouse", "mouse1", "mouseback", "scrollup", "scrollleft", "zoom", "volumeup", "f24",
        "rightshift", "rightcontrol", "rightmeta", "kp1", "102nd", "capslock", "cancel", "fn"]
MODS = "CMASG"
TIMES = [20, 35, 50, 80, 120, 200]

# weights of the actions
ACTIONS = dict(key=6, modkey=3, layer=3, oneshot=2, toggle=2, swap=1, layerm=.6, oneshotm=.6, togglem=.6,
               swapm=.6, clear=.6, clearm=.4, overload=2, overloadt=1.5, overloadt2=1.5, overloadi=1,
               timeout=1, lettermod=.7, macro=2, macro2=.7, setlayout=.7, noop=.3, modlayer=2)

class Profile:
    def __init__(self, **kw):
        self.ops = dict(ACTIONS)
        self.layers = (1, 4)
        self.layermods = .5         # probability that a layer has modifiers
        self.layouts = .3           # probability of a layout
        self.composites = .4
        self.chords = .25           # probability of chords
        self.nchords = (1, 4)
        self.keys = (4, 9)          # size of the pool of physical keys
        self.density = .45          # probability that a layer binds a key of the pool
        self.maindensity = .75
        self.depth = 2
        self.oddout = .1            # mouse buttons and other special keys as outputs
        self.opts = dict(oneshot_timeout=.4, overload_tap_timeout=.4, chord_timeout=.5, chord_hold_timeout=.4,
                         macro_timeout=.5, macro_repeat_timeout=.5, macro_sequence_timeout=.15,
                         disable_modifier_guard=.15, default_layout=.3)
        self.events = (15, 60)
        self.dup = .03              # redundant presses and releases
        self.evals = 0
        self.jitter = .4
        self.wakes = .05
        self.maxheld = 5
        self.modkeys = .5           # probability that the pool contains real modifier keys
        self.unicode = .15
        self.overlap = .6
        self.rests = 1              # parts of a history, each ending at rest
        self.ncomposites = (1, 2)
        self.guardmods = 0          # probability that a layer's modifiers are among M, A, G
        self.manykeys = 0           # also strike keys which are bound nowhere
        self.bursts = 0             # strike many keys in no time
        self.longtimes = 0
        self.swarm = .7             # probability that a configuration uses only some of the actions
        self.__dict__.update(kw)
    def only(self, **w):
        self.ops = dict(w)
        return self

class Gen:
    def __init__(self, rng, prof):
        self.r, self.p = rng, prof

    def pick(self, xs):
        return self.r.choice(list(xs))
    def chance(self, p):
        return self.r.random() < p
    def out(self):
        return self.pick(OUTX if self.chance(self.p.oddout) else OUTK)

    # ---------------------------------------------------------- configuration
    def time(self):
        t = self.pick([300, 500] if self.p.longtimes and self.chance(.7) else TIMES)
        self.times.add(t)
        return t

    def mods(self, n=None):
        n = n or self.r.randint(1, 2)
        return self.r.sample(MODS, n)
    def layer_mods(self):
        return self.r.sample("MAG", self.r.choice([1, 1, 2])) if self.chance(self.p.guardmods) else self.mods()

    def seq(self):
        k = self.out()
        if self.chance(.35):
            return "-".join(self.mods()) + "-" + k
        return k

    def macro_steps(self):
        out = []
        for _ in range(self.r.randint(1, 4)):
            x = self.r.random()
            if x < .5:
                out.append(self.seq())
            elif x < .62:
                out.append("+".join(self.r.sample(["leftshift", "b", "c", "leftcontrol", "leftmeta", "e"],
                                                  self.r.randint(2, 3))))
            elif x < .7:
                out.append("+".join(["leftcontrol", "%dms" % self.r.randint(1, 20), self.pick(OUTK[:10])]))
            elif x < .8:
                out.append("%dms" % self.r.randint(1, 30))
            elif x < .8 + self.p.unicode:
                out.append(self.pick(["é", "ß", "ñ", "€", "Hü", "→x", "Ω"]))
            else:
                out.append(self.pick(["hi", "Yes", "a{b}", "No!", "xyz", "C-", "~"]))
        return " ".join(out)

    def macro_arg(self):
        """A macro expression as an argument"""
        if self.chance(.4):
            return self.seq()
        return "macro(%s)" % self.macro_steps()

    def layer(self):
        return self.pick(self.lnames)

    def action(self, depth=None):
        depth = self.p.depth if depth is None else depth
        ops = dict(self.ops)
        if depth <= 0:
            for o in ("overload", "overloadt", "overloadt2", "overloadi", "timeout", "lettermod"):
                ops.pop(o, None)
            ops.setdefault("key", 1)
        if not self.layouts:
            ops.pop("setlayout", None)
        ops = {k: v for k, v in ops.items() if v > 0}
        op = self.r.choices(list(ops), list(ops.values()))[0]
        L, sub = self.layer, lambda: self.action(depth - 1)
        if op == "key":
            return self.out()
        if op == "modkey":
            return "-".join(self.mods()) + "-" + self.out()
        if op == "modlayer":
            return "layer(%s)" % self.pick(["shift", "control", "meta", "alt", "altgr"])
        if op in ("layer", "oneshot", "toggle", "swap"):
            return "%s(%s)" % (op, L())
        if op in ("layerm", "oneshotm", "togglem", "swapm"):
            return "%s(%s, %s)" % (op, L(), self.macro_arg())
        if op == "clear":
            return "clear()"
        if op == "clearm":
            return "clearm(%s)" % self.macro_arg()
        if op == "overload":
            return "overload(%s, %s)" % (L(), sub())
        if op in ("overloadt", "overloadt2"):
            return "%s(%s, %s, %d)" % (op, L(), sub(), self.time())
        if op == "overloadi":
            return "overloadi(%s, %s, %d)" % (sub(), sub(), self.time())
        if op == "timeout":
            return "timeout(%s, %d, %s)" % (sub(), self.time(), sub())
        if op == "lettermod":
            return "lettermod(%s, %s, %d, %d)" % (L(), self.out(), self.time(), self.time())
        if op == "macro":
            return "macro(%s)" % self.macro_steps()
        if op == "macro1":
            return "macro(%s)" % self.seq()
        if op == "macro2":
            return "macro2(%d, %d, %s)" % (self.time(), self.pick([10, 25, 40]), self.macro_arg())
        if op == "setlayout":
            return "setlayout(%s)" % self.pick(self.layouts + ["main"])
        if op == "noop":
            return "noop"
        if op == "command":
            self.ncmd = getattr(self, "ncmd", 0) + 1
            return "command(echo c%d >>cmdlog)" % self.ncmd
        if op == "scroll":
            return "scroll(%d)" % self.r.randint(1, 9)
        if op == "scrollt":
            return "scrollt(%d)" % self.r.randint(1, 9)
        raise Exception(op)

    def conf(self):
        p = self.p
        self.times = set()
        self.ops = dict(p.ops)
        if self.chance(p.swarm):
            # fewer actions at a time interact more
            k = self.r.choice([.3, .45, .6])
            self.ops = {o: w * self.r.choice([.5, 1, 2, 4]) for o, w in p.ops.items() if self.chance(k) or w >= 5}
            while len(self.ops) < 3:
                o = self.pick(p.ops)
                self.ops[o] = 1
        pool = self.r.sample(PHYS[:10], self.r.randint(*p.keys) if p.keys[1] <= 10 else 10)
        if self.chance(p.modkeys):
            pool += self.r.sample(PHYS[10:16], self.r.randint(1, 3))
        if self.chance(.3):
            pool += self.r.sample(PHYS[16:], 1)
        self.pool = pool
        n = self.r.randint(*p.layers)
        names = ["l%d" % i for i in range(1, n + 1)]
        if getattr(p, "longnames", 0) and self.chance(p.longnames):
            k = self.r.randrange(n)
            names[k] = (names[k] + "abcdefghijklmnopqrstuvwxyz_-0123456789" * 2)[:self.r.choice([31, 62, 63, 64, 64])]
        self.lnames = list(names)
        if self.chance(.4):
            self.lnames.append(self.pick(["shift", "control", "alt", "meta", "altgr"]))
        heads = {}
        for x in names:
            heads[x] = x + (":" + "-".join(self.layer_mods()) if self.chance(p.layermods) else "")
        self.layouts = []
        if self.chance(p.layouts):
            self.layouts = ["lay%d" % i for i in range(1, self.r.randint(1, 2) + 1)]
            for x in self.layouts:
                heads[x] = x + ":layout"
        comps = []
        if len(self.lnames) > 1 and self.chance(p.composites):
            for _ in range(self.r.randint(*p.ncomposites)):
                c = "+".join(self.r.sample(self.lnames, min(len(self.lnames), self.r.choice([2, 2, 3]))))
                if c not in comps:
                    comps.append(c)
                    heads[c] = c
            self.lnames += [c for c in comps if self.chance(.2)]
        lines = ["[ids]", "*", "", "[global]"]
        opts = {}
        for o, pr in p.opts.items():
            if not self.chance(pr):
                continue
            if o == "default_layout":
                if self.layouts:
                    opts[o] = self.pick(self.layouts)
            elif o == "disable_modifier_guard":
                opts[o] = 1
            elif o == "macro_sequence_timeout":
                opts[o] = self.pick([50, 1000])
            elif o == "macro_repeat_timeout":
                opts[o] = self.pick([15, 30])
            else:
                opts[o] = self.time()
        self.opts = opts
        for o, v in opts.items():
            lines.append("%s = %s" % (o, v))
        lines.append("")
        self.chordsets = []
        body = []
        order = ["main"] + list(heads)
        for x in order:
            sec = ["[%s]" % heads.get(x, "main")]
            d = p.maindensity if x == "main" else p.density
            for k in pool:
                if k in PHYS[10:16] and not self.chance(.4):
                    continue
                if self.chance(d):
                    sec.append("%s = %s" % (k, self.action()))
            if self.chance(p.chords):
                for _ in range(self.r.randint(*p.nchords)):
                    ks = self.r.sample([k for k in pool if k != ";"] or pool,
                                       min(len(pool) - 1, self.r.choice([2, 2, 2, 3, 3, 4])))
                    if len(ks) < 2:
                        continue
                    self.chordsets.append(ks)
                    sec.append("%s = %s" % ("+".join(ks), self.action()))
            body.append(sec)
        for sec in body:
            lines += sec + [""]
        if self.chordsets:
            self.times.add(opts.get("chord_timeout", 50))
        if any("macro(" in l for l in lines):
            self.times.add(opts.get("macro_timeout", 600))
        return Conf([latin(l) for l in lines])

    # --------------------------------------------------------------- histories
    def gap(self):
        x = self.r.random()
        if x < .35:
            return self.r.choice([0, 1, 2, 3, 5, 8])
        if x < .7 or not self.times:
            return self.r.randint(5, 60)
        t = self.pick(self.times)
        return max(0, t + self.r.choice([-2, -1, 0, 1, 2, 10]) - self.r.choice([0, 0, 0, 5, 10]))

    def script(self):
        t = self.r.choice([0, 1, 7, 1000])
        ops = []
        if self.chance(.4):     # the machine has been up for a while
            ops.append(("B", self.r.choice([(1 << 31) - self.r.randint(1, 3000), (1 << 32) - self.r.randint(1, 3000),
                                            30 * 86400000, self.r.randint(10**6, 1 << 40)])))
        if self.chance(self.p.jitter):
            ops.append(("J", self.r.randint(1, 1 << 30), self.r.choice([1, 3, 10])))
        n = self.r.randint(*self.p.events)
        for _ in range(self.p.rests):
            t = self.segment(ops, t, max(4, n // self.p.rests))
        return ops

    def segment(self, ops, t, n):
        p = self.p
        r = self.r
        held = []
        pool = [CODE[k] for k in self.pool] + [CODE[r.choice(OUTK)]]
        pool = r.sample(pool, min(len(pool), r.randint(2, len(pool))))
        if p.manykeys:
            pool = list(dict.fromkeys(pool + r.sample(list(CODE.values()), 24)))
            pool = [c for c in pool if c < 245]
        chords = [[CODE[k] for k in ks] for ks in self.chordsets]
        style = r.choice(["mix", "mix", "taps", "rolls"])
        burst = 0
        while n > 0:
            n -= 1
            if p.bursts and not burst and self.chance(.1):
                burst = r.randint(10, 60)
            if burst:
                burst -= 1
                t += r.choice([0, 0, 1, 2])
            else:
                t += self.gap()
            if chords and not burst and self.chance(.3) and len(held) < p.maxheld:
                ks = r.choice(chords)[:]
                r.shuffle(ks)
                if self.chance(.25):
                    ks = ks[:-1]
                for c in ks:
                    if c not in held:
                        ops.append(("K", c, 1, t))
                        held.append(c)
                        t += r.choice([0, 1, 5, 15, 60]) if self.chance(.7) else self.gap()
                continue
            if self.chance(p.wakes):
                ops.append(("T", t))
                continue
            if self.chance(p.dup):
                c = r.choice(pool)
                if c in held:
                    ops.append(("K", c, 1, t))
                else:
                    ops.append(("K", c, 0, t))
                continue
            if p.evals and self.chance(p.evals):
                ops.append(("E", self.evalexp()))
                continue
            free = [c for c in pool if c not in held]
            rel = {"mix": .5, "taps": .8, "rolls": .35}[style]
            if held and (len(held) >= p.maxheld or not free or self.chance(rel)):
                c = held.pop(0 if style == "rolls" else r.randrange(len(held)))
                ops.append(("K", c, 0, t))
            elif free:
                c = r.choice(free)
                held.append(c)
                ops.append(("K", c, 1, t))
        while held:
            t += r.choice([0, 1, 10, 50])
            c = held.pop(r.randrange(len(held)))
            ops.append(("K", c, 0, t))
        t += 3000
        ops.append(("Q", t))
        return t

    def evalexp(self):
        """A simple run time binding"""
        k = self.pick(self.pool)
        l = self.pick(["", "", "main."] + [x + "." for x in self.lnames if "+" not in x])
        a = self.pick([self.out(), self.seq(), "layer(%s)" % self.layer(), "oneshot(%s)" % self.layer()])
        return "%s%s = %s" % (l, k, a)

def scenarios(seed, prof, nconf, nscript, tag):
    out = []
    for i in range(nconf):
        rng = random.Random("%s/%s/%d" % (seed, tag, i))
        g = Gen(rng, prof)
        c = g.conf()
        for j in range(nscript):
            out.append(Scenario(c, g.script(), "%s-%d-%d" % (tag, i, j)))
    return out
