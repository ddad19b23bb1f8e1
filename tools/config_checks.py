"""Checks of the properties of the configuration language (C15-C18): generated
configuration files and run time bindings are read by the real parser and probed
through the real engine; spec/KeydConfig.tla decides what they mean and
spec/EngineTrace.tla whether every recorded step agrees with it."""
import random
import re
import kv
from kv import *
from gen import Profile, Gen, OUTK, PHYS
import engine_checks
from engine_checks import prof, opts, ENV, judge

ASSUMPTIONS = ["bindings are observed through the key events, layers and commands they produce",
               "names with a '.' and chords naming a key twice are left out (undefined by the manual)"]

ALTS = {}
for _c, _n, _a, _s in key_table():
    if _a:
        ALTS.setdefault(_n, []).append(_a)
SHIFTED = {_n: _s for _c, _n, _a, _s in key_table() if _s}

BASE = dict(ENV, oneshot=2, toggle=1, overload=2, overloadt=1, overloadi=.5, timeout=1, lettermod=1, macro=4, macro2=1,
            swap=.5, setlayout=.7, clear=.4, clearm=.4, layerm=.6, oneshotm=.6, togglem=.5, swapm=.4, command=.7, scroll=.2,
            noop=.3)
def text_profile(**kw):
    p = prof(BASE, keys=(4, 8), longnames=.04, chords=.4, layers=(1, 4), layouts=.4, composites=.5, layermods=.6, unicode=.2,
             opts=opts(oneshot_timeout=.3, chord_timeout=.3, macro_timeout=.4, macro_repeat_timeout=.3,
                       macro_sequence_timeout=.1, overload_tap_timeout=.3, chord_hold_timeout=.2),
             events=(8, 20))
    p.__dict__.update(kw)
    return p

# Actions which are a little out of the ordinary, valid or not
ODD = ["S-!", "C-M-x", "C-C-x", "!", "A", "~", "S-~", "macro(A b C-S-c)", "macro( x   y )", "macro(C+a+b)", "C-",
       "macro(leftcontrol+10ms+a  b)", "overload( L , x )", "overload(L,x)", "overload(L, overload(M, y))", "layer( L)",
       "layer(L) ", "layer(shift)x", "timeout(a, 10, macro(b c))", "overload(L, macro(x\\) y))", "overload(L, macro(a, b))",
       "toggle(main)", "layer(nosuch)", "setlayout(main)", "setlayout(L)", "oneshot(L+M)", "leftshift", "rightalt", "shift",
       "noop", "", "é", "macro(é)", "macro(aé€b)", "ab", "macro()", "macro( )", "clear()", "clear( )", "clear(x)", "clear",
       "swap2(L, x)", "overload2(L,x,100)", "overload3(L,x,100)", "toggle2(L, C-x)", "lettermod(L, x, 50, 60)",
       "lettermod(L, x, 50)", "scroll(3)", "scroll(x)", "overloadt(L, x, 100)", "overloadt(L, x, 100, y)", "overloadt(L, x)",
       "overloadt(L, x, 66000)", "macro2(100, 20, C-x)", "macro(500)", "macro(500ms)", "macro(1ms2)", "macro(a 15ms b)",
       "macro(\\\\ \\n \\t)", "macro(\\(a\\))", "macro(()", "macro())", "\\", "=", "a = b", "(", ")", "[", "]", "#", ",", "-", ".",
       "+", "C-=", "C--", "S-.", "M-(", "macro(= + =)", "macro(a+)", "macro(+a)", "macro(++)", "macro(a+nosuch)", "macro(a.b,c;d)",
       "overload(L, ,)", "overload(L, ()", "overload(L, \\()", "overload(L, \\))", "overload(L, \\,)", "layerm(L, a b)",
       "layerm(L, macro(a b))", "layerm(L, C-b)", "esc", "escape", "space", "102nd", "leftmouse", "X-a", "C-nosuch", "C-M-",
       "layer (L)", "layer(L", "layerL)", "LAYER(L)", "macro(Hello, World!)", "macro(C-a C-A C-~)", "macro(enter Enter ENTER)",
       "overload(control, esc)", "layer(control)", "oneshot(shift)", "command(echo c90 >>cmdlog)", "command(echo a,b >>cmdlog)",
       "command(echo x=y >>cmdlog)", "timeout(layer(L), 10, layer(M))", "overloadi(x, overloadt(L, y, 50), 100)",
       "timeout(x, 10, clear())", "overload(L, command(echo c91 >>cmdlog))", "overload(L, layerm(M, x))", "type(x)"]
ODDKEYS = ["shift", "control", "alt", "altgr", "meta", "leftshift", "rightcontrol", "L1+a", "a+", "+a", "+", "a+b+c", "escape", "\\",
           "a a", "A", "!", "é", "102nd", "1", "nosuch", "[", "]", "=", ",", "-", "/", "`", "'", ";", "enter", "a+nosuch",
           "leftcontrol+a", "s+d", "d + s", "f+g+h+j", "capslock", "leftmouse", "mouse1", "kp1", "f1", "backspace", "al1", "al2"]
HEADS = ["%s", "%s", "%s", "%s:C", "%s:C-S", "%s:X", "%s:layout", "%s:C:S", "%s:", " %s", "%s:C-", "%s:S-A-M-G-C", "%s: C"]
ODDHEADS = ["main", "shift", "control:A", "main:C", "l1+l2", "l2+l1", "l1+nosuch", "l1+", "+l1", "shift+control", "l1+l2:C", "",
            ":", ":C", "+", "ids2", "Main", "l 9", "l1+shift+l2", "alt+meta", "x" * 64, "y" * 65]
IDS = ["*", "0001:0002", "0001:0002:abcd1234", "k:0001:0002", "m:0001:0002", "-0001:0002", "1234:5678", "m:1234", "-1234:5678:ff",
       "k:*", "0001", "zz", "k:", "-abcd"]
DEVS = ["0001:0002:abcd1234", "0001:0002:00000000", "1234:5678:ff00ff00", "1234:5679:00", "abcd:ef01:12345678", "ffff:ffff:1"]
OPTS = ["chord_timeout", "chord_hold_timeout", "oneshot_timeout", "macro_timeout", "macro_repeat_timeout", "overload_tap_timeout",
        "disable_modifier_guard", "default_layout", "macro_sequence_timeout", "layer_indicator", "nosuch", "Chord_timeout"]

class Text:
    """Configuration files which say the same things in many ways"""
    def __init__(self, rng, odd=.25):
        self.r, self.odd = rng, odd
        self.g = Gen(rng, text_profile(swarm=.4))
    def chance(self, p):
        return self.r.random() < p
    def sp(self, p=.3):
        return self.r.choice([" ", "  ", "\t", " \t "]) if self.chance(p) else ""
    def key(self, k):
        if k in ALTS and self.chance(.4):
            return self.r.choice(ALTS[k])
        return k
    def binding(self, k, v):
        eq = self.r.choice([" = "] * 5 + ["=", " =", "= ", "\t=\t", "  =   "])
        return self.sp() + k + eq + v + self.sp()
    def oddaction(self):
        a = self.r.choice(ODD)
        ns = [n for n in self.names] or ["l1"]
        if "L" in a and not a.startswith("LAYER"):
            a = a.replace("L", self.r.choice(ns), 1)
        if "M)" in a or "M," in a or "+M" in a:
            a = a.replace("M", self.r.choice(ns))
        return a
    def conf(self):
        r = self.r
        c = self.g.conf()
        self.names = [n for n in self.g.lnames if "+" not in n]
        secs, cur = [], None
        for l in c.lines:
            if l.startswith("[") and l.endswith("]"):
                cur = (l[1:-1], [])
                secs.append(cur)
            elif l.strip():
                cur[1].append(tuple(x.strip() for x in l.split(" = ", 1)))
        self.probes = set(self.g.pool)
        als = []
        if self.chance(.5):
            for _ in range(r.randint(1, 4)):
                als.append((r.choice(["capslock", "f5", "leftalt", "rightshift", "a", "s", "102nd", "nosuch", "esc"]),
                            r.choice(["al1", "al2", "al1", "control", "shift", "x", "esc", "b" * 31, "c" * 32])))
                self.probes.add(als[-1][0])
            secs.insert(r.randrange(len(secs) + 1), ("aliases", als))
        out = []
        for head, ents in secs:
            if head == "ids":
                ents = [(r.choice(IDS),) for _ in range(r.randint(0, 4))] + ([("*",)] if self.chance(.7) else [])
            elif head == "global":
                ents = list(ents)
                for _ in range(r.choice([0, 0, 1, 2])):
                    ents.append((r.choice(OPTS), r.choice(["10", "35", "0", "1", "lay1", "", "x", " 20", "30ms"])) if self.chance(.9)
                                else (r.choice(OPTS),))
                ents = [e for e in ents if e[:1] not in (("macro_timeout",), ("macro_repeat_timeout",))
                        or (len(e) > 1 and e[1].isdigit() and e[1] != "0")]
            elif head != "aliases":
                ents = [(("+".join(self.key(x) for x in k.split("+")) if len(k) > 1 else k), v) for k, v in ents]
                for _ in range(r.randint(0, 4) if self.chance(self.odd * 3) else 0):
                    k = r.choice(ODDKEYS) if self.chance(.6) else r.choice(self.g.pool)
                    k = k.replace("L1+", r.choice(self.g.pool) + "+")
                    v = self.oddaction() if self.chance(.7) else self.g.action()
                    for x in k.split("+"):
                        self.probes.add(x.strip())
                    ents.insert(r.randrange(len(ents) + 1), (k, v) if self.chance(.95) else (k,))
            out.append((head, ents))
        # say it in another order, or in more sections
        if self.chance(.3):
            r.shuffle(out)
        if self.chance(.3):
            i = r.randrange(len(out))
            h, e = out[i]
            if len(e) > 1:
                k = r.randrange(len(e))
                out[i] = (h, e[:k])
                out.insert(r.randrange(i + 1, len(out) + 1), (h, e[k:]))
        while self.chance(self.odd):
            h = r.choice(ODDHEADS)
            out.insert(r.randrange(len(out) + 1), (h, [(r.choice(self.g.pool), self.oddaction()) for _ in range(r.randint(0, 2))]))
        lines = []
        incs, data = {}, {}
        for head, ents in out:
            if head in ("l1", "l2") and self.chance(self.odd):
                head = r.choice(HEADS) % head
            sec = [self.sp(.1) + "[%s]" % head + self.sp(.1)]
            for e in ents:
                if self.chance(.08):
                    sec.append(r.choice(["", "   ", "# a comment", "  # x = y", "#", "\t"]))
                sec.append(self.binding(*e) if len(e) > 1 else self.sp(.1) + e[0])
            if len(sec) > 1 and self.chance(.12):
                n = "inc%d" % (len(incs) + len(data) + 1)
                text = [latin(l) for l in (sec if self.chance(.5) else sec[1:])]
                if self.chance(.6):
                    incs[n] = text
                else:
                    # in the data directory, perhaps behind a file of the same name in the configuration's
                    n = "%s%x/%s" % (r.choice(["layouts", "lay-out_", "x"]), r.getrandbits(48), n) if self.chance(.6) else \
                        "%s%x" % (n, r.getrandbits(48))
                    data[n] = text
                    if self.chance(.3):
                        incs[n] = text[:1] + [latin("%s = %s" % (r.choice(self.g.pool), self.g.action()))]
                sec = ([] if text[0].strip().startswith("[") else sec[:1]) + ["include " + self.sp(.2).replace("\t", " ") + n]
                if self.chance(.1):
                    sec.append("include nosuchfile")
                if self.chance(.1):
                    sec.append("include inc.conf")
            lines += sec
            if self.chance(.4):
                lines.append("")
        if self.chance(.02):
            lines.insert(0, "a = b")
        return Conf([latin(l) for l in lines], incs, data)

    def probe(self, nprobe=12):
        """Strike the keys in the various layers"""
        r = self.r
        ops = []
        t = 10
        for d in r.sample(DEVS, 3):
            ops.append(("M", r.choice([2, 4, 6]), d))
        names = list(dict.fromkeys(self.g.lnames + [x for x in ["l1", "l2", "shift"] if self.chance(.5)]))
        tours = [None] + r.sample(names, min(len(names), 3))
        keys = [CODE[k] for k in sorted(self.probes) if k in CODE and CODE[k] < 256] or [30]
        for l in tours:
            on = []
            if l:
                for x in dict.fromkeys([l] if self.chance(.5) or "+" not in l else l.split("+")):
                    ops += [("E", "main.f14 = toggle(%s)" % x), ("K", CODE["f14"], 1, t), ("K", CODE["f14"], 0, t + 3)]
                    t += 10
                    on.append(x)
            for c in r.sample(keys, min(len(keys), nprobe // 2)):
                ops.append(("K", c, 1, t))
                t += r.choice([2, 30, 140])
                if self.chance(.3):
                    d = r.choice(keys)
                    if d != c:
                        ops += [("K", d, 1, t), ("K", d, 0, t + r.choice([1, 60]))]
                        t += 70
                ops.append(("K", c, 0, t))
                t += r.choice([2, 30, 140])
            for ks in self.g.chordsets[:2]:
                for c in ks:
                    ops.append(("K", CODE[c], 1, t))
                    t += 2
                t += 200
                for c in ks:
                    ops.append(("K", CODE[c], 0, t))
                    t += 1
            t += 50
            for x in on:
                ops += [("E", "main.f14 = toggle(%s)" % x), ("K", CODE["f14"], 1, t), ("K", CODE["f14"], 0, t + 3)]
                t += 10
            t += 700
        ops.append(("Q", t + 2000))
        return ops

def syntax(seed, n, tag, odd):
    out = []
    for i in range(n):
        g = Text(random.Random("%s/%s/%d" % (seed, tag, i)), odd)
        c = g.conf()
        out.append(Scenario(c, g.probe(), "%s-%d" % (tag, i)))
        if g.chance(.3):
            out.append(Scenario(c, g.g.script(), "%s-%d-h" % (tag, i)))
    return out

# ---------------------------------------------------------------- C16
BYTES = [ord(c) for c in "()[]\\+-=:,# \t\"'%{}CSMAG*09"] + list(range(1, 32)) + list(range(128, 256)) + [127]
def mutate(rng, lines, n):
    lines = [bytearray(l.encode("latin-1")) for l in lines]
    for _ in range(n):
        if not lines:
            lines = [bytearray()]
        x = rng.random()
        l = rng.choice(lines)
        i = rng.randrange(len(l) + 1)
        if x < .3:
            l.insert(i, rng.choice(BYTES))
        elif x < .5 and l:
            del l[min(i, len(l) - 1)]
        elif x < .7 and l:
            l[min(i, len(l) - 1)] = rng.choice(BYTES)
        elif x < .76:
            del l[i:]
        elif x < .8:
            l[i:i] = l[:rng.randint(0, len(l))] * rng.choice([1, 1, 3])
        elif x < .85:
            lines.insert(rng.randrange(len(lines) + 1), bytearray(rng.choice(lines)))
        elif x < .9:
            del lines[rng.randrange(len(lines))]
        elif x < .95:
            l[i:i] = bytes(rng.choice(BYTES) for _ in range(rng.choice([2, 5, 20, 120])))
        else:
            k = rng.randrange(len(lines))
            lines[k:k + 1] = [l[:i], l[i:]]
    # (files are found under one name only: no "." and "//")
    return [re.sub("^(\\s*include\\s+)/+", "\\1", re.sub("//+", "/", bytes(l).replace(b"\n", b" ").replace(b"\0", b"0").replace(b".", b";")
                                                     .decode("latin-1"))) for l in lines]

LIMITS = ["sections", "ids", "layers", "commands", "chords", "chordkeys", "line", "exp", "args", "nest", "constituents", "name", "longline"]
SLOW_LIMITS = ["macros", "macros", "macros", "macro", "macro", "file", "incfile"]     # and "entries" and "descriptors", which take a minute

def limits(rng, kind):
    """A configuration at or beyond one of the limits of the parser"""
    d = rng.choice([-1, 0, 0, 1, 2])
    L = ["[ids]", "*", "[main]", "a = b", "[l1]", "s = x"]
    keys = [k for k in ["q", "w", "e", "r", "t", "y", "u", "i", "o", "p", "a", "s", "d", "f", "g", "h", "j", "k", "l", "z", "x", "c",
                        "v", "b", "n", "m"]]
    if kind == "sections":
        n = 32 + d
        L = ["[ids]", "*"] + [x for i in range(n - 1) for x in ("[%s]" % ("main" if i % 2 else "l1"), "%s = %s" % (keys[i % 26], i % 10))]
    elif kind == "entries":
        L = ["[ids]", "*", "[main]"] + ["a = %d" % (i % 10) for i in range(1024 + d)] + ["s = x", "[l1]", "d = y"]
    elif kind == "ids":
        L = ["[ids]"] + ["0001:%04x" % i for i in range(64 + d)] + ["1234:5678", "*", "[main]", "a = b"]
    elif kind == "layers":      # 6 built in, and at most 32 sections
        L = ["[ids]", "*", "[main]", "a = layer(k29)", "s = layer(k23)", "d = layer(k25)"] + \
            [x for i in range(24 + d) for x in ("[k%d]" % i, "a = %d" % (i % 10))]
    elif kind == "macros":      # the last ones by each of the ways there are
        L = ["[ids]", "*", "[main]", "q = command(echo c1 >>cmdlog)"] + \
            ["a = macro(b %d)" % (i % 10) for i in range(256 + d - rng.choice([0, 1, 1, 2]))] + \
            rng.sample(["s = macro(x y)", "d = oneshotm(l1, macro(x z))", "f = timeout(macro(1 2), 20, macro(3 4))",
                        "k = macro2(100, 50, macro(z z))", "l = overload(l1, macro(v w))"], 4) + ["[l1]", "j = togglem(l1, macro(k k))"]
    elif kind == "commands":
        L = ["[ids]", "*", "[main]"] + ["a = command(echo c%d >>cmdlog)" % i for i in range(64 + d - rng.choice([0, 0, 1]))] + \
            rng.sample(["s = command(echo c99 >>cmdlog)", "d = timeout(x, 30, command(echo c98 >>cmdlog))", "f = overload(l1, command(echo c97 >>cmdlog))"], 3) + \
            ["k = x", "[l1]"]
    elif kind == "descriptors":
        m = (1024 + d) // 2
        L = ["[ids]", "*", "[main]"] + ["a = timeout(b, 10, %d)" % (i % 10) for i in range(m)] + ["s = overload(l1, x)", "d = x", "[l1]"]
    elif kind == "chords":
        ps = [(x, y) for i, x in enumerate(keys) for y in keys[i + 1:]]
        L = ["[ids]", "*", "[main]"] + ["%s+%s = %d" % (x, y, i % 10) for i, (x, y) in enumerate(ps[:64 + d])] + ["k+l = x"]
    elif kind == "chordkeys":
        L = ["[ids]", "*", "[main]", "+".join(keys[:8 + d]) + " = x", "a+s = y"]
    elif kind == "line":
        n = 255 + d
        L = ["[ids]", "*", "[main]", "s = y", "a = macro(" + "x" * (n - 11) + ")", "d = z"]
    elif kind == "exp":
        n = 64
        L = ["[ids]", "*", "[main]", "a = x", "[" + "n" * n + "]", "a" + " " * 60 + "= y", "s = macro(" + "x" * (240 + d) + ")"]
    elif kind == "file":
        L = ["[ids]", "*", "[main]", "a = b"]
        n = sum(len(l) + 1 for l in L)
        while n < 65536 - 300:
            L.append("#" * 199)
            n += 200
        L.append("#" * 100)
        n += 101
        L.append("#" * (65536 - n - 1 + d))
    elif kind == "incfile":
        L = ["[ids]", "*", "include big", "[main]", "a = b"]
        return Conf(L, {"big": ["#" * 199] * (326 + d)}), kind
    elif kind == "longline":        # (the lines of included files may be long)
        k = "n" * rng.choice([1, 2, 30])
        n = 512 + d - len(k) - 1        # what comes before is the name of the layer
        return Conf(["[ids]", "*", "[%s]" % k, "include long", "[main]", "k = w", "l = toggle(%s)" % k],
                    {"long": ["%s = %s%s" % (x, "C-" * ((n - 4 - len(y)) // 2), y if (n - len(y)) % 2 == 0 else y2)
                              for x, y, y2 in [("a", "f10", "10"), ("s", "f1", "1"), ("d", "kp10", "tab")]] +
                             ["q = x" + " " * (n - 6) + "y", "f = macro(" + "x" * (n - 11) + ")", "z = C-" + " " * (n - 7) + "u",
                              "k = macro(" + " " * (n - 12) + "u)", "#" * n, "g = z"]}), kind
    elif kind == "macro":
        L = ["[ids]", "*", "[main]", "a = macro(" + "x" * 238 + ")", "s = macro(" + "a+" * 110 + "b)", "d = macro(" + "x " * 115 + ")"]
        ev = "macro(" + "z" * (256 + d) + ")"
        return Conf(L), kind, [("E", "f = " + ev)]
    elif kind == "args":
        L = ["[ids]", "*", "[main]", "a = overload(" + ", ".join("l1" for _ in range(5 + d)) + ")", "s = x", "[l1]"]
    elif kind == "nest":
        n = rng.choice([2, 6, 14])
        L = ["[ids]", "*", "[main]", "a = " + "timeout(x,9," * n + "y" + ")" * n, "s = x", "[l1]",
             "a = " + "(" * rng.choice([1, 50, 200]), "s = overload(l1," + "(" * 100 + ")" * (100 + d) + ")"]
    elif kind == "constituents":
        n = 8 + d
        L = ["[ids]", "*"] + ["[k%d]" % i for i in range(10)] + ["[" + "+".join("k%d" % i for i in range(n)) + "]", "a = x", "[main]", "a = y"] + \
            ["%s = toggle(k%d)" % (keys[i], i) for i in range(10)]
        L += ["[" + "+".join("k%d" % i for i in range(n)[::-1]) + "]", "s = w", "[k9]", "d = z"]
        return Conf(L), kind, [("K", CODE[k], p, 1) for k in keys[:10] for p in (1, 0)]
    elif kind == "name":
        L = ["[ids]", "*", "[" + "m" * (64 + d) + "]", "a = x", "[main]", "s = layer(" + "m" * (64 + d) + ")", "[aliases]", "q = " + "a" * (31 + d)]
    return Conf(L), kind

def tail_probe(rng, conf):
    keys = [CODE[k] for k in "asdfqkl"]
    t, ops = 10, []
    for dv in DEVS[:2]:
        ops.append(("M", 6, dv))
    for c in keys:
        ops += [("K", c, 1, t), ("K", c, 0, t + 5)]
        t += 60
    ops += [("E", "main.f14 = toggle(l1)"), ("K", CODE["f14"], 1, t), ("K", CODE["f14"], 0, t + 3)]
    t += 50
    for c in keys:
        ops += [("K", c, 1, t), ("K", c, 0, t + 5)]
        t += 60
    ops += [("K", 37, 1, t), ("K", 38, 1, t + 5), ("K", 37, 0, t + 100), ("K", 38, 0, t + 105)]
    ops.append(("Q", t + 3000))
    return ops

def garbage_expr(g, rng):
    x = rng.random()
    k = rng.choice(g.g.pool + ["nosuch", "a+s", "é"])
    l = rng.choice(["", "", "main.", "l1.", "nosuch.", "."])
    if x < .4:
        e = l + k + rng.choice([" = ", "=", " "]) + g.oddaction()
    elif x < .6:
        e = l + k + " = " + "x" * rng.choice([1, 200, 490, 505, 506, 507, 508, 600, 2000])
    elif x < .7:
        e = l + k + " = macro(" + "ab" * rng.choice([1, 120, 127, 128, 129, 240]) + ")"
    else:
        e = (mutate(rng, [latin(l + k + " = " + g.g.action())], rng.randint(1, 4)) or [""])[0]
    e = e.replace("\n", " ").replace("\r", " ")
    return e if x >= .7 else latin(e)

def broken(seed, n, tag, slow=False):
    out = []
    fixed = SLOW_LIMITS + ["entries", "descriptors"] * slow + 4 * LIMITS
    for i in range(n):
        rng = random.Random("%s/%s/%d" % (seed, tag, i))
        if i < len(fixed):
            x = limits(rng, fixed[i])
            out.append(Scenario(x[0], (x[2] if len(x) > 2 else []) + tail_probe(rng, x[0]), "%s-%d-%s" % (tag, i, x[1])))
            continue
        g = Text(rng, .4)
        c = g.conf()
        c = Conf(mutate(rng, c.lines, rng.choice([0, 1, 2, 4, 10])), c.incs, c.data)
        ops = []
        for _ in range(rng.randint(0, 6)):
            ops.append(("E", garbage_expr(g, rng)))
        out.append(Scenario(c, ops + g.probe(8), "%s-%d" % (tag, i)))
    return out

def survival(seed, n, tag):
    """Arbitrary bytes: nothing but survival is asked for"""
    out = []
    for i in range(n):
        rng = random.Random("%s/%s/%d" % (seed, tag, i))
        g = Text(rng, .5)
        c = g.conf()
        raw = bytearray("\n".join(c.lines).encode("latin-1"))
        for _ in range(rng.choice([1, 5, 30, 200])):
            k = rng.randrange(len(raw) + 1)
            x = rng.random()
            if x < .5:
                raw[k:k] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 1, 3, 300])))
            elif x < .7:
                del raw[k:k + rng.choice([1, 5, 50])]
            else:
                raw[k:k + 1] = bytes([rng.choice([0, 10, 91, 93, 61, 46, 92, 255])])
        if rng.random() < .1:
            raw = bytearray(rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 255, 256, 1000, 70000])))
        ops = [("E", garbage_expr(g, rng)) for _ in range(4)]
        out.append(Scenario(Conf([bytes(raw).decode("latin-1")], c.incs, c.data), ops + g.probe(6), "%s-%d" % (tag, i)))
    return out

# ---------------------------------------------------------------- C17
def characters(seed, tier):
    """Every way to ask for a character, in chunks of one configuration each"""
    rng = random.Random("%s/characters" % seed)
    tab = compose()
    allc = sorted(tab)
    ascii_ = [c for c in range(33, 127)]
    if tier == "thorough":
        cps = allc
    else:
        cps = [c for c in allc if c < 0x250] + rng.sample([c for c in allc if c >= 0x250], 1700)
    unsup = [c for c in rng.sample(range(0x80, 0x10ffff), 150) if c not in tab and not 0xd800 <= c < 0xe000]
    chunks = []
    rest = cps + unsup
    rng.shuffle(rest)
    step = 180
    lists = [ascii_] + [rest[i:i + step] for i in range(0, len(rest), step)]
    for n, l in enumerate(lists):
        c = Conf(["[ids]", "*", "[main]", "b = layer(control)"] + (["[global]", "macro_sequence_timeout = 100"] if n % 5 == 4 else []))
        ops, t = [("E", "reset")], 10
        for k, cp in enumerate(l):
            ch = chr(cp)
            form = rng.choice(["%s", "%s", "macro(%s)", "macro(x%s%s)", "macro(%s 1ms %s)", "macro2(500, 50, %s)", "overload(shift, macro(%s))"])
            if form == "%s" and cp in (0x28, 0x29):
                form = "macro(x%s%s)"
            body = form.replace("%s", ("\\" + ch) if ch in "()\\" and "macro" in form else ch)
            ops.append(("E", latin("a = " + body)))
            hold = rng.random() < .08
            if hold:
                ops.append(("K", 48, 1, t))
            ops += [("K", 30, 1, t), ("K", 30, 0, t + 2)]
            if hold:
                ops.append(("K", 48, 0, t + 3))
            t += 10
        ops.append(("Q", t + 1000))
        chunks.append(Scenario(c, ops, "char-%d" % n))
    # the same through the file
    for n in range(6):
        l = rng.sample(cps + ascii_, 40)
        pool = ["a", "s", "d", "f", "g", "h", "j", "k", "l", "q", "w", "e", "r", "t", "y", "u", "i", "o", "p", "z"]
        lines = ["[ids]", "*", "[main]"]
        ops, t = [], 10
        for k, cp in zip(pool, l):
            lines.append(latin("%s = %s" % (k, chr(cp) if cp not in (40, 41) else "macro(\\%s)" % chr(cp))))
            ops += [("K", CODE[k], 1, t), ("K", CODE[k], 0, t + 2)]
            t += 10
        chunks.append(Scenario(Conf(lines), ops + [("Q", t + 1000)], "charfile-%d" % n))
    return chunks

def compose_file():
    """The sequences of the compose file must be distinct and must not hide each other"""
    seen = {}
    bad = []
    for cp, ks in compose().items():
        if 0 in ks:
            bad.append((cp, ks))
        if tuple(ks) in seen:
            bad.append((cp, seen[tuple(ks)]))
        seen[tuple(ks)] = cp
    return bad

# ---------------------------------------------------------------- C18
class Live(Gen):
    def evalexp(self):
        r = self.r
        if self.chance(.2):
            return "reset"
        if self.chance(.08):
            return r.choice(["nosuch = a", "a = nosuch", "nosuch.a = b", "a = layer(nosuch)", "", "a", "reset ", "a = overload(l1)"])
        if self.chance(.04):
            return r.choice(["%s = .", "l1.%s = .", "%s=.", "main.%s = C-.", ". = %s", "l1.. = %s", "= = %s", "l1.= = %s", "%s = =", "%s ==", "%s = C-=",
                             "%s = ;", "%s=,"]) % self.pick(self.pool)
        l = self.pick(["", "", "", "main."] + [x + "." for x in self.lnames if self.chance(.7)])
        k = self.pick(self.pool)
        if self.chance(.15):
            ks = self.r.sample(self.pool, 2)
            if ";" not in ks:
                k = "+".join(ks)
                self.chordsets.append(ks)
        return latin("%s%s = %s" % (l, k, self.action()))

def live(seed, n, nscript, tag):
    p = prof(BASE, keys=(3, 7), chords=.3, layers=(1, 3), layouts=.4, composites=.4, layermods=.6, evals=.22, events=(20, 60),
             rests=2, opts=opts(oneshot_timeout=.3, chord_timeout=.3, macro_timeout=.5, macro_repeat_timeout=.5,
                                overload_tap_timeout=.3, chord_hold_timeout=.3))
    out = []
    for i in range(n):
        g = Live(random.Random("%s/%s/%d" % (seed, tag, i)), p)
        c = g.conf()
        for j in range(nscript):
            out.append(Scenario(c, g.script(), "%s-%d-%d" % (tag, i, j)))
    return out

def cycles(seed, n):
    """The bindings of one application after the other, for a long time: nothing runs out"""
    out = []
    for i in range(n):
        r = random.Random("%s/cycles/%d" % (seed, i))
        c = Conf(["[ids]", "*", "[main]", "a = layer(l1)", "s = macro(o l d)", "d = command(echo c1 >>cmdlog)", "a+s = x", "[l1:C]", "f = overload(l2, x)", "[l2]"])
        ops, t = [("E", "reset")], 10
        for k in range(260):
            if r.random() < .85:
                ops.append(("E", "reset"))
            for _ in range(r.randint(1, 3)):
                forms = (["s = macro(%d %d)", "l1.d = macro2(200, 100, %d x%d)", "d = command(echo c%d%d >>cmdlog)",
                                           "f = overload(l1, macro(z%d%d))", "f = timeout(%d, 50, layerm(l1, macro(c%d)))", "j = overloadt(l1, C-%d, 1%d)",
                                           "j+k = macro(q%d%d)", "l1.j+f = %d%d"])
                f = forms[[2, 0, 4, 6][i % 4]] if r.random() < .6 else r.choice(forms)
                ops.append(("E", f % (k % 10, r.randrange(10))))
            if r.random() < .25:
                x = CODE[r.choice("sdfjj")]
                t += 20
                ops += [("K", x, 1, t), ("K", x, 0, t + 10)]
                t += 30
        for x in "asdfjk":
            t += 300
            ops += [("K", CODE[x], 1, t), ("K", CODE[x], 0, t + 10)]
        out.append(Scenario(c, ops + [("Q", t + 3000)], "cycles-%d" % i))
    return out

INV = ["NoStuckKey", "Justified", "Bounded"]
def run(prop, seed, tier, rep):
    kv.SHARDS = 8       # reading the configurations takes most of the time, and one thread each
    big = 12 if tier == "thorough" else 1
    for k in range(big):
        sd = "%s/%d" % (seed, k)
        if prop == "C15":
            judge(prop, syntax(sd, 230, "syntax", .12), "full", rep, "plain", [])
            if not rep.violations:
                judge(prop, syntax(sd, 170, "odd", .4), "full", rep, "odd", [])
        elif prop == "C16":
            judge(prop, broken(sd, 300, "broken", tier == "thorough"), "full", rep, "broken", ["Bounded"])
            if not rep.violations:
                survive(rep, survival(sd, 500, "bytes") + [Scenario(c[0], tail_probe(None, c[0]), "entries-%d" % k)
                                                            for k in range(8) for c in [limits(random.Random(k), ["entries", "descriptors"][k % 2])]])
        elif prop == "C17":
            if k == 0:
                bad = compose_file()
                if bad:
                    rep.violation_data({"kind": "compose", "clash": bad[:5]}, {"kind": "compose"})
                    return
                for part in chunked(characters(seed, tier), 60):
                    judge(prop, part, "full", rep, "characters", [])
                    if rep.violations:
                        return
        elif prop == "C18":
            judge(prop, live(sd, 110, 5, "live"), "full", rep, "live", INV)
            if not rep.violations:
                judge(prop, cycles(sd, 8), "full", rep, "cycles", INV)
        if rep.violations or rep.late():
            return

def chunked(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]

def survive(rep, scs):
    res = run_engine(scs)
    rep.add(survived=len(scs))
    bad = settle(scs, res)
    if bad:
        rep.violation(bad[0], {"kind": "crash", "result": bad[1]}, "full")

def replay(d):
    if d["kind"] == "compose":
        print(compose_file()[:10])
        return 1 if compose_file() else 0
    return 2
