"""Checks of the engine properties (C01-C14): random configurations and key
histories run in the real engine, every recorded trace decided by the TLA+
specification (spec/EngineTrace.tla)."""
import random
import mc
from kv import *
from gen import Profile, Gen, scenarios, PHYS

def P(**kw):
    return Profile(**kw)

# Actions which make an interesting environment for the others
ENV = dict(key=4, modkey=2, layer=2, modlayer=1.5)

def prof(ops, **kw):
    p = Profile(**kw)
    p.ops = dict(ops)
    return p

WIDE = dict(command=.6, scroll=.6, scrollt=.3, macro1=1, noop=.6)
def wide(**kw):
    p = Profile(**kw)
    p.ops.update(WIDE)
    return p

NOTIME = dict(chord_timeout=0, chord_hold_timeout=0, macro_timeout=0, macro_repeat_timeout=0,
              macro_sequence_timeout=0, overload_tap_timeout=0)
def opts(**kw):
    o = dict(oneshot_timeout=0, disable_modifier_guard=.15, default_layout=.3)
    o.update(NOTIME)
    o.update(kw)
    return o

# property -> [(tag, share of the scenarios, mode, profile)]
PLAN = {
 "C01": [("wide", .45, "keys", wide(rests=6, events=(30, 60))),
         ("fringe", .25, "keys", prof(dict(key=2, modkey=1, macro1=4, macro=2, macro2=1, scroll=2, scrollt=1, command=1,
                                           noop=1, layerm=1, togglem=1, swapm=1, clearm=1, oneshotm=1, modlayer=1, overload=1,
                                           timeout=1, overloadt=1, setlayout=.5),
                                      keys=(3, 5), layers=(1, 2), chords=.2, rests=7, events=(30, 50), modkeys=.2)),
         ("dense", .3, "keys", wide(rests=3, maxheld=9, keys=(7, 10), layers=(2, 5), overlap=.9, chords=.5))],
 "C02": [("wide", .6, "layers", wide(rests=6, events=(30, 60), layers=(2, 5))),
         ("latch", .4, "layers", prof(dict(ENV, oneshot=4, toggle=3, swap=3, oneshotm=1, togglem=1, swapm=1, layerm=1,
                                           clear=1, clearm=.5, overload=2, overloadt=1, timeout=1, setlayout=1, overloadi=1,
                                           lettermod=.5),
                                      layers=(2, 4), layouts=.5, rests=5, events=(25, 60)))],
 "C03": [("held", 1, "full", prof(dict(ENV, toggle=2, setlayout=2, oneshot=1, swap=1, overload=1, command=.3, noop=.3,
                                         togglem=.3, layerm=.5, macro=.5),
                                     layers=(1, 4), layouts=.6, chords=0, dup=.12, maxheld=8, maindensity=.5, evals=.04,
                                     opts=opts()))],
 "C04": [("lookup", 1, "full", prof(dict(key=6, modkey=4, layer=5, toggle=3, modlayer=3, setlayout=1.5, oneshot=1.5,
                                           overload=.5, macro=.5),
                                      layers=(3, 6), composites=1, ncomposites=(1, 4), layermods=.6, layouts=.6, chords=0,
                                      density=.6, maindensity=.8, maxheld=7, opts=opts()))],
 "C05": [("mods", 1, "full", prof(dict(key=3, modkey=8, layer=4, modlayer=4, toggle=1.5, oneshot=2, overload=2, layerm=1,
                                         oneshotm=1, togglem=1, swapm=.5, clearm=1, macro=2, swap=.5, overloadt=1.5, clear=.5,
                                         macro1=3, command=.3, timeout=1.5, overloadi=.7, overloadt2=.7, lettermod=.3,
                                         scroll=.2),
                                    layermods=.95, layers=(2, 4), composites=.5, modkeys=.8, chords=.1, opts=opts(macro_sequence_timeout=.1)))],
 "C06": [("guard", 1, "full", prof(dict(key=3, modkey=3, layer=5, modlayer=5, overload=3, toggle=2, oneshot=2, overloadt=1,
                                          overloadi=.5, lettermod=.5, noop=.5, macro=.5, macro1=1, layerm=.5, command=.3),
                                     layermods=1, guardmods=.85, layers=(2, 3), modkeys=.7, chords=.1, density=.25,
                                     events=(10, 40), opts=opts(disable_modifier_guard=.2)))],
 "C07": [("oneshot", 1, "full", prof(dict(ENV, oneshot=7, oneshotm=2, toggle=1, overload=1, macro=1, command=.7, noop=.3,
                                            timeout=.5, overloadt=.5, swap=.5, setlayout=.3),
                                       layers=(2, 4), chords=.15, opts=opts(oneshot_timeout=.7, macro_timeout=.3)))],
 "C08": [("latch", 1, "full", prof(dict(ENV, toggle=4, togglem=1.5, swap=4, swapm=1.5, setlayout=3, clear=2, clearm=1.5,
                                          oneshot=3, oneshotm=1, overload=2, layerm=.7, overloadt=.7, timeout=.5, macro=.5),
                                     layers=(2, 4), layouts=.8, chords=.1, layermods=.6, opts=opts(oneshot_timeout=.3)))],
 "C09": [("overload", 1, "full", prof(dict(ENV, overload=9, macro=.5, macro2=.3, toggle=.5, oneshot=.7, overloadt=.7, timeout=.5,
                                             overloadi=.5, lettermod=.5),
                                        layers=(1, 3), chords=.1, opts=opts(overload_tap_timeout=.7)))],
 "C10": [("decide", 1, "full", prof(dict(ENV, overloadt=4, overloadt2=4, timeout=3, overloadi=3, lettermod=3, oneshot=.7,
                                           macro=.5, toggle=.5, overload=.7),
                                      layers=(1, 3), chords=.15, events=(15, 50),
                                      opts=opts(oneshot_timeout=.2, macro_timeout=.3, chord_timeout=.3)))],
 "C11": [("chords", 1, "full", prof(dict(ENV, overload=.7, overloadt=.7, toggle=.5, macro=.5, oneshot=.7, timeout=.3,
                                           setlayout=.5, lettermod=.4),
                                      layers=(1, 3), chords=.9, nchords=(2, 6), keys=(5, 9), maxheld=8, layouts=.4,
                                      opts=opts(chord_timeout=.6, chord_hold_timeout=.5, macro_timeout=.2)))],
 "C12": [("macros", 1, "full", prof(dict(ENV, macro=8, macro2=3, macro1=1, layerm=1.5, oneshotm=1.5, togglem=1, swapm=1, clearm=1,
                                           overload=1.5, oneshot=.5, timeout=.5, overloadt=.5),
                                      layers=(1, 3), layermods=.8, chords=.1, unicode=.25,
                                      opts=opts(macro_timeout=.6, macro_repeat_timeout=.6, macro_sequence_timeout=.3,
                                                overload_tap_timeout=.3)))],
 "C13": [("jitter", .6, "full", prof(dict(ENV, overloadt=3, overloadt2=3, timeout=3, overloadi=1.5, lettermod=1.5, oneshot=2,
                                            macro=2, macro2=1),
                                       layers=(1, 3), chords=.5, jitter=1, wakes=.25,
                                       opts=opts(oneshot_timeout=.7, macro_timeout=.6, macro_repeat_timeout=.6,
                                                 chord_timeout=.6, chord_hold_timeout=.5, overload_tap_timeout=.3))),
         ("punctual", .4, "full", prof(dict(ENV, overloadt=3, overloadt2=3, timeout=3, overloadi=1.5, lettermod=1.5, oneshot=2,
                                              macro=2, macro2=1),
                                         layers=(1, 3), chords=.5, jitter=0, wakes=.25,
                                         opts=opts(oneshot_timeout=.7, macro_timeout=.6, macro_repeat_timeout=.6,
                                                   chord_timeout=.6, chord_hold_timeout=.5, overload_tap_timeout=.3)))],
 "C14": [("crowd", .35, "full", wide(events=(60, 160), maxheld=24, manykeys=1, chords=.6, overlap=1, rests=1, dup=.08)),
         ("queue", .35, "full", prof(dict(ENV, overloadt=5, overloadt2=5, timeout=3, lettermod=2, layer=1),
                                       events=(120, 220), maxheld=6, bursts=1, chords=.6, nchords=(2, 6),
                                       opts=opts(chord_timeout=.6, chord_hold_timeout=.7), longtimes=1)),
         ("long", .3, "full", wide(events=(150, 300), rests=4, maxheld=8))],
}

QUICK_EVENTS = 45000
THOROUGH_EVENTS = 900000

def rest_modes(prof):
    return getattr(prof, "rests", 1)

# the invariants of spec/KeydProps.tla by property
INVARIANTS = {"C01": ["NoStuckKey", "CleanKeys"], "C02": ["Justified", "OneLayout"], "C03": ["NoKeyLost"],
              "C04": ["Justified"], "C05": ["CleanMods", "CleanKeys"], "C06": ["CleanMods"], "C07": ["OneshotEnds", "Justified"],
              "C08": ["OneLayout", "Justified"], "C09": ["CleanKeys"], "C10": ["NoKeyLost"],
              "C11": ["NoKeyLost", "ChordsHeld"], "C12": ["CleanKeys"], "C13": ["NothingDue"], "C14": ["Bounded", "NoKeyLost"]}

def size(prof):
    a, b = prof.events
    return (a + b) / 2 * 1.15 + 6

def k1():
    """Known finding K1: a queued decision which is due at the very moment an
    earlier one is taken is not taken until the next event."""
    c = Conf(["[ids]", "*", "[main]", "a = overloadt(l1, b, 50)", "s = overloadt(l2, c, 20)", "[l1]", "[l2]"])
    s = Scenario(c, [("K", 30, 1, 0), ("K", 31, 1, 30), ("Q", 3000)], "k1")
    r = run_engine([s])["k1"]
    if "crash" in r or not r["ok"]:
        return False
    return "+l2" not in [l for e in r["ev"] for l in e["l"]]

def flood(seed, n):
    """Very many events before a decision is taken"""
    out = []
    for i in range(n):
        r = random.Random("%s/flood/%d" % (seed, i))
        keys = r.sample(PHYS[:10] + ["q", "w", "e", "r", "t", "y", "u", "i", "o", "p", "z", "x", "c", "v", "b", "n", "m", "1", "2", "3",
                                     "4", "5", "6", "7", "8", "9", "0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9"], 40) \
            if i % 3 == 0 else r.sample(PHYS[:10], 8)
        keys = list(dict.fromkeys(keys))
        trig, rest = keys[:3], keys[3:]
        lim = r.choice([400, 1000, 3000])
        lines = ["[ids]", "*", "[global]"] + r.choice([[], ["chord_timeout = %d" % r.choice([30, 500])], ["chord_hold_timeout = 30"]]) + ["[main]"]
        for k in trig:
            lines.append("%s = %s" % (k, r.choice(["overloadt(l1, %s, %d)", "overloadt(l1, %s, %d)", "overloadt2(l1, %s, %d)", "timeout(layer(l1), %2$d, %1$s)",
                                                   "overloadi(a, overloadt(l1, %s, %d), 20)", "lettermod(l1, %s, 20, %d)"])
                                      .replace("%2$d", "%d" % lim).replace("%1$s", k).replace("%s", k).replace("%d", str(lim))))
        if r.random() < .5:
            lines.append("%s = x" % "+".join(r.sample(rest, 2)))
        if r.random() < .3:
            lines.append("%s = y" % "+".join(r.sample(trig, 2)))
        for k in r.sample(rest, 2):
            lines.append("%s = %s" % (k, r.choice(["oneshot(l1)", "toggle(l1)", "C-x", "macro(a b)", "noop", "layer(l2)"])))
        lines += ["[l1:C]", "%s = z" % rest[0], "[l2]", "%s = w" % rest[1]]
        ops, t = [], 10
        for _ in range(r.randint(1, 3)):
            held = []
            first = r.choice(trig)
            ops.append(("K", CODE[first], 1, t))
            held.append(first)
            style = r.choice(["down", "mix", "mix"])
            for _ in range(r.randint(25, 90)):
                t += r.choice([0, 0, 1, 2]) if r.random() < .95 else r.choice([20, 60])
                free = [k for k in rest + (trig if r.random() < .05 else []) if k not in held]
                if free and (len(held) < 2 or (style == "down" and len(held) < 36) or (len(held) < 6 and r.random() < .5)):
                    k = r.choice(free)
                    held.append(k)
                    ops.append(("K", CODE[k], 1, t))
                elif len(held) > 1:
                    k = held.pop(r.randrange(1, len(held)))
                    ops.append(("K", CODE[k], 0, t))
            if r.random() < .5:
                t += lim + r.choice([-1, 0, 1])
            r.shuffle(held)
            for k in held:
                t += r.choice([0, 1, 20])
                ops.append(("K", CODE[k], 0, t))
            t += r.choice([1, lim, 5000])
        ops.append(("Q", t + 8000))
        out.append(Scenario(Conf([latin(l) for l in lines]), ops, "flood-%d" % i))
    return out

def plan(prop, seed, tier, scale=1.0):
    events = (THOROUGH_EVENTS if tier == "thorough" else QUICK_EVENTS) * scale
    out = []
    for tag, share, mode, p in PLAN[prop]:
        n = max(8, int(events * share / size(p)))
        out.append((tag, mode, p, max(4, n // 8), 8))
    return out

def run(prop, seed, tier, rep):
    """rep collects what is covered and what is violated (see check.py)"""
    for tag, mode, p, nconf, nscript in plan(prop, seed, tier):
        chunk = 1600 // nscript
        done = 0
        while done < nconf:
            k = min(chunk, nconf - done)
            scs = scenarios("%s/%d" % (seed, done), p, k, nscript, prop + tag)
            done += k
            judge(prop, scs, mode, rep, tag)
            if rep.violations:
                return
            if rep.late():
                return
    if prop == "C14":
        for k in range(8 if tier == "thorough" else 1):
            judge(prop, flood("%s/%d" % (seed, k), 120), "full", rep, "flood")
            if rep.violations:
                return
    mc.run(prop, tier, rep, PLAN[prop][0][2], INVARIANTS.get(prop, ()))
    if prop == "C13" and k1():
        rep.known("K1", "a tap/hold decision of a queued key whose limit coincides with the moment an earlier "
                  "decision is taken waits for the next event (pinned by t/overload_2-2.t)")

def judge(prop, scs, mode, rep, tag, wanted=None):
    res = run_engine(scs)
    bad = settle(scs, res)
    if bad:
        rep.violation(bad[0], {"kind": "crash", "result": bad[1]}, mode)
        return
    rej, acc, st = validate(scs, res, mode=mode, uni=uni_file(scs))
    rep.count(tag, scs, res, acc, st)
    by = {s.sid: s for s in scs}
    for sid in sorted(rej):
        s = by[sid]
        r2 = run_engine([s])
        if "crash" in r2[sid]:
            rep.violation(s, {"kind": "crash", "result": r2[sid]}, mode)
            return
        rej2, _, _ = validate([s], r2, mode=mode, uni=uni_file([s]))
        if sid in rej2:
            rep.violation(s, rej2[sid], mode)
            return
    for b in st["broken"]:
        mine = [x for x in b["props"] if x in (wanted or INVARIANTS.get(prop, ()))]
        if mine:
            rep.violation(by[b["broken"]], {"kind": "invariant", "at": b["at"], "invariants": mine}, mode)
            return
