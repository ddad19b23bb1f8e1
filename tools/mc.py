"""Closed models of the engine: TLC explores all histories of a few keys of a
small configuration (spec/EngineMC.tla), in whose every state the invariants of
KeydProps hold, and every transition it finds is replayed in the real engine
and decided by spec/EngineTrace.tla."""
import json, random
from kv import *

def M(keys, dts, *lines, opts=()):
    return {"keys": [CODE[k] for k in keys.split()], "dts": list(dts),
            "lines": ["[ids]", "*", "[global]"] + list(opts) + ["[main]"] + list(lines)}

MOD = "overload_tap_timeout = 20"
MODELS = {
 "layers": M("a s d f", [1], "a = layer(l1)", "s = layer(l2)", "f = C-y", "[l1:C]", "d = x", "s = toggle(l3)", "[l2:A]", "d = y", "[l3:S]", "d = z",
             "[l1+l2]", "d = w"),
 "oneshots": M("a s d f", [1, 60], "a = oneshot(l1)", "s = oneshot(l2)", "f = toggle(l2)", "[l1:C]", "d = x", "[l2:M]", "d = S-y", opts=["oneshot_timeout = 60"]),
 "oneshot-mods": M("a s d f", [1], "a = oneshot(control)", "s = oneshot(shift)", "d = x", "f = layer(alt)"),
 "latches": M("a s d f", [1], "a = layer(l1)", "s = oneshot(l1)", "f = toggle(l1)", "[l1:C]", "d = swap(l2)", "[l2:S]", "d = x", "f = toggle(l2)", "a = clear()"),
 "swaps": M("a s d", [1], "a = oneshot(l1)", "s = toggle(l1)", "[l1:A]", "d = swap2(l2, macro(C-x))", "[l2:S]", "d = swap(l1)", "s = y"),
 "layouts": M("a s d f", [1], "a = setlayout(b)", "s = layer(l1)", "f = b", "[l1:C]", "d = setlayout(main)", "f = toggle(l1)", "[b:layout]", "s = oneshot(l1)",
              "d = x", "f = c", opts=["default_layout = b"]),
 "overload": M("a s d", [1, 20], "a = overload(l1, b)", "s = overload(control, esc)", "[l1:A]", "d = x", "s = overload(shift, C-c)", opts=[MOD]),
 "overload-plain": M("a s d", [1], "a = overload(l1, oneshot(l2))", "s = overload(meta, macro(x y))", "[l1:S]", "d = x", "[l2:C]", "d = y"),
 "guard": M("a s d f", [1], "a = layer(meta)", "s = layer(alt)", "f = layer(control)", "d = x"),
 "guard-over": M("a s d", [1], "a = overload(meta, b)", "s = overload(altgr, M-c)", "d = toggle(alt)"),
 "noguard": M("a s d", [1], "a = layer(meta)", "s = oneshot(alt)", "d = x", opts=["disable_modifier_guard = 1"]),
 "overloadt": M("a s d", [1, 29, 30], "a = overloadt(l1, b, 30)", "s = c", "[l1:C]", "d = x", "s = y"),
 "overloadt2": M("a s d", [1, 29, 30], "a = overloadt2(l1, b, 30)", "s = c", "[l1:C]", "d = x", "s = y"),
 "two-overloadt": M("a s d", [1, 21, 30], "a = overloadt(l1, b, 30)", "s = overloadt2(l2, c, 21)", "[l1:C]", "d = x", "[l2:A]", "d = y"),
 "timeout": M("a s d", [1, 20, 31], "a = timeout(b, 30, layer(l1))", "s = timeout(oneshot(l1), 20, c)", "[l1:C]", "d = x"),
 "idle": M("a s d", [1, 25], "a = overloadi(b, overloadt2(l1, b, 40), 25)", "s = lettermod(shift, s, 25, 40)", "[l1:A]", "d = x"),
 "deferred-mods": M("a s d", [1, 30], "a = overloadt(control, b, 30)", "s = oneshot(shift)", "d = overload(alt, x)"),
 "deferred-overload": M("a s d", [1, 20], "a = layer(l1)", "s = timeout(overload(alt, x), 20, C-y)", "[l1:C]", "s = timeout(overload(shift, x), 20, S-y)",
                        "d = overloadt(l2, overload(meta, C-z), 20)", "[l2:A]", "s = overloadt2(control, overload(l1, y), 20)"),
 "chords": M("a s d", [1, 30, 51], "a+s = x", "s+d = layer(l1)", "[l1:C]", "a = y", opts=["chord_timeout = 50"]),
 "chords-hold": M("a s d", [1, 20, 50], "a+s = x", "a+s+d = y", opts=["chord_timeout = 50", "chord_hold_timeout = 20"]),
 "chords-long": M("a s d f", [1, 51], "a+s = overload(l1, x)", "a+s+d = oneshot(l1)", "d+f = toggle(l1)", "[l1:S]", "a = z", opts=["chord_timeout = 50"]),
 "chord-pending": M("a s d", [1, 30, 51], "a+s = overloadt(l1, x, 30)", "d = overloadt(l1, y, 30)", "[l1:C]", "s = z", opts=["chord_timeout = 50"]),
 "macros": M("a s d", [1, 50, 99], "a = macro(x C-y 5ms z)", "s = macro2(50, 20, p)", "d = q",
             opts=["macro_timeout = 99", "macro_repeat_timeout = 50"]),
 "macro-layers": M("a s d", [1, 80], "a = layer(l1)", "s = oneshotm(l1, macro(x y))", "[l1:C]", "d = macro(x y+z)", "s = togglem(l1, macro(C-x))",
                   opts=["macro_timeout = 80", "macro_repeat_timeout = 80"]),
 "macro-compound": M("a s d", [1, 80], "a = layerm(l1, C-x)", "s = clearm(macro(x y))", "d = overload(l1, macro(A-a b))", "[l1:S]", "d = macro(b)",
                     opts=["macro_timeout = 80", "macro_repeat_timeout = 80"]),
 "macro-scroll": M("a s d", [1, 80], "a = macro(C-x)", "s = scroll(30)", "d = macro2(60, 20, S-y)", opts=["macro_timeout = 80", "macro_repeat_timeout = 80"]),
 "guard-mouse": M("a s d f", [1], "a = layer(meta)", "s = leftmouse", "d = noop", "f = macro(middlemouse)"),
 "modkeys": M("a s d", [1], "a = C-x", "s = layer(l1)", "d = S-A-y", "[l1:C]", "a = C-S-z", "d = A-x"),
}
FOR = {
 "C01": ["macro-scroll", "layers", "oneshot-mods", "overload-plain", "deferred-mods", "macro-compound", "chords-long"],
 "C02": ["oneshots", "latches", "swaps", "layouts", "chords-long"],
 "C03": ["layers", "latches", "layouts", "modkeys"],
 "C04": ["layers", "layouts", "modkeys"],
 "C05": ["deferred-overload", "modkeys", "oneshot-mods", "macro-compound", "guard"],
 "C06": ["guard-mouse", "guard", "guard-over", "noguard"],
 "C07": ["oneshots", "oneshot-mods", "overload-plain"],
 "C08": ["latches", "swaps", "layouts"],
 "C09": ["deferred-overload", "overload", "overload-plain", "guard-over"],
 "C10": ["deferred-overload", "overloadt", "overloadt2", "two-overloadt", "timeout", "idle", "deferred-mods"],
 "C11": ["chords", "chords-hold", "chords-long", "chord-pending"],
 "C12": ["macro-scroll", "macros", "macro-layers", "macro-compound"],
 "C13": ["overloadt", "chords-hold", "macros", "oneshots", "idle"],
 "C14": ["two-overloadt", "chord-pending", "chords-long", "swaps"],
}

def explore(names, limit, depth):
    """[(name, histories)], (states, transitions) found by TLC; the histories end in every transition"""
    d = tempfile.mkdtemp(prefix="mc", dir=scratch())
    def one(name):
        m = MODELS[name]
        f = "%s/%s.json" % (d, name)
        jdump(f, [{"lines": m["lines"], "incs": [], "ok": 1, "keys": m["keys"], "dts": m["dts"], "depth": depth}])
        rc, o = tlc("EngineMC", env={"KEYD_CONFS": f, "KEYD_UNI": "/dev/null", "KEYD_STATES": str(limit)}, workers=2)
        if rc != 0:
            raise CheckError("TLC failed (%d) on %s:\n%s" % (rc, name, o[-3000:]))
        rows = printed(o)
        bad = [r for r in rows if "broken" in r]
        if bad:
            raise CheckError("the specification breaks its properties: %s %s" % (name, json.dumps(bad[0])))
        return name, [tuple(map(tuple, r["h"])) for r in rows if "h" in r], states_of(o)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, names))
    shutil.rmtree(d, True)
    return [(n, h) for n, h, s in res], (sum(s[1] for n, h, s in res), sum(s[0] for n, h, s in res))

def scripts(name, hs):
    """the histories which are no beginning of another one, each followed by letting go of everything"""
    pre = set()
    for h in hs:
        for k in range(1, len(h)):
            pre.add(h[:k])
    conf = Conf(MODELS[name]["lines"])
    out = []
    for h in sorted(set(hs) - pre):
        ops = [("K", c, p, t) for c, p, t in h]
        t, down = h[-1][2], []
        for c, p, _ in h:
            down.append(c) if p else down.remove(c)
        for c in down:
            t += 1
            ops.append(("K", c, 0, t))
        ops.append(("Q", t + 1500))
        out.append(Scenario(conf, ops, "%s-%d" % (name, len(out))))
    return out

def tree(scs, res):
    """the recorded traces of a configuration as a tree"""
    ev, first, par = [], [], []
    idx = {}
    for s in scs:
        at = 0
        for e in res[s.sid]["ev"]:
            k = (at, json.dumps(e, sort_keys=True))
            if k not in idx:
                ev.append(dict(e, n=[]))
                par.append(at)
                idx[k] = len(ev)
                (ev[at - 1]["n"] if at else first).append(len(ev))
            at = idx[k]
    return ev, first, par

def path(ev, par, j):
    p = []
    while j:
        p.append(ev[j - 1])
        j = par[j - 1]
    ops = [("K", e["c"], e["p"], e["t"]) if e["k"] == "k" and e["c"] else ("Q", e["t"]) for e in reversed(p) if e["k"] == "q" or e["c"] or e is p[0]]
    return [(o[0], o[-1]) if o[0] == "Q" else o for o in ops]

def judge(scs, res, mode):
    """[(name, tree, rejections)], events"""
    by = {}
    for s in scs:
        by.setdefault(s.sid.rsplit("-", 1)[0], []).append(s)
    def one(kv):
        name, ss = kv
        d = tempfile.mkdtemp(prefix="mct", dir=scratch())
        ev, first, par = tree(ss, res)
        jdump(d + "/c", [ss[0].conf.json(res[ss[0].sid]["ok"])])
        jdump(d + "/t", [{"id": name, "cfg": 1, "ev": ev, "n": first}])
        rc, o = tlc("EngineTrace", env={"KEYD_CONFS": d + "/c", "KEYD_TRACES": d + "/t", "KEYD_MODE": mode, "KEYD_UNI": "/dev/null"}, workers=2,
                    jvm=["-Dtlc2.tool.queue.IStateQueue=StateDeque"])      # a queue on disk cannot hold values TLC has not evaluated
        if rc != 0:
            raise CheckError("TLC failed (%d):\n%s" % (rc, o[-3000:]))
        shutil.rmtree(d, True)
        return name, ev, par, printed(o), states_of(o)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, by.items()))

def run(prop, tier, rep, mode, invariants):
    deep = tier == "thorough"
    found, st = explore(FOR[prop], (40000 if deep else 3000) // len(FOR[prop]), 12 if deep else 7)
    scs = [s for n, hs in found for s in scripts(n, hs)]
    rep.add(model_states=st[0], model_transitions=st[1], model_histories=len(scs))
    res = run_engine(scs)
    bad = settle(scs, res)
    if bad:
        rep.violation(bad[0], {"kind": "crash", "result": bad[1]}, mode)
        return
    for name, ev, par, rows, st in judge(scs, res, mode):
        rep.add(states=st[1], transitions=len(ev), traces_validated_against_impl=1)
        if not any("reject" in r or "conf" in r for r in rows) and st[1] < .5 * len(ev):
            raise CheckError("%s: %d of %d events decided" % (name, st[1], len(ev)))
        rows = [r for r in rows if "reject" in r or "conf" in r or ("broken" in r and [x for x in r["props"] if x in invariants])]
        if rows:
            r = min(rows, key=lambda r: len(path(ev, par, r.get("at", 0))))
            s = Scenario(Conf(MODELS[name]["lines"]), path(ev, par, r.get("at", 0)), "again")
            r2 = run_engine([s])
            if "crash" not in r2["again"]:
                rej, acc, st = validate([s], r2, mode=mode)
                if not rej and not [x for b in st["broken"] for x in b["props"] if x in invariants]:
                    continue
            rep.violation(s, dict(r, model=name), mode)
            return
