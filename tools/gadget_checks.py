"""The check of C26: random sequences of key events through the real USB gadget
backend, every report decided by spec/HidTrace.tla; the specification itself is
explored exhaustively for a few keys (spec/HidMC.tla)."""
import json, os, random, subprocess, tempfile, shutil
from kv import *

ASSUMPTIONS = ["the host takes every report (the gadget device is played by harness/hid.c)",
               "keys without a usage of the keyboard page are not reported"]
CODES = [int(l.split("\t")[0]) for l in open(SPEC + "/keys.tsv")]
_hid = None
def hid():
    global _hid
    if _hid is None:
        _hid = build("hid", VERIF + "/harness/hid.c", ["open", "open64", "write", "writev", "close"], vkbd="usb-gadget",
                     cc=["clang", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                         "-ftrivial-auto-var-init=pattern"])
    return _hid

def script(r):
    """[(code, state)]; state 2 and more: the pointer"""
    kind = r.choice(["few", "many", "all", "mods"])
    mods = [29, 42, 56, 125, 97, 54, 100, 126]
    known = [c for c in range(1, 139)] + list(range(179, 195))
    pool = {"few": r.sample(known, 5) + r.sample(mods, 2), "many": r.sample(known, 14) + r.sample(mods, 3),
            "all": list(range(1, 256)), "mods": mods + r.sample(known, 4)}[kind]
    ops, down = [], []
    for _ in range(r.randint(10, 120)):
        x = r.random()
        if x < .04:
            ops.append((r.choice([0, 1, 5]), r.choice([2, 3, 4])))
        elif x < .08:
            c = r.choice(pool)
            if c in down:
                ops.append((c, 1))
            else:
                ops.append((c, 0))
        elif down and (x < .45 or len(down) > 12):
            ops.append((down.pop(r.randrange(len(down))), 0))
        else:
            free = [c for c in pool if c not in down]
            if free:
                c = r.choice(free)
                down.append(c)
                ops.append((c, 1))
    r.shuffle(down)
    return ops + [(c, 0) for c in down]

def record(scs):
    d = tempfile.mkdtemp(prefix="hid", dir=scratch())
    open(d + "/in", "w").write("".join("S %s\n%s\n.\n" % (i, "\n".join("%d %d" % o for o in ops)) for i, ops in scs))
    r = subprocess.run([hid(), d + "/in"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, timeout=300,
                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    res = {}
    for l in r.stdout.decode().splitlines():
        try:
            x = json.loads(l)
            res[x["id"]] = x
        except ValueError:
            pass
    shutil.rmtree(d, True)
    return res

def decide(scs, res):
    d = tempfile.mkdtemp(prefix="hidv", dir=scratch())
    jdump(d + "/t", [res[i] for i, _ in scs if i in res])
    rc, o = tlc("HidTrace", env={"KEYD_TRACES": d + "/t"}, workers=4)
    if rc != 0:
        raise CheckError("TLC failed (%d):\n%s" % (rc, o[-3000:]))
    shutil.rmtree(d, True)
    rows = printed(o)
    return {r["reject"]: r for r in rows if "reject" in r}, {r["accept"] for r in rows if "accept" in r}, states_of(o)

def run(prop, seed, tier, rep):
    rc, o = tlc("HidMC", workers=4)
    if rc != 0:
        raise CheckError("the specification does not have its properties:\n" + o[-3000:])
    rep.add(states=states_of(o)[1], transitions=states_of(o)[0])
    r = random.Random("%s/gadget" % seed)
    total = 6000 if tier == "thorough" else 500
    # every key by itself, pressed and released
    first = [("each-%d" % k, [(c, s) for c in range(16 * k + (k == 0), 16 * k + 16) for s in (1, 0)]) for k in range(16)]
    scs = first + [("r%d" % i, script(r)) for i in range(total)]
    res = record(scs)
    for i, ops in scs:
        if i not in res or res[i]["st"]:
            rep.violation_data({"kind": "crash", "result": res.get(i)}, {"kind": "gadget", "ops": ops})
            return
    for a in range(0, len(scs), 1500):
        part = scs[a:a + 1500]
        rej, acc, st = decide(part, res)
        rep.add(states=st[1], transitions=sum(len(res[i]["ev"]) for i, _ in part), traces_validated_against_impl=len(acc))
        if a == 0:
            rep.sample({"ops": part[-1][1][:30], "recorded": res[part[-1][0]]["ev"][:8]})
        for i, ops in part:
            if i in rej:
                rep.violation_data(rej[i], {"kind": "gadget", "ops": ops})
                return
            if i not in acc:
                raise CheckError("no verdict for %s" % i)

def replay(d):
    scs = [("replay", [tuple(o) for o in d["ops"]])]
    res = record(scs)
    print(json.dumps(res))
    if "replay" not in res or res["replay"]["st"]:
        return 1
    rej, acc, st = decide(scs, res)
    print(json.dumps(rej))
    return 1 if rej else 0
