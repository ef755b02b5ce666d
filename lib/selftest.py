"""Corrupts recorded traces in one place each; TLC has to reject every one of them.

python3 lib/selftest.py [seed] [number]"""
import copy, random, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import zr, scen
from zr import Ctx
from scen import sc


def twist(rng, m, f):
    """another value of the same type"""
    v = m[f]
    if isinstance(v, bool):
        m[f] = not v
    elif isinstance(v, int):
        m[f] = v + rng.choice([1, -1])
    elif isinstance(v, str):
        m[f] = "7" if v != "7" else "8"
    elif isinstance(v, (list, dict)) and v:
        g = rng.choice(list(v)) if isinstance(v, dict) else rng.randrange(len(v))
        if isinstance(v, list) and rng.random() < 0.4:
            del v[g]
            return "[-]"
        w = twist(rng, v, g)
        return None if w is None else ".%s%s" % (g, w)
    else:
        return None
    return ""


def corrupt(rng, t):
    """one change to one thing that a real node was seen to do; returns what it was"""
    steps = [i for i, r in enumerate(t["ev"]) if r["outs"] and r["ev"]["a"] not in ("inj", "replay")]
    i = rng.choice(steps)
    outs = t["ev"][i]["outs"]
    j = rng.randrange(len(outs))
    how = rng.choice(["drop", "double", "field", "field", "field", "field", "to", "crash"])
    m = outs[j]["m"]
    what = "%s %s" % (how, m["t"])
    if how == "drop":
        del outs[j]
    elif how == "double":
        outs.insert(j, copy.deepcopy(outs[j]))
    elif how == "to":
        outs[j]["t"] = "K" if outs[j]["t"] != "K" else "S1"
    elif how == "crash":
        t["ev"][i]["crash"] = [outs[j]["f"]]
    else:
        fs = [f for f in m if f != "t"]
        if not fs:
            return None
        f = rng.choice(fs)
        what += "." + f
        w = twist(rng, m, f)
        if w is None:
            return None
        what += w
    return "%s, step %d" % (what, i)


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    num = int(sys.argv[2]) if len(sys.argv) > 2 else 300
    rng = random.Random(seed)
    ctx = Ctx("C01", "quick", seed)
    try:
        zr.build(ctx)
        scs = [sc("t%d" % i, fn(random.Random(seed * 7 + i), **kw), rng.randrange(1 << 30))
               for i, (fn, kw) in enumerate([(scen.d_tally, {"n": 2}), (scen.d_certs, {}), (scen.d_register, {"n": 2}),
                                             (scen.d_setup, {}), (scen.d_honesty, {}), (scen.d_votes, {"n": 1})])]
        traces = zr.drive(ctx, scs)
        assert not any(t.get("fault") for t in traces)
        assert not any(v["labels"] for v in zr.judge(ctx, traces).values())
        bad, what = [], {}
        while len(bad) < num:
            t = copy.deepcopy(rng.choice(traces))
            w = corrupt(rng, t)
            if w:
                t["id"] = "bad%d" % len(bad)
                what[t["id"]] = w
                bad.append(t)
        missed = []
        for k in range(0, num, 60):
            for i, v in zr.judge(ctx, bad[k:k + 60]).items():
                if not v["labels"]:
                    missed.append(what[i])
        print("%d of %d corrupted traces rejected" % (num - len(missed), num))
        for w in missed:
            print("accepted:", w)
    finally:
        ctx.close()
    sys.exit(1 if missed else 0)


main()
