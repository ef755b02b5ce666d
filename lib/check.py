"""Decides one property: python3 check.py <property> [quick|thorough]"""
import collections
import concurrent.futures as cf
import json, os, random, shutil, signal, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import zr
from zr import VERIF, Ctx, CheckError
from owners import owners
import scen
from scen import F, G, SIM, sc


# --------------------------------------------------------------------------
# what each property's check explores.  quick / thorough:
#   mc       families that TLC explores exhaustively
#   guards   checks whose removal TLC turns into an attack that is run on the real nodes
#   sims     (family, number of behaviours, depth)
#   directed (generator, kwargs)

PLAN = dict(
    C01=dict(mc=["regQ", "crossQ"], guards=["regQueue", "regWait", "regDup", "settleDiff"],
             sims=[("churn", 3, 70), ("long", 2, 60)], dirs=[("d_long", {}), ("d_long", {"n": 1, "rounds": 12}), ("d_tally", {"n": 2}), ("d_register", {"n": 3}), ("d_register", {"n": 2}), ("d_wide", {}), ("d_short", {"n": 2})]),
    C02=dict(mc=["crossQ", "vote"], guards=["settleDiff", "voteDup", "voteFb", "voteSign"],
             sims=[("votes", 3, 60), ("long", 3, 60)], dirs=[("d_tally", {}), ("d_tally", {"n": 2}), ("d_votes", {"n": 1}), ("d_requests_next", {}), ("d_negative", {}), ("d_crowd", {"m": 28}), ("d_slow", {})]),
    C03=dict(mc=["req", "sign"], guards=["reqMember", "reqSig", "reqInd", "reqD", "reqNonneg", "reqBind", "reqEqual", "reqBound"],
             sims=[("reqs", 3, 50)], dirs=[("d_requests", {}), ("d_requests", {"n": 1}), ("d_requests_next", {}), ("d_requests_next", {"n": 2}), ("d_sign", {"n": 2}), ("d_negative", {}), ("d_theft", {})]),
    C04=dict(mc=["regQ", "req"], guards=["regWait", "honFirst"],
             sims=[("long", 2, 60), ("reqs", 2, 50)], dirs=[("d_grants", {}), ("d_grants", {"n": 1}), ("d_grants", {"n": 3}), ("d_grants", {"n": 5}), ("d_requests_next", {}), ("d_tally", {}), ("d_negative", {}), ("d_negative", {"n": 2})]),
    C05=dict(mc=["post"], guards=["postMember", "postSig", "postDup", "onlyUnused", "markUsed", "atMostInd", "status"],
             sims=[("posts", 4, 60), ("cross", 2, 60)], dirs=[("d_posts", {}), ("d_posts", {"n": 2}), ("d_phases", {}), ("d_short", {})]),
    C06=dict(mc=["got", "got2", "gotc"], guards=["gotPending", "gotSig", "gotDup", "gotEach", "reqAddr", "cliSig", "status"],
             sims=[("certs", 5, 60)], dirs=[("d_certs", {}), ("d_certs", {"n": 3}), ("d_certs", {"n": 1}), ("d_certs", {"n": 5}), ("d_flight", {}), ("d_theft", {}), ("d_theft", {"n": 3}), ("d_bundle", {}), ("d_bundle", {"n": 3}), ("d_forged", {}), ("d_forged", {"n": 1})]),
    C07=dict(mc=["vote", "voteK", "vote2"], guards=["voteMember", "voteSig", "voteSign", "voteReq", "voteCerts", "voteFb"],
             sims=[("votes", 2, 60), ("votesE", 2, 60)], dirs=[("d_votes", {}), ("d_votes", {"n": 1}), ("d_votes", {"n": 3}), ("d_votes", {"n": 5})]),
    C08=dict(mc=["vote", "voteK", "crossQ"], guards=["voteDup", "voteSign", "settleDiff"],
             sims=[("votes", 2, 60), ("votesE", 2, 60), ("long", 1, 60)], dirs=[("d_votes", {}), ("d_tally", {}), ("d_tally", {"n": 2}), ("d_crowd", {"m": 14})]),
    C09=dict(mc=["crossQ", "regQ"], guards=["status", "regWait", "voteMember"],
             sims=[("cross", 4, 70), ("churn1", 2, 70)], dirs=[("d_phases", {}), ("d_phases", {"n": 2}), ("d_phases", {"n": 1}), ("d_flight", {}), ("d_flight", {"n": 2}), ("d_slow", {})]),
    C10=dict(mc=["regQ", "regR", "reg2"], guards=["regQueue", "regWait", "regDup", "regValid"],
             sims=[("churn", 3, 70), ("churn1", 2, 60), ("boot", 1, 50)],
             dirs=[("d_register", {"n": 2, "early": True}), ("d_register", {"n": 1}), ("d_register", {"n": 1, "early": True}), ("d_twice", {}), ("d_twice", {"n": 2})]),
    C11=dict(mc=["fresh"], guards=["newKey"],
             sims=[("long", 2, 60), ("churn", 1, 60)], dirs=[("d_long", {"n": 2, "rounds": 6}), ("d_long", {"n": 3, "rounds": 4}), ("d_long", {"n": 1, "rounds": 10})]),
    C12=dict(mc=["regQ"], guards=[], sims=[("churn", 1, 50)], dirs=[("d_long", {"n": 3, "rounds": 3})]),
    C13=dict(mc=["setup", "setup3"], guards=["srvQueue", "srvPhase", "srvWait"],
             sims=[("boot", 5, 50)], dirs=[("d_setup", {}), ("d_setup", {}), ("d_setup", {"n": 6}), ("d_setup", {"n": 4}), ("d_setup", {"n": 2}), ("d_setup", {"n": 1})]),
    C14=dict(mc=["hon", "regR"], guards=["honOnce", "honFirst"],
             sims=[("churn", 2, 60)], dirs=[("d_honesty", {}), ("d_honesty", {"n": 2}), ("d_beforetest", {}), ("d_beforetest", {"n": 2})]),
    C15=dict(mc=["voteK"], guards=["postSig", "reqSig", "voteSig", "gotSig"],
             sims=[("market", 2, 60)], dirs=[("d_posts", {}), ("d_votes", {"n": 1}), ("d_certs", {}), ("d_requests", {"n": 1}), ("d_short", {})]),
    C16=dict(mc=["gone"], guards=["regValid"],
             sims=[("gone", 2, 60), ("gone2", 1, 60), ("junk", 2, 60), ("junk0", 1, 60)],
             dirs=[("d_junk", {}), ("d_junk", {"n": 2}), ("d_junk", {})] + [("d_gone", {"point": p}) for p in (0, 1, 2, 4, 6, 8, 10, 12, 14, 15)] +
                 [("d_gone", {"point": p, "hole": True}) for p in (3, 9)] + [("d_slow", {"n": 2}), ("d_mute", {}), ("d_huge", {})] + [("d_bundle", {"n": n, "away": True}) for n in (1, 2)]),
    C17=dict(mc=[], guards=[], sims=[], dirs=[]),
    C18=dict(mc=[], guards=[], sims=[("junk", 1, 60), ("market", 2, 60)], dirs=[("d_wide", {}), ("d_wide", {"n": 1, "m": 7, "more": 2}), ("d_wide", {"n": 3, "m": 3, "more": 1}), ("d_short", {"n": 2})]),
    C19=dict(mc=[], guards=[], sims=[], dirs=[]),
)
# added in the thorough tier
MORE = dict(mc=["setup", "setup3", "reg", "regQ", "regR", "regS", "reg2", "post", "postL", "req", "sign", "got", "got2", "gotc", "vote", "voteK", "vote2", "fresh",
                "hon", "crossQ", "cross", "gone", "gone2", "junk"])
PARALLEL = 9
# every check also runs one of each directed scenario that is not its own: what breaks a property may show in any of them
POOL = [("d_requests", {"n": 1}), ("d_requests_next", {}), ("d_sign", {"n": 1}), ("d_grants", {}), ("d_posts", {}), ("d_negative", {}),
        ("d_theft", {}), ("d_certs", {}), ("d_forged", {"n": 1}), ("d_bundle", {"n": 1}), ("d_votes", {"n": 1}), ("d_tally", {"n": 2}), ("d_phases", {}), ("d_flight", {}),
        ("d_register", {"n": 1}), ("d_twice", {}), ("d_setup", {"n": 2}), ("d_long", {}), ("d_junk", {}), ("d_gone", {"point": 9}),
        ("d_honesty", {}), ("d_beforetest", {}), ("d_crowd", {"m": 11, "down": False}), ("d_short", {}),
        ("d_wide", {"n": 1, "m": 5, "more": 0})]


HEAVY = ("d_gone", "d_mute", "d_huge", "d_crowd", "d_slow", "d_short", "d_wide")    # once in the quick tier, and first


def scale(tier):
    return 1 if tier == "quick" else 6


def gather(ctx):
    """run TLC and collect the scenarios"""
    plan = PLAN[ctx.prop]
    k = scale(ctx.tier)
    jobs = []
    with cf.ThreadPoolExecutor(4) as ex:
        fam = plan["mc"] if ctx.tier == "quick" else sorted(set(plan["mc"]) | set(MORE["mc"] if plan["mc"] else []))
        mc = [ex.submit(zr.exhaustive, ctx, f, F[f]) for f in fam]
        cx = [(g, ex.submit(zr.counterexample, ctx, g, F[G[g]])) for g in plan["guards"]]
        sm = [(f, ex.submit(zr.simulate, ctx, f, SIM[f], n * k, d + (20 if k > 1 else 0), ctx.rng.randrange(1 << 30))) for f, n, d in plan["sims"]]
        out = []
        own = [(fn, kw, k if k > 1 or fn in HEAVY or kw.get("n", 0) > 4 or kw.get("rounds", 0) > 9 else 2) for fn, kw in plan["dirs"]]
        names = {fn for fn, _, _ in own}
        pool = [(fn, kw, (k + 1) // 2) for fn, kw in POOL if own and fn not in names]
        for i, (fn, kw, times) in enumerate(own + pool):
            for j in range(times):
                r = random.Random(ctx.rng.randrange(1 << 30))
                out.append(sc("%s.%d.%d" % (fn, i, j), getattr(scen, fn)(r, **kw), r.randrange(1 << 30)))
        for g, f in cx:
            s = f.result()
            out.append(dict(id="attack." + g, pre=s["pre"], ev=s["ev"], seed=ctx.rng.randrange(1 << 30), suffix=1))
        for f, x in sm:
            for i, s in enumerate(x.result()):
                out.append(dict(id="sim.%s.%d" % (f, i), pre=s["pre"], ev=s["ev"], seed=ctx.rng.randrange(1 << 30), suffix=1))
        for f in mc:
            f.result()
    ctx.rng.shuffle(out)
    out.sort(key=lambda s: not s["id"].startswith(("d_wide", "d_crowd")))
    return out


HARD = lambda label: not label.startswith(("missing.", "extra.", "order.", "step.", "crash."))


def run(ctx, scenarios, binary=None):
    """drive, judge, and have differences confirmed"""
    by = {s["id"]: s for s in scenarios}
    traces = zr.drive(ctx, scenarios, par=PARALLEL, binary=binary)
    faults = [t["id"] for t in traces if t.get("fault")]
    for t in traces:
        if t.get("fault"):
            ctx.log("driver fault in", t["id"], t["fault"][:400])
    ok = [t for t in traces if not t.get("fault")]
    if faults:
        again = zr.drive(ctx, [by[i] for i in faults], slow=True, par=3, binary=binary)
        bad = [t for t in again if t.get("fault")]
        if bad:
            raise CheckError("driver fault in %s: %s" % (bad[0]["id"], bad[0]["fault"][:2000]))
        ok += again
    verdicts = zr.judge(ctx, ok)
    tr = {t["id"]: t for t in ok}
    drawn(ctx, by, ok)
    ctx.traces += len(ok)
    steps = sum(len(t["ev"] or []) for t in ok)
    ctx.cov["steps_validated"] = ctx.cov.get("steps_validated", 0) + steps
    seen = ctx.cov.setdefault("events", {})
    for t in ok:
        for r in t["ev"] or []:
            seen[r["ev"]["a"]] = seen.get(r["ev"]["a"], 0) + 1
    tags = ctx.cov.setdefault("contexts", {})
    for v in verdicts.values():
        for c in v["ctx"]:
            tags[c] = tags.get(c, 0) + 1
    ctx.log("validated", len(ok), "traces,", steps, "steps")
    for t in ok[:3]:
        s0 = by[t["id"]]
        ctx.samples.append(dict(id=t["id"], seed=s0["seed"], steps=len(t["ev"] or []),
                                events=[" ".join(str(x) for k, x in e.items() if k != "m") for e in (s0["pre"] + s0["ev"])][:40]))
    sus = [(i, v) for i, v in verdicts.items() if v["labels"]]
    for i, v in sus:
        ctx.log("difference in", i, "step", v["len"], "of", v["n"], v["at"], v["labels"], "ctx", sorted(v["ctx"]),
                "->", sorted(set().union(*[owners(l, v["at"], v["ctx"]) for l in v["labels"]])))
    mine = lambda v: [l for l in v["labels"] if ctx.prop in owners(l, v["at"], v["ctx"])]
    if ctx.prop == "C18":
        return reading(ctx, by, tr, sus, binary)
    cand = [(i, v) for i, v in sus if mine(v)]
    cand.sort(key=lambda x: (not any(HARD(l) for l in mine(x[1])), x[1]["len"]))
    for i, v in cand[:4]:
        conf = None
        for k in range(3):
            again = zr.drive(ctx, [by[i]], slow=True, par=1, binary=binary)
            if again and not again[0].get("fault"):
                w = zr.judge(ctx, again)[i]
                if mine(w):
                    conf = (again[0], w)
                    break
        if conf is None and any(HARD(l) for l in mine(v)):
            conf = (tr[i], v)       # what a message says does not depend on when it was seen
        if conf:
            violation(ctx, by[i], conf[0], conf[1], mine(conf[1]))
            return
        ctx.log("not reproduced:", i)
    for i, v in sus:
        if not mine(v):
            ctx.notes.append("%s: %s at %s is not of this property" % (i, v["labels"], v["at"]))


# who answers for what is drawn at random
DRAWN = dict(key="C15", nonce="C15", par="C14", blind="C11", filler="C11", gen="C11", share="C13")
ORDER_BITS = 511        # of the exponents of the suite


def again(ctx):
    """the same behaviour once more at the same addresses: what is drawn then must not depend on the surroundings"""
    s = sc("again", scen.d_again(random.Random(ctx.seed)), ctx.seed)
    ports = (os.getpid() * 37 + ctx.seed) % 1900
    runs = []
    for k in "ab":
        t = zr.drive(ctx, [s], par=1, ports=ports)[0]
        if t.get("fault"):
            ctx.notes.append("driver fault in again: %s" % t["fault"][:200])
            return
        runs.append(dict(t, id="again." + k))
    drawn(ctx, {t["id"]: s for t in runs}, runs)


def drawn(ctx, by, traces):
    """what one node drew is drawn by no other, and never again: keys, nonces, parameters, blinding values"""
    seen, n, blinds = {}, collections.Counter(), []
    for t in traces:
        for kind, vs in (t.get("drawn") or {}).items():
            for v in vs:
                n[kind] += 1
                bad = None
                if (kind, v) in seen:
                    bad = "%s drawn again: %s, first in %s" % (kind, v[:60], seen[kind, v])
                elif kind == "blind":
                    x = int(v, 16)
                    if x.bit_length() < ORDER_BITS - 100:
                        bad = "small blinding value"
                    blinds.append(x)
                    for k in (1, 2, 3):
                        if len(blinds) > k and abs(x - blinds[-1 - k]).bit_length() < ORDER_BITS - 100:
                            bad = "blinding value next to an earlier one"
                seen[kind, v] = t["id"]
                if bad and DRAWN[kind] == ctx.prop and not ctx.violations:
                    ctx.log("drawn:", bad)
                    violation(ctx, by[t["id"]], t, dict(bad=bad), ["drawn." + kind])
                elif bad:
                    ctx.notes.append("%s: %s is not of this property" % (t["id"], bad))
    old = ctx.cov.get("drawn_compared", {})
    ctx.cov["drawn_compared"] = {k: n[k] + old.get(k, 0) for k in {**n, **old}}


def reading(ctx, by, tr, sus, binary):
    """C18: what goes wrong when messages are large, or when they come in pieces and not when they come whole"""
    def differs(i, cut):
        again = zr.drive(ctx, [by[i]], slow=True, par=1, binary=binary, cut=cut)
        if not again or again[0].get("fault"):
            return None
        v = zr.judge(ctx, again)[i]
        return (again[0], v) if v["labels"] else None
    sus.sort(key=lambda x: x[1]["len"])
    for i, v in [x for x in sus if x[0].startswith("d_wide")][:4]:
        t = differs(i, "none") or differs(i, "some")
        if t:
            violation(ctx, by[i], t[0], t[1], t[1]["labels"])
            return
    for i, v in sus[:4]:
        if differs(i, "none") or differs(i, "none"):
            ctx.notes.append("%s: %s at %s is not of this property" % (i, v["labels"], v["at"]))
            continue
        t = differs(i, "all")
        if t and differs(i, "all") and not differs(i, "none"):
            violation(ctx, by[i], t[0], t[1], t[1]["labels"])
            return
        ctx.log("not reproduced:", i)


def violation(ctx, scenario, trace, verdict, labels):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (ctx.prop, len(ctx.violations)))
    json.dump(dict(scenario=scenario, verdict=verdict, labels=labels, trace=trace), open(p, "w"), indent=1)
    ctx.violations.append(p)
    print("VIOLATION property=%s replay=%s" % (ctx.prop, p), flush=True)


UNITS = {}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    rc = 0
    watch = threading.Timer(840 if tier == "quick" else 6 * 3600, late, [ctx])
    watch.daemon = True
    watch.start()
    try:
        try:
            zr.build(ctx)
            ctx.log("built")
            import units
            with cf.ThreadPoolExecutor(2) as ex:
                us = [ex.submit(units.run, ctx, prop, violation)]
                scs = gather(ctx)
                ctx.log(len(scs), "scenarios")
                if prop in DRAWN.values():
                    us.append(ex.submit(again, ctx))
                if scs:
                    run(ctx, scs)
                for u in us:
                    u.result()
        finally:
            ctx.close()
        rc = 1 if ctx.violations else 0
    except CheckError as e:
        print("ERROR", e, flush=True)
        rc = 1 if ctx.violations else 2
    watch.cancel()
    report(ctx, rc)
    sys.exit(rc)


def late(ctx):
    """something does not come to an end: what was found so far counts"""
    print("ERROR out of time", flush=True)
    rc = 1 if ctx.violations else 2
    report(ctx, rc)
    sys.stdout.flush()
    for p in zr.children():
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
    ctx.close()
    os._exit(rc)


def report(ctx, rc):
    for n in ctx.notes[:10]:
        print("note:", n)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples[:5] or [{"note": "none"}], **ctx.cov)
    json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level="model_checking", coverage=cov,
                   wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.violations)),
              open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1)
    print("%s %s: %s in %.0f s" % (ctx.prop, ctx.tier, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc], time.time() - ctx.t0))


if __name__ == "__main__":
    main()
