"""Checks of single nodes and of the libraries, driven by vectors that TLC enumerates."""
import itertools
import concurrent.futures as cf
import collections, json, math, os, random, re, shutil, subprocess, tempfile
import zr
from zr import VERIF, REPO, CheckError


def tlc_vectors(ctx, module, cfg, name, tag="VEC", timeout=900):
    """Explore a specification of a node's decisions; returns what it prints per case."""
    out, rc, t = zr.tlc(ctx, "---- MODULE M ----\nEXTENDS %s\n====\n" % module, cfg, timeout=timeout)
    if "No error has been found" not in out:
        raise CheckError("TLC on %s: %s" % (module, out[-3000:]))
    g, d = zr.counts(out)
    with ctx.lock:
        ctx.states += d
        ctx.transitions += g
        ctx.cov.setdefault("families", {})[name] = {"states": d, "generated": g, "seconds": round(t, 1)}
    v = [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"%s (.*)"' % tag, out)]
    ctx.log("exhaustive", name, d, "states", round(t, 1), "s,", len(v), "vectors")
    return v


def build_unit(ctx):
    with ctx.lock:
        if getattr(ctx, "unitbin", None):
            return
        p = zr.sh(["go", "build", "-o", ctx.dir + "/unit", "./cmd/unit"], VERIF + "/driver", zr.goenv())
        if p.returncode != 0:
            raise CheckError("build of unit failed:\n" + p.stdout + p.stderr)
        ctx.unitbin = ctx.dir + "/unit"


def run_vectors(ctx, vecs, par=6, slow=False, binary=None):
    build_unit(ctx)
    d = tempfile.mkdtemp(dir=ctx.dir)
    json.dump(vecs, open(d + "/in.json", "w"))
    cmd = [ctx.unitbin, "-bin", binary or ctx.bin, "-in", d + "/in.json", "-out", d + "/out.json", "-par", str(par), "-tmp", d,
           "-ports", str((os.getpid() * 173 + hash(d) % 1500) % 1900)] + (["-slow"] if slow else [])
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=3000)
    if p.returncode != 0 or not os.path.exists(d + "/out.json"):
        raise CheckError("unit driver failed: " + (p.stdout + p.stderr)[-3000:])
    l = json.load(open(d + "/out.json"))
    bad = [o for o in l if o.get("fault")]
    if bad and not slow:
        by = {v["id"]: v for v in vecs}
        again = {o["id"]: o for o in run_vectors(ctx, [by[o["id"]] for o in bad], par=2, slow=True, binary=binary)}
        l = [again.get(o["id"], o) for o in l]
    elif bad:
        raise CheckError("unit driver fault in %s: %s" % (bad[0]["id"], bad[0]["fault"][:2000]))
    return l


def settle(ctx, violation, vecs, want, what, par=6):
    """Run vectors whose outcome the specification gives; a difference has to show twice."""
    by = {v["id"]: v for v in vecs}
    outs = run_vectors(ctx, vecs, par)
    diff = [o for o in outs if o["out"] != want[o["id"]]]
    with ctx.lock:
        ctx.traces += len(outs)
        ctx.cov["unit_vectors"] = ctx.cov.get("unit_vectors", 0) + len(outs)
    ctx.log(what, len(outs), "vectors,", len(diff), "differ")
    for o in diff[:6]:
        again = run_vectors(ctx, [by[o["id"]]], par=1, slow=True)[0]
        ctx.log("  ", o["id"], "wanted", want[o["id"]], "got", o["out"], o.get("note", ""), "again", again["out"])
        if again["out"] != want[o["id"]]:
            violation(ctx, by[o["id"]], again, dict(wanted=want[o["id"]]), [what])
            return outs
    return outs


# ---------------------------------------------------------------------------
# C12: tables with shuffle proofs

PASS = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N=%d
MaxDev=%d
Kinds={"ANN","RE"}
INVARIANTS Sound Complete Show
"""


def pass_vec(m, n, i, seed):
    omit = list(m["omit"])
    return dict(id="pass%d.%d" % (n, i), unit="pass", kind=m["kind"], n=n, rows=m["rows"], keys=m["keys"], alt=m["alt"],
                omit="all" if len(omit) == 5 else " ".join(omit), flag=m["flag"], garble=m["garble"], claim=m["claim"], lie=m["lie"], seed=seed)


def pass_class(x):
    m = x["m"]
    unit = all(sorted(r) == [0] * (len(r) - 1) + [1] for r in m["rows"]) and sorted(map(sum, zip(*m["rows"]))) == [1] * len(m["rows"])
    return ("rows" if not unit else "", "keys" if sorted(m["keys"]) != list(range(1, len(m["keys"]) + 1)) else "",
            tuple(sorted(m["omit"])), not m["flag"], m["garble"], m["claim"] and m["kind"], m["lie"] and m["lie"] + m["kind"])


def shuffles(ctx, violation):
    rng = random.Random(ctx.seed * 7919 + 12)
    quick = ctx.tier == "quick"
    vecs, want = [], {}

    def add(x, n):
        v = pass_vec(x["m"], n, len(vecs), rng.randrange(1 << 30))
        vecs.append(v)
        want[v["id"]] = x["out"]

    for n, dev in ((2, 2), (3, 1)):
        xs = tlc_vectors(ctx, "Pass", PASS % (n, dev), "pass%d" % n)
        groups = collections.defaultdict(list)
        for x in xs:
            groups[pass_class(x)].append(x)
        for c in sorted(groups, key=str):
            g = groups[c]
            one = all(x["dev"] <= 1 for x in g)
            if quick:
                k = 1
                if c[0] and one and not c[2]:
                    k = 8 if n == 2 else 10
                elif c[1] and one and not c[2]:
                    k = 4
                elif c[2] and n == 2 and not one:
                    k = 0           # one mix or the other
                elif c[2] and n == 3 and rng.random() < 0.5:
                    k = 0
                elif c[6] and (n == 2) == (c[6].endswith("ANN")):
                    k = 0
                elif c[0] == c[1] == "" and not any(c[2:]):
                    k = 4
            else:
                k = 40 if not c[2] else 8
            for x in rng.sample(g, min(k, len(g))):
                add(x, n)
    # honest tables of other sizes: the specification's Complete for any N
    for n in ((4, 5, 7, 12, 13, 26) if quick else (4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 26, 33, 52, 70)):
        for kind in ("ANN", "RE"):
            rows = [[int(i == j) for j in range(n)] for i in range(n)]
            add(dict(m=dict(kind=kind, rows=rows, keys=rng.sample(range(1, n + 1), n), alt="", omit=[], flag=True, garble=0, claim=False, lie=""), out="accept"), n)
    for n in (130, 260) if quick else (127, 128, 129, 130, 255, 256, 257, 260, 400):
        kinds = ["ANN", "RE"]
        rng.shuffle(kinds)
        for kind, how in zip(kinds, (0, rng.randrange(1, 5))):
            rows = [[int(i == j) for j in range(n)] for i in range(n)]
            keys = rng.sample(range(1, n + 1), n)
            i, j = rng.sample(range(n), 2)
            if how == 1:
                rows[i][j] = 1
            elif how == 2:
                keys[-1] = 0
            elif how > 2:
                keys[i] = keys[j]
            add(dict(m=dict(kind=kind, rows=rows, keys=keys, alt="", omit=[], flag=True, garble=0, claim=False, lie=""), out="reject" if how else "accept"), n)
    # provers who leave out one equation only, in longer tables
    for n in ((5, 11) if quick else (4, 5, 8, 11, 12, 13)):
        for eq, top in (("33", n), ("34", 1), ("35", 1), ("tieR", n), ("tieS", n), ("ss", 2 * n)):
            for i in ({rng.randrange(top), top - 1} if quick else range(top)):
                rows = [[int(i == j) for j in range(n)] for i in range(n)]
                add(dict(m=dict(kind=rng.choice(["ANN", "RE"]), rows=rows, keys=list(range(1, n + 1)), alt="", omit=[], flag=True, garble=0, claim=False,
                                lie="%s:%d" % (eq, i)), out="reject"), n)
    # and false ones: two rows mixed, a key twice, a foreign key at a random place
    for n in ((5, 12, 24, 52) if quick else (4, 5, 8, 12, 13, 20, 24, 33, 52, 70)):
        for kind in ("ANN", "RE"):
            for how in (range(3) if n < 20 or not quick else [rng.randrange(3)]):
                rows = [[int(i == j) for j in range(n)] for i in range(n)]
                keys = rng.sample(range(1, n + 1), n)
                i, j = rng.sample(range(n), 2)
                if how == 0:
                    rows[i][j] = 1
                else:
                    keys[i] = 0 if how == 1 else keys[j]
                add(dict(m=dict(kind=kind, rows=rows, keys=keys, alt="", omit=[], flag=True, garble=0, claim=False, lie=""), out="reject"), n)
    settle(ctx, violation, vecs, want, "table")


# ---------------------------------------------------------------------------
# C11, C13, C15: what a server draws at random

def chi2_limit(df, z=7.5):
    """Wilson-Hilferty, crossed by chance about once in 1e13"""
    return df * (1 - 2 / (9 * df) + z * math.sqrt(2 / (9 * df))) ** 3


def judge_orders(n, perms):
    """what is wrong with this many draws of an order of n, if anything"""
    R = len(perms)
    cell = collections.Counter((i, j) for p in perms for i, j in enumerate(p))
    if R >= 3 * n and n > 1:
        exp = R / n
        x = sum((cell[i, j] - exp) ** 2 / exp for i in range(n) for j in range(n))
        if x * (n - 1) / n > chi2_limit((n - 1) ** 2) * 1.15:
            return "some entry prefers some place"
        if n * n * (1 - 1 / n) ** R < 1e-10 and len(cell) < n * n:
            return "some entry never gets to some place"
    f = math.factorial(n)
    if f * (1 - 1 / f) ** R < 1e-9 and len(set(map(tuple, perms))) < f:
        return "some orders are never drawn"
    if f > 1e6 and R - len(set(map(tuple, perms))) > 1:
        return "orders are drawn again"
    if n >= 5:
        for name, d in (("neighbours stay together", 1), ("neighbours change places", n - 1)):
            s = sum(sum(1 for i in range(n - 1) if (p[i + 1] - p[i]) % n == d) for p in perms)
            if s > R + 8 * math.sqrt(R) + 20:
                return name
    return ""


def compose(a, b):
    return [a[i] for i in b]


def inverse(a):
    r = [0] * len(a)
    for i, j in enumerate(a):
        r[j] = i
    return r


def order_pairs(own):
    """orders drawn one after the other by the same server: within a round, from round to round, and at the same place of two servers"""
    yield "within a round", [p for d in own for p in zip(d["ANN"], d["RE"])]
    yield "into the next round", [p for d in own for p in zip(d["RE"], d["ANN"][1:])]
    for k in ("ANN", "RE"):
        for lag in (1, 2):
            yield "%s %d later" % (k, lag), [p for d in own for p in zip(d[k], d[k][lag:])]
        if len(own) > 1:
            yield "%s of another server" % k, [p for d, e in zip(own, own[1:]) for p in zip(d[k], e[k])]


def orders(ctx, violation):
    rng = random.Random(ctx.seed * 7919 + 11)
    quick = ctx.tier == "quick"
    plan = [(2, 40, 1), (3, 33, 4), (5, 33, 2), (12, 20, 4), (24, 20, 5)] if quick else [(2, 80, 1), (3, 100, 4), (4, 150, 6), (5, 60, 4), (8, 60, 4), (12, 80, 6), (14, 60, 4), (24, 80, 6), (40, 60, 6)]
    vecs = [dict(id="perm%d.%d" % (n, i), unit="perm", n=n, rounds=r, seed=rng.randrange(1 << 30)) for n, r, k in plan for i in range(k)]
    outs = run_vectors(ctx, vecs, par=7)
    for o in outs:
        if o["out"] != "drawn":
            again = run_vectors(ctx, [v for v in vecs if v["id"] == o["id"]], par=1, slow=True)[0]
            if again["out"] != "drawn":
                violation(ctx, [v for v in vecs if v["id"] == o["id"]][0], again, dict(wanted="drawn"), [again["out"]])
                return
    total = 0
    for n, r, k in plan:
        for kind in ("ANN", "RE"):
            perms = [p for o in outs if o["id"].startswith("perm%d." % n) and o["out"] == "drawn" for p in o["data"][kind]]
            total += len(perms)
            bad = judge_orders(n, perms)
            if bad:
                violation(ctx, dict(n=n, kind=kind, unit="perm", rounds=r), perms, dict(bad=bad), [bad])
                return
        # one order says nothing about another
        own = [o["data"] for o in outs if o["id"].startswith("perm%d." % n) and o["out"] == "drawn"]
        for name, pairs in order_pairs(own):
            for how, f in (("", compose), (" undone", lambda a, b: compose(inverse(a), b))):
                perms = [f(a, b) for a, b in pairs]
                total += len(perms)
                bad = judge_orders(n, perms)
                if bad:
                    bad = "%s%s: %s" % (name, how, bad)
                    violation(ctx, dict(n=n, unit="perm", rounds=r, pair=name + how), perms, dict(bad=bad), [bad])
                    return
    with ctx.lock:
        ctx.traces += total
        ctx.cov["orders_drawn"] = total
    ctx.log("orders", total, "drawn")


def fresh(ctx, violation):
    """exponents of several servers over several rounds: all different, none guessable"""
    rng = random.Random(ctx.seed * 7919 + 13)
    rounds, k = (8, 5) if ctx.tier == "quick" else (25, 10)
    # flag: an empty table goes through between the rounds
    vecs = [dict(id="fresh%d%s" % (i, "ab"[f]), unit="fresh", n=[2, 3, 1, 5, 12][i % 5], rounds=rounds, flag=bool(f), seed=rng.randrange(1 << 30))
            for i in range(k) for f in ((0, 1) if i < 3 or k > 5 else (i % 2,))]
    vecs += [dict(id="chain%d" % i, unit="chain", n=2, rounds=rounds // 2, seed=rng.randrange(1 << 30)) for i in range(2)]
    outs = settle(ctx, violation, vecs, {v["id"]: "fresh" for v in vecs}, "fresh")
    seen, n = {}, 0
    for o in outs:
        for x in (o.get("data") or {}).get("seen", []):
            n += 1
            if x["v"] in seen and not ctx.violations:
                violation(ctx, dict(unit="fresh", a=seen[x["v"]], b=[o["id"], x["what"]]), outs, {}, ["two servers drew the same"])
            seen[x["v"]] = [o["id"], x["what"]]
    with ctx.lock:
        ctx.cov["exponents_compared"] = n


def nonces(ctx, violation):
    rng = random.Random(ctx.seed * 7919 + 15)
    rounds, k = (25, 3) if ctx.tier == "quick" else (120, 6)
    vecs = [dict(id="sign%d" % i, unit="sign", rounds=rounds, seed=rng.randrange(1 << 30)) for i in range(k)]
    outs = settle(ctx, violation, vecs, {v["id"]: "fresh" for v in vecs}, "nonces")
    seen, n = {}, 0
    for o in outs:
        for x in (o.get("data") or {}).get("seen", []):
            n += 1
            if x in seen and not ctx.violations:
                violation(ctx, dict(unit="sign", a=seen[x], b=o["id"]), outs, {}, ["two servers drew the same nonce"])
            seen[x] = o["id"]
    with ctx.lock:
        ctx.cov["nonces_compared"] = n


# ---------------------------------------------------------------------------
# the libraries, linked into harnesses

def build_lib(ctx, name):
    out = "%s/%s" % (ctx.dir, name)
    cmd = ["go", "build", "-o", out]
    if REPO != "/repo":
        shutil.copy(VERIF + "/driver/go.sum", ctx.dir + "/lib.sum")
        open(ctx.dir + "/lib.mod", "w").write(open(VERIF + "/driver/go.mod").read().replace("=> /repo", "=> " + REPO))
        cmd.append("-modfile=" + ctx.dir + "/lib.mod")
    p = zr.sh(cmd + ["./cmd/" + name], VERIF + "/driver", zr.goenv())
    if p.returncode != 0:
        raise CheckError("build of %s failed:\n%s" % (name, p.stdout + p.stderr))
    return out


def run_lib(ctx, binary, vecs, par=6):
    d = tempfile.mkdtemp(dir=ctx.dir)
    json.dump(vecs, open(d + "/in.json", "w"))
    p = subprocess.run([binary, "-in", d + "/in.json", "-out", d + "/out.json", "-par", str(par),
                        "-limit", "200s" if ctx.tier == "quick" else "1200s"], capture_output=True, text=True, timeout=3000)
    if p.returncode != 0 or not os.path.exists(d + "/out.json"):
        raise CheckError("library harness failed: " + (p.stdout + p.stderr)[-3000:])
    l = json.load(open(d + "/out.json"))
    bad = [o for o in l if o.get("fault")]
    if bad:
        raise CheckError("library harness fault in %s: %s" % (bad[0]["id"], bad[0]["fault"][:2000]))
    return l


def settle_lib(ctx, violation, binary, vecs, want, what):
    by = {v["id"]: v for v in vecs}
    outs = run_lib(ctx, binary, vecs)
    diff = [o for o in outs if want[o["id"]] and o["out"] != want[o["id"]]]
    with ctx.lock:
        ctx.traces += len(outs)
        ctx.cov["library_vectors"] = ctx.cov.get("library_vectors", 0) + len(outs)
        if len(ctx.samples) < 5 and outs:
            ctx.samples.append(dict(vector=vecs[0], outcome=outs[0]["out"]))
    ctx.log(what, len(outs), "vectors,", len(diff), "differ")
    for o in diff[:1]:
        ctx.log("  ", o["id"], "wanted", want[o["id"]], "got", o["out"], o.get("note", ""))
        violation(ctx, by[o["id"]], o, dict(wanted=want[o["id"]]), [what])
    return outs


def even(counts, z=7.0):
    n = sum(counts)
    e = n / len(counts)
    return sum((c - e) ** 2 / e for c in counts) <= chi2_limit(len(counts) - 1, z)


def draws(ctx, violation):
    """the shuffle itself, drawn often enough to see a small preference"""
    try:
        b = build_lib(ctx, "libshuf")
    except CheckError as e:
        ctx.notes.append("library harness does not build: " + str(e)[:300].replace("\n", " "))
        return
    rng = random.Random(ctx.seed * 7919 + 21)
    plan = [(2, 500, 6), (3, 1500, 8), (4, 1000, 6)] if ctx.tier == "quick" else [(2, 2000, 16), (3, 4000, 16), (4, 4000, 16), (5, 4000, 16), (12, 1000, 16)]
    vecs = [dict(id="draw%d.%d" % (n, i), n=n, reps=r, seed=rng.randrange(1 << 30)) for n, r, k in plan for i in range(k)]
    outs = settle_lib(ctx, violation, b, vecs, {v["id"]: "drawn" for v in vecs}, "shuffle")
    if ctx.violations:
        return
    for n, r, k in plan:
        perms = [tuple(p) for o in outs if o["id"].startswith("draw%d." % n) for p in o["data"]["perms"]]
        bad = judge_orders(n, perms)
        if n <= 5:
            c = collections.Counter(perms)
            if not even([c[p] for p in itertools.permutations(range(n))], 7.5):
                bad = bad or "some orders are drawn more often than others"
        # and each draw says nothing about the next one
        if n <= 3:
            c = collections.Counter(zip(perms, perms[1:]))
            if not even([c[p, q] for p in itertools.permutations(range(n)) for q in itertools.permutations(range(n))], 8):
                bad = bad or "an order says something about the next one"
        if bad:
            violation(ctx, dict(n=n, unit="draw", draws=len(perms)), collections.Counter(map(str, perms)).most_common(30), dict(bad=bad), [bad])
            return
    with ctx.lock:
        ctx.cov["orders_drawn_from_library"] = sum(r * k for n, r, k in plan)


def ringsigs(ctx, violation):
    rng = random.Random(ctx.seed * 7919 + 17)
    quick = ctx.tier == "quick"
    b = build_lib(ctx, "liblrs")
    vecs, want = [], {}
    for n in ((3,) if quick else (3, 5)):
        xs = tlc_vectors(ctx, "Lrs", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN=%d\nINVARIANTS Sound Complete Show\n" % n, "lrs%d" % n)
        for x in xs:
            for r in range(2 if quick else 6):
                v = dict(id="lrs%d.%d" % (n, len(vecs)), unit="lrs", c=x["c"], msg=-1, seed=rng.randrange(1 << 30))
                vecs.append(v)
                want[v["id"]] = x["out"]
                if not x["c"]["omit"] and not r and (x["c"]["alter"][0] == "m" or rng.random() < 0.02):
                    v = dict(v, id=v["id"] + "l", msg=rng.choice([5000, 20000, 70000, 400000]) + rng.randrange(64))
                    vecs.append(v)
                    want[v["id"]] = x["out"]
                if x["c"]["omit"] and (x["c"]["t"] != "own" or x["c"]["tag"] != "own" or x["c"]["alter"][0] in ("m", "y0solve", "y")) and not r:
                    v = dict(v, id=v["id"] + "t")
                    v["try"] = True
                    vecs.append(v)
                    want[v["id"]] = x["out"]
    for n in ((1, 2, 3, 4, 7, 12, 130) if quick else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 25, 40, 127, 128, 129, 256, 260)):
        for r in range(3):
            v = dict(id="pairs%d.%d" % (n, r), unit="lrspairs", n=n, msg=-1, seed=rng.randrange(1 << 30))
            vecs.append(v)
            want[v["id"]] = "linked right"
    for n in (2, 3, 5):
        v = dict(id="hist%d" % n, unit="lrshist", n=n, reps=240 if quick else 2400, msg=20, seed=rng.randrange(1 << 30))
        vecs.append(v)
        want[v["id"]] = "counted"
    outs = settle_lib(ctx, violation, b, vecs, want, "ring signature")
    for o in outs:
        for name, x in ((o.get("data") or {}).get("bins") or {}).items():
            if not even(x[:8]) or not even(x[8:]):
                violation(ctx, dict(unit="lrshist", id=o["id"]), x, dict(wanted="even"), ["the signer shows in " + name])
                return


# ---------------------------------------------------------------------------
# C03, C04, C14, C15: requests, signatures and the honesty test in the libraries

def zk(ctx):
    """The harness, or None if the packages' functions have changed: then real nodes decide alone."""
    with ctx.lock:
        if not hasattr(ctx, "zkbin"):
            try:
                ctx.zkbin = build_lib(ctx, "libzk")
            except CheckError as e:
                ctx.zkbin = None
                ctx.notes.append("library harness does not build: " + str(e)[:300].replace("\n", " "))
    return ctx.zkbin


def vec(l, want, out, **kw):
    kw["id"] = "%s%d" % (kw["unit"], len(l))
    l.append(kw)
    want[kw["id"]] = out


def requests(ctx, violation):
    b = zk(ctx)
    if not b:
        return
    rng = random.Random(ctx.seed * 7919 + 3)
    quick = ctx.tier == "quick"
    xs = tlc_vectors(ctx, "Request", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxRep=3\nMaxInd=5\nQm=31\nMaxLies=%d\nINVARIANTS Sound Complete Show\n"
                     % (1 if quick else 2), "request")
    l, want = [], {}
    for x in xs:
        for k in ((rng.choice([1, 7, 60]),) if quick else (1, 13, 200)):
            c = dict(x["c"])
            for f in ("rep", "ind", "indC", "off"):
                c[f] *= k
            if c["pd"] > 0:
                c["pd"] *= k
            vec(l, want, x["out"], unit="req", c=c, rounds=rng.randrange(4), seed=rng.randrange(1 << 30))
    settle_lib(ctx, violation, b, l, want, "request")
    if ctx.violations:
        return
    l, want = [], {}
    whats = ["nn." + f for f in ("Commitrx", "C", "Cr", "R", "X_", "A_", "B_", "D_", "R_")] + ["eq." + f for f in ("C", "S1", "S2", "S3")]
    whats += ["ind", "PCommd", "PCommind", "rind", "FOCommd", "shift"] + ["stale." + f for f in ("comm", "pb", "GT", "HT", "nil")]
    whats += ["whole." + f for f in ("arg_equal", "arg_nonneg", "FOCommd", "FOCommd+arg_nonneg", "FOCommd+arg_equal", "FOCommd+arg_nonneg+arg_equal",
                                     "PCommd", "PCommd+arg_equal", "PCommd+arg_equal+FOCommd+arg_nonneg", "PCommind+rind", "PCommind+rind+PCommd")]
    for w in whats:
        for r in range(2 if quick else 12):
            rep = rng.randrange(1, 30)
            vec(l, want, "reject", unit="tamper", what=w, rep=rep, ind=rng.randrange(rep + 1), rounds=rng.randrange(3), seed=rng.randrange(1 << 30))
    settle_lib(ctx, violation, b, l, want, "tampered request")


def grants(ctx, violation):
    """the honest prover and the verifier: every difference, all kinds of numbers"""
    b = zk(ctx)
    if not b:
        return
    rng = random.Random(ctx.seed * 7919 + 4)
    quick = ctx.tier == "quick"
    l, want = [], {}

    def add(rep, ind, rounds=None, lead=""):
        vec(l, want, "accept", unit="honest", rep=rep, ind=ind, rounds=rng.randrange(4) if rounds is None else rounds, lead=lead, seed=rng.randrange(1 << 30))
    top = 200 if quick else 700
    for d in range(top):
        i = rng.choice([0, 1, 5, rng.randrange(300)])
        add(d + i, i)
    for d in [255, 256, 257, 511, 512, 1023, 1024, 4094, 4095] + [rng.randrange(300, 3000) for _ in range(12 if quick else 60)]:
        add(d, 0) if rng.random() < .5 else add(d + 7, 7)
    for lead in ("PCommind", "PCommd", "rind", "FOCommd", "nonneg", "equal"):
        for _ in range(2 if quick else 10):
            rep = rng.randrange(1, 40)
            add(rep, rng.randrange(rep + 1), lead=lead)
    for r in (1, 2, 5, 12):
        add(5, 5, rounds=r)
        add(5, 0, rounds=r)
    settle_lib(ctx, violation, b, l, want, "honest request")


SIGCFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen=%d\nMaxLies=%d\nINVARIANTS Sound Complete Show\n"


def signatures(ctx, violation):
    b = zk(ctx)
    if not b:
        return
    rng = random.Random(ctx.seed * 7919 + 5)
    quick = ctx.tier == "quick"
    l, want = [], {}
    plan = [(3, 1, (1, 32, 700)), (2, 2, (16, 64))] if quick else [(4, 1, (1, 16, 32, 64, 136, 1000, 5000)), (2, 2, (1, 16, 33, 64, 136, 2500)), (2, 3, (20, 1000))]
    for n, lies, sizes in plan:
        xs = tlc_vectors(ctx, "Sig", SIGCFG % (n, lies), "sig%d.%d" % (n, lies))
        if quick and len(xs) > 500:
            xs = [x for x in xs if x["out"] == "accept"] + rng.sample(xs, 500)
        for x in xs:
            for z in ((rng.choice(sizes),) if quick and n == 2 else sizes):
                vec(l, want, x["out"], unit="sig", c=x["c"], block=z, what=rng.choice(["std", "", ""]), seed=rng.randrange(1 << 30))
        if n > 2:    # messages of any size
            only = [x for x in xs if x["c"]["alt"] == "none" and x["c"]["key"] == x["c"]["base"] == "same"]
            for z in (5500, 20000, 70000, 400000):
                for x in rng.sample(only, min(len(only), 12 if quick else 60)):
                    vec(l, want, x["out"], unit="sig", c=x["c"], block=z + rng.randrange(64), what=rng.choice(["std", ""]), seed=rng.randrange(1 << 30))
    for lead in "cr":
        for _ in range(3 if quick else 20):
            vec(l, want, "accept", unit="sig", c=dict(m=[1, 1], v=[1, 1], key="same", base="same", alt="none"), lead=lead, block=40, seed=rng.randrange(1 << 30))
    at = 0
    while at < 600 if quick else at < 6000:
        vec(l, want, "right", unit="sigmany", ind=at, rounds=20, seed=rng.randrange(1 << 30))
        at += 20
    for at in (1020, 1350, 2047, 4090, 5000):
        vec(l, want, "right", unit="sigmany", ind=at, rounds=8, seed=rng.randrange(1 << 30))
    settle_lib(ctx, violation, b, l, want, "signature")


HONCFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Gens={1,2}\nW=2\nMaxSteps=%d\nINVARIANTS Sound Complete Show\n"


def judge_challenges(l):
    """what is wrong with these challenges of 480 bits, if anything"""
    n = len(l)
    if any(len(x) != 480 for x in l):
        return "a challenge has not 480 bits"
    if len(set(l)) < n:
        return "a challenge is drawn twice"
    blocks = [x[80 * i:80 * i + 80] for x in l for i in range(6)]
    if len(set(blocks)) < len(blocks):
        return "a challenge repeats for another generator"
    ones = sum(x.count("1") for x in l)
    if abs(ones - n * 240) > 7.5 * math.sqrt(n * 120):
        return "challenges prefer a bit"
    if n >= 12:
        for i in range(480):
            k = sum(x[i] == "1" for x in l)
            if abs(k - n / 2) > 7.5 * math.sqrt(n / 4) or (n >= 60 and k in (0, n)):
                return "place %d of the challenges prefers a bit" % i
    # linear dependence: a challenge made from few bits
    piv = {}
    rank = 0
    for x in l[:400]:
        v = int(x, 2)
        while v:
            h = v.bit_length()
            if h not in piv:
                piv[h] = v
                rank += 1
                break
            v ^= piv[h]
    if rank < min(n, 400):
        return "challenges are sums of others"
    return ""


def honesty(ctx, violation):
    rng = random.Random(ctx.seed * 7919 + 14)
    quick = ctx.tier == "quick"
    xs = tlc_vectors(ctx, "Honesty", HONCFG % (3 if quick else 4), "honesty")
    b = zk(ctx)
    if b:
        l, want = [], {}
        cs = [x for x in xs if "bits" in x]
        if quick:
            ok = [x for x in cs if x["out"] == "pass"]
            cs = rng.sample(ok, 20) + [x for x in cs if x["off"] != "none" and sum(map(sum, x["bits"])) in (0, 4)] + rng.sample(cs, 60)
        for x in cs:
            vec(l, want, x["out"], unit="gn", c=x, seed=rng.randrange(1 << 30))
        vec(l, want, "pass", unit="gnhonest", rounds=3 if quick else 8, seed=1)
        vec(l, want, "drawn", unit="chal", rounds=400, seed=1)
        for o in settle_lib(ctx, violation, b, l, want, "honesty test"):
            if o.get("data"):
                bad = judge_challenges(o["data"]["chal"])
                if bad and not ctx.violations:
                    violation(ctx, dict(unit="chal"), o, dict(bad=bad), [bad])
        if ctx.violations:
            return
    qs = [x for x in xs if "q" in x and x["out"] != "any"]
    seen = {}
    for x in qs:
        seen.setdefault((tuple(x["q"]), x["out"]), x)
    qs = list(seen.values())
    if quick:
        short = [x for x in qs if len(x["q"]) <= 2]
        rest = [x for x in qs if len(x["q"]) > 2]
        qs = short + rng.sample(rest, min(len(rest), 40))
    vecs, want = [], {}
    for x in qs:
        for r in range(1 if quick else 2):
            v = dict(id="cli%d" % len(vecs), unit="client", steps=x["q"], seed=rng.randrange(1 << 30))
            vecs.append(v)
            want[v["id"]] = x["out"]
    outs = settle(ctx, violation, vecs, want, "client", par=7)
    chal = [c for o in outs for c in ((o.get("data") or {}).get("chal") or [])]
    bad = judge_challenges(chal)
    ctx.log(len(chal), "challenges of clients", bad)
    with ctx.lock:
        ctx.cov["challenges_judged"] = len(chal)
    if bad and not ctx.violations:
        violation(ctx, dict(unit="client"), chal, dict(bad=bad), [bad])


HIDEGUARDS = ("fresh", "wide", "own")
HIDECFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxRep=%d\nMaxAsk=%d\nMaxE=2\nG<-Full\nINVARIANTS Hidden Rare\n"


def needed(ctx, module, consts, invs, rules):
    """each rule of a specification is needed: TLC finds what goes wrong without it"""
    def one(g):
        mod = "---- MODULE M ----\nEXTENDS %s\nLess == Guards \\ {\"%s\"}\n====\n" % (module, g)
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\nG<-Less\nINVARIANTS %s\n" % (consts, invs)
        out, rc, t = zr.tlc(ctx, mod, cfg, timeout=300)
        if "is violated" not in out and "is equal to FALSE" not in out:
            raise CheckError("spec/%s.tla: nothing goes wrong without %s: %s" % (module, g, out[-1500:]))
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(one, rules))
    ctx.cov["rules_needed"] = list(rules)
    ctx.log("each of", len(rules), "rules is needed")


def judge_masks(outs, exact):
    """what the responses of these proofs show, if anything; exact: all secrets are known, so that the masks themselves are"""
    vals = collections.defaultdict(list)
    for o in outs:
        for k, l in o["data"]["seen"].items():
            vals[k] += [int(x, 16) for x in l]
    n = int(outs[0]["data"]["n"], 16).bit_length()
    q = int(outs[0]["data"].get("q", "0"), 16)
    # two responses with one mask to two challenges give their secret away, whatever it is
    ez = list(zip(vals.pop("=e", []), vals.pop("=z", [])))
    for i, (e, z) in enumerate(ez):
        for f, w in ez[:i]:
            if (z - w) % (e - f or e) == 0:
                return "two responses give their secret away"
    M, C, x = 64, 256, 16                 # margin, challenge, what is left of a reputation
    blind = n + 64                        # blinding values of commitments: wider than the group's order
    rf = n + 81
    need = dict(rx=x + C + M, A_=x + C + M, B_=x + C + M, D_=x + C + M, t1=x + C + M, R_=rf + C + M, rrx=rf + C + M, t3=rf + C + M, rf=blind)
    if vals.get("S2") and all(0 <= v < q for v in vals["S2"]):
        need["t2"] = q.bit_length() - 6
    elif vals.get("S2"):
        need["t2"] = q.bit_length() + C + M
    if vals.get("gamma"):
        need["gamma"] = max(v.__abs__().bit_length() for v in vals["alpha"]) + M
    for k, l in sorted(vals.items()):
        if k in ("S2", "alpha"):
            continue
        if len({abs(v) for v in l}) < len(l):
            return "%s is used twice" % k
        if k in need:
            wide = sum(abs(v).bit_length() >= need[k] for v in l)
            if wide * 8 < len(l) * 7:
                return "%s is too narrow: %d bits, wanted %d" % (k, max(abs(v).bit_length() for v in l), need[k])
            low = sum(bin(abs(v) & (2 ** 64 - 1)).count("1") for v in l)
            if abs(low - 32 * len(l)) > 8 * math.sqrt(16 * len(l)) + 4:
                return "%s prefers some bits" % k
    return ""


def once(ctx, violation, outs, what, bits):
    """blinding values of many proofs: none comes twice, and they use the whole range"""
    if ctx.violations:
        return
    l = [x for o in outs for x in o["data"]["seen"]]
    bad = ""
    if len(set(l)) < len(l):
        bad = "%s: a value is used twice" % what
    elif bits and sum(int(x, 16).bit_length() >= bits for x in l) * 8 < len(l) * 7:
        bad = "%s: too narrow" % what
    ctx.log(what, len(l), bad or "hide")
    with ctx.lock:
        ctx.cov["blinding_values_compared"] = ctx.cov.get("blinding_values_compared", 0) + len(l)
    if bad:
        violation(ctx, dict(unit=what), outs, dict(bad=bad), [bad])


def others(ctx, violation, rng, quick):
    """the proofs of passes and the ring signatures"""
    for lib, unit, out, what, bits in (("libshuf", "proofs", "proved", "proof of a pass", 0), ("liblrs", "lrsmasks", "signed", "ring signature", 500)):
        try:
            b = build_lib(ctx, lib)
        except CheckError as e:
            ctx.notes.append("library harness does not build: " + str(e)[:300].replace("\n", " "))
            continue
        l = [dict(id="%s%d.%d" % (unit, n, i), unit=unit, n=n, reps=6 if quick else 40, msg=20, seed=rng.randrange(1 << 30)) for n in ((2, 3, 6) if quick else (2, 3, 4, 6, 9, 14)) for i in range(2)]
        outs = settle_lib(ctx, violation, b, l, {v["id"]: out for v in l}, what)
        once(ctx, violation, outs, what, bits)


def masks(ctx, violation):
    """what the responses of proofs add to what they hide"""
    rng = random.Random(ctx.seed * 7919 + 19)
    quick = ctx.tier == "quick"
    needed(ctx, "Hide", "MaxRep=2\nMaxAsk=2\nMaxE=2", "Hidden Rare", HIDEGUARDS)
    xs = tlc_vectors(ctx, "Hide", HIDECFG % ((2, 2) if quick else (3, 2)), "hide", tag="ASK")
    b = zk(ctx)
    if b:
        l, want = [], {}
        for x in xs if quick else xs * 4:
            k = rng.choice([1, 1, 5, 40])
            vec(l, want, "drawn", unit="masks", rep=x["rep"] * k, ind=x["ind"][0] * k, rounds=rng.randrange(3), block=8, seed=rng.randrange(1 << 30))
        for _ in range(2 if quick else 6):
            vec(l, want, "drawn", unit="gammas", block=2, seed=rng.randrange(1 << 30))
        outs = settle_lib(ctx, violation, b, l, want, "masks")
        # the same again in another process
        outs2 = settle_lib(ctx, violation, b, l[:6] + l[-1:], want, "masks again")
        if ctx.violations:
            return
        by = {v["id"]: v["unit"] for v in l}
        for u in ("masks", "gammas"):
            if u == "gammas":       # a base of its own each
                bad = next((w for w in (judge_masks([o], True) for o in outs + outs2 if by[o["id"]] == u) if w), "")
            else:
                bad = judge_masks([o for o in outs + outs2 if by[o["id"]] == u], True)
            ctx.log(u, bad or "hide")
            if bad:
                violation(ctx, dict(unit=u), [o for o in outs + outs2 if by[o["id"]] == u], dict(bad=bad), [bad])
                return
    # real clients, asked as the specification's members ask
    qs = [x["ind"] for x in xs if len(x["ind"]) == 2]
    vecs, want = [], {}
    for i in range(4 if quick else 16):
        keys = [min(5, k) for a in rng.sample(qs, min(len(qs), 3)) for k in a] + [0, 5, 0]
        v = dict(id="asks%d" % i, unit="asks", steps=["conf", "right"], keys=keys, rounds=2 if quick else 4, seed=rng.randrange(1 << 30))
        vecs.append(v)
        want[v["id"]] = "drawn"
    outs = settle(ctx, violation, vecs, want, "asking client", par=4)
    if not ctx.violations:
        bad = judge_masks(outs, False)
        ctx.log("asking clients", bad or "hide")
        if bad:
            violation(ctx, dict(unit="asks"), outs, dict(bad=bad), [bad])
    if not ctx.violations:
        others(ctx, violation, rng, quick)
    with ctx.lock:
        ctx.cov["masks_judged"] = sum(len(v) for o in outs for v in (o.get("data") or {}).get("seen", {}).values())


CODECCFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen=%d\nMaxMsgs=2\nG<-Full\nINVARIANTS Read1 Arrives Show\n"
CODECS = dict(fixed=["point", "secret", "points", "secrets", "asg", "asgs", "secbig", "ptbig"],
              counted=["big", "bigs", "fo", "foarray", "int4", "bools", "blobs", "blobs2", "event", "send", "ring"],
              signed=["big", "bigs", "nonneg", "equal", "ring", "ints"])


CODECGUARDS = ("pad", "length", "sign", "order", "keepzero", "whole", "reset", "own")


def codec(ctx, violation):
    """what one node encodes and sends is what the other reads and decodes"""
    needed(ctx, "Codec", "MaxLen=2\nMaxMsgs=2", "Read1 Arrives", CODECGUARDS)
    try:
        b = build_lib(ctx, "libcodec")
    except CheckError as e:
        ctx.notes.append("library harness does not build: " + str(e)[:300].replace("\n", " "))
        return
    rng = random.Random(ctx.seed * 7919 + 18)
    quick = ctx.tier == "quick"
    xs = tlc_vectors(ctx, "Codec", CODECCFG % (2 if quick else 3), "codec", tag="VAL")
    l, want = [], {}
    one = {"point", "secret", "big", "fo", "int4", "secbig", "ptbig", "nonneg", "equal", "asg"}
    for u in sorted(set(sum(CODECS.values(), []))):
        fs = [f for f in CODECS if u in CODECS[f]]
        mine = [x for x in xs if x["f"] in fs]
        if u in one:
            mine = [x for x in mine if len(x["v"]) == 1]
        elif u in ("nonneg", "equal"):
            pass
        elif quick and len(mine) > 160:
            mine = [x for x in mine if len(x["v"]) < 2] + rng.sample(mine, 100)
        elif len(mine) > 1200:
            mine = [x for x in mine if len(x["v"]) < 2] + rng.sample(mine, 300 if u == "asgs" else 1200)
        if quick and u in ("send", "points", "secrets", "asgs"):
            mine = rng.sample(mine, min(24 if u == "asgs" else 40, len(mine)))
        for x in mine:
            reps = (1,) if u in one else (1, rng.choice([2, 7] if u == "asgs" else [2, 7, 40, 127]))
            for r in reps * (1 if quick else 3):
                vec(l, want, "same", unit=u, v=x["v"], rep=r, size=rng.choice([1, 3, 127, 1000]), seed=rng.randrange(1 << 30))
        # long ones
        if u not in one:
            long = [x for x in mine if x["v"]]
            for x in rng.sample(long, min(len(long), (2 if u == "asgs" else 4) if quick else 12)):
                big = u in ("blobs", "blobs2", "event", "send", "asgs")
                vec(l, want, "same", unit=u, v=x["v"], rep=rng.choice([30] if u == "asgs" else [3, 20] if big else ([60, 150] if u in ("points", "secrets") else [300, 700]) if quick else [700, 1500]), size=rng.choice([3000, 40000]), seed=rng.randrange(1 << 30))
        # longer than sixteen bits count, and bigger
        huge = [x for x in mine if x["v"]]
        if u in ("ints", "bools", "blobs", "blobs2", "bigs") and huge:
            vec(l, want, "same", unit=u, v=rng.choice(huge)["v"], rep=rng.choice([32769, 65537]), size=1, seed=rng.randrange(1 << 30))
        if u in ("asg", "blobs", "event", "send") and huge:
            for size in (65537, 200000):
                vec(l, want, "same", unit=u, v=rng.choice(huge)["v"], rep=1, size=size, seed=rng.randrange(1 << 30))
    settle_lib(ctx, violation, b, l, want, "codec")


UNITS = dict(C03=[requests], C04=[grants], C11=[fresh, orders, draws], C12=[shuffles], C13=[fresh], C14=[honesty], C15=[nonces, signatures], C17=[ringsigs], C18=[codec], C19=[masks])


def run(ctx, prop, violation):
    for f in UNITS.get(prop, []):
        f(ctx, violation)
