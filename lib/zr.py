"""Building, running TLC, running scenarios on the real nodes, judging traces."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZREP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJ = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

ALL = ["status", "postMember", "postSig", "postDup", "reqMember", "reqSig", "reqInd", "reqD", "reqNonneg",
       "reqBind", "reqEqual", "reqBound", "onlyUnused", "markUsed", "atMostInd", "gotPending", "gotSig",
       "gotDup", "gotEach", "reqAddr", "voteMember", "voteSig", "voteSign", "voteReq", "voteCerts", "voteFb", "voteProv", "voteDup", "cliSig",
       "settleDiff", "regQueue", "regWait", "regDup", "regValid", "srvQueue", "srvPhase", "srvWait", "newKey",
       "honOnce", "honFirst"]
BUD = dict(enter=0, post=0, get=0, vote=0, inj=0, replay=0, gone=0, late=0)
INVS = ["TableOK", "ClientOK", "LedgerOK", "GrantOK", "SignOK", "CompleteOK", "BridgeOK", "CertOK", "CertTo", "CertOnce", "OwnVoteOK",
        "VoteCountOK", "PhaseOK", "FreshOK", "ChainOK", "HonestOK", "NoCrash", "QuietOK"]


class CheckError(Exception):
    """The check itself could not be carried out."""


def goenv():
    e = dict(os.environ)
    go = "/opt/veriftools/go1.27.3/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", CGO_ENABLED="1", GOSUMDB="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    if os.path.isdir(go):
        e["PATH"] = go + ":" + e["PATH"]
    return e


class Ctx:
    """One run of a check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="zrv")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.vectors = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.notes = []
        self.lock = threading.Lock()
        self.rng = random.Random(seed * 1000003 + hash_str(prop))

    def log(self, *a):
        print("[%6.1f]" % (time.time() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def children():
    """processes this one has started, and those they have"""
    up = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                up[int(d)] = int(open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()[1])
            except (OSError, ValueError, IndexError):
                pass
    res, more = [], {os.getpid()}
    while more:
        more = {p for p, q in up.items() if q in more}
        res += more
    return res


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % (1 << 31)
    return h


# --------------------------------------------------------------------------
# building

def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p


def build(ctx, race=False):
    env = goenv()
    outs = {}
    jobs = [("main", ["go", "build", "-o", ctx.dir + "/main", "./cmd"], REPO),
            ("drv", ["go", "build", "-o", ctx.dir + "/drv", "./cmd/drv"], VERIF + "/driver")]
    if race:
        jobs.append(("race", ["go", "build", "-race", "-o", ctx.dir + "/main.race", "./cmd"], REPO))
    for nm, cmd, cwd in jobs:
        p = sh(cmd, cwd, env)
        if p.returncode != 0:
            raise CheckError("build of %s failed:\n%s" % (nm, p.stdout + p.stderr))
    ctx.bin, ctx.drv = ctx.dir + "/main", ctx.dir + "/drv"


# --------------------------------------------------------------------------
# TLC

def tla_set(xs):
    return "{" + ",".join('"%s"' % x for x in xs) + "}"


def tla_seq(xs):
    return "<<" + ",".join('"%s"' % x for x in xs) + ">>"


def tlc(ctx, module_text, cfg_text, extra=(), workers=2, heap="2g", timeout=600, env=None):
    d = tempfile.mkdtemp(dir=ctx.dir)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    open(d + "/M.tla", "w").write(module_text)
    open(d + "/M.cfg", "w").write(cfg_text)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + d, "-cp", TLAJ, "tlc2.TLC",
           "-metadir", d + "/st", "-config", "M.cfg", "-workers", str(workers)] + list(extra) + ["M.tla"]
    e = dict(os.environ)
    if env:
        e.update(env)
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT", -1
    shutil.rmtree(d, ignore_errors=True)
    return out, rc, time.time() - t


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def cluster_mc(ctx, fam, guards=ALL, mode="mc", depth=0, num=1, seed=1, urgent=False, workers=2, timeout=600, heap="3g", inv=None):
    b = dict(BUD)
    b.update(fam.get("bud", {}))
    mod = """---- MODULE M ----
EXTENDS ZRepMC
GuardsV == %s
SrvSeqV == %s
CliSeqV == %s
BudgetV == [%s]
InjV == %s
====
""" % (tla_set(guards), tla_seq(fam["srv"]), tla_seq(fam.get("cli", [])),
       ",".join("%s |-> %d" % kv for kv in b.items()), tla_set(fam.get("inj", [])))
    cfg = """SPECIFICATION %s
CHECK_DEADLOCK FALSE
CONSTANTS Guards <- GuardsV
 SrvSeq <- SrvSeqV
 CliSeq <- CliSeqV
 Budget <- BudgetV
 Inj <- InjV
 Pre = "%s"
 Urgent = %s
 Depth = %d
 MaxRd = %d
""" % ({"mc": "Spec", "sim": "SimSpec", "cex": "SpecH"}[mode], fam["pre"], "TRUE" if urgent or mode != "mc" else "FALSE", depth, fam.get("maxrd", 9))
    if mode != "sim":
        cfg += "VIEW View\n"
    for i in ({"mc": inv or INVS, "sim": [], "cex": ["Attack"]}[mode]):
        cfg += "INVARIANT %s\n" % i
    extra = []
    if mode == "sim":
        extra = ["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed)]
    return tlc(ctx, mod, cfg, extra, workers, heap, timeout)


def scns(out):
    return [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SCN (.*)"', out)]


def exhaustive(ctx, name, fam, timeout=900, workers=2, heap="3g"):
    out, rc, t = cluster_mc(ctx, fam, mode="mc", workers=workers, timeout=timeout, heap=heap)
    g, d = counts(out)
    if "No error has been found" not in out:
        raise CheckError("TLC on family %s: %s" % (name, out[-3000:]))
    with ctx.lock:
        ctx.states += d
        ctx.transitions += g
        ctx.cov.setdefault("families", {})[name] = {"states": d, "generated": g, "seconds": round(t, 1)}
    ctx.log("exhaustive", name, d, "states", round(t, 1), "s")


def counterexample(ctx, guard, fam, timeout=600):
    """The spec without one check: TLC has to find an attack."""
    gs = [x for x in ALL if x != guard and not (guard == "voteMember" and x == "voteProv")]
    out, rc, t = cluster_mc(ctx, fam, guards=gs, mode="cex", workers=2, timeout=timeout)
    s = scns(out)
    if not s:
        raise CheckError("no counterexample without %s: %s" % (guard, out[-2000:]))
    g, d = counts(out)
    with ctx.lock:
        ctx.states += d
        ctx.transitions += g
        ctx.cov.setdefault("guards", {})[guard] = {"steps": len(s[0]["ev"]), "states": d}
    ctx.log("attack on", guard, len(s[0]["ev"]), "steps", round(t, 1), "s")
    return s[0]


def simulate(ctx, name, fam, num, depth, seed):
    if num <= 0:
        return []
    out, rc, t = cluster_mc(ctx, fam, mode="sim", depth=depth, num=num, seed=seed, workers=1)
    s = scns(out)
    if len(s) < num:
        raise CheckError("simulation of %s gave %d of %d scenarios: %s" % (name, len(s), num, out[-3000:]))
    g, d = counts(out)
    with ctx.lock:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            ctx.transitions += int(m[-1].replace(",", ""))
    ctx.log("simulated", name, len(s), "behaviours", round(t, 1), "s")
    return s[:num]


# --------------------------------------------------------------------------
# scenarios on the real nodes

def drive(ctx, scenarios, slow=False, par=14, binary=None, budget=None, cut="some", ports=None):
    if not scenarios:
        return []
    with ctx.lock:
        ctx.drives = n = getattr(ctx, "drives", 0) + 1
    fin, fout = "%s/drive%d.in.json" % (ctx.dir, n), "%s/drive%d.out.json" % (ctx.dir, n)
    json.dump(scenarios, open(fin, "w"))
    tmp = tempfile.mkdtemp(dir=ctx.dir)
    cmd = [ctx.drv, "-bin", binary or ctx.bin, "-in", fin, "-out", fout, "-par", str(par), "-tmp", tmp,
           "-ports", str((os.getpid() * 131 + n * 977) % 1900 if ports is None else ports)]
    if slow:
        cmd.append("-slow")
    if budget:
        cmd += ["-budget", "%ds" % budget]
    p = subprocess.run(cmd + ["-cut", cut], capture_output=True, text=True, timeout=3600)
    shutil.rmtree(tmp, ignore_errors=True)
    if p.returncode != 0 or not os.path.exists(fout):
        raise CheckError("driver failed: " + (p.stdout + p.stderr)[-3000:])
    l = json.load(open(fout))
    os.remove(fin)
    os.remove(fout)
    return l


def judge(ctx, traces, workers=4):
    """Trace validation with TLC; returns id -> verdict."""
    if not traces:
        return {}
    f = tempfile.mktemp(dir=ctx.dir, suffix=".json")
    json.dump([{"id": t["id"], "ev": t["ev"] or []} for t in traces], open(f, "w"))
    out, rc, t = tlc(ctx, "---- MODULE M ----\nEXTENDS ZRepTrace\nGuardsV == AllGuards\n====\n",
                     "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Guards <- GuardsV\n",
                     workers=workers, heap="4g", timeout=1800, env={"TRACES": f})
    os.remove(f)
    v = {}
    for x in re.findall(r'"TRC (.*)"', out):
        r = json.loads(x.replace('\\"', '"'))
        v[r["id"]] = r
    if len(v) < len(traces) or "No error has been found" not in out:
        missing = [t["id"] for t in traces if t["id"] not in v]
        raise CheckError("trace validation failed for %s: %s" % (missing[:5], out[-3000:]))
    g, d = counts(out)
    with ctx.lock:
        ctx.states += d
        ctx.transitions += g
    return v


# --------------------------------------------------------------------------
# small builders for directed scenarios

D = {"a": "drain"}
EN = {"a": "enter"}


def srv(n):
    return [{"a": "srv", "i": "S%d" % (i + 1)} for i in range(n)]


def cli(k):
    return {"a": "cli", "k": k}


def post(k, b):
    return {"a": "post", "k": k, "b": b}


def get(k, n):
    return {"a": "get", "k": k, "n": n}


def vote(k, j, v):
    return {"a": "vote", "k": k, "j": j, "v": v}


def dlv(f, t):
    return {"a": "dlv", "f": f, "t": t}


def inj(m, as_="E", to=None, v=None):
    m = dict(m)
    if v is not None:
        m["v"] = v
    e = {"a": "inj", "as": as_, "m": m}
    if to:
        e["to"] = to
    return e


def nym(o, ep):
    return {"o": o, "kx": [["*", ep]] if ep >= 0 else []}


GHOST = {"o": "E", "kx": [["none", 0]]}


def open_round(n, clients):
    """servers up, clients registered, their first round open (epoch 1)"""
    return srv(n) + [D, EN, D] + [cli(k) for k in clients] + [D, EN, EN, D]
