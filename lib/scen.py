"""Scenario families for TLC and directed scenarios built from the specification's injection classes."""
from zr import D, EN, srv, cli, post, get, vote, dlv, inj, nym, GHOST, open_round

# families for exhaustive exploration and counterexamples (small constants)
F = dict(
    setup=dict(srv=["S1", "S2"], cli=[], pre="none", bud=dict(enter=1, late=1), maxrd=1),
    setup3=dict(srv=["S1", "S2", "S3"], cli=[], pre="none", bud=dict(enter=1, late=1), maxrd=1),
    reg=dict(srv=["S1"], cli=["K", "E"], pre="srv", bud=dict(enter=3, inj=1), inj=["reg"], maxrd=2),
    regQ=dict(srv=["S1"], cli=["K", "E"], pre="srv", bud=dict(enter=3), inj=[], maxrd=2),
    regR=dict(srv=["S1"], cli=["E"], pre="srv", bud=dict(enter=5, inj=1, replay=1), inj=["reg", "CREG", "CHAL"], maxrd=3),
    crossQ=dict(srv=["S1"], cli=[], pre="certK", bud=dict(post=1, vote=1, enter=2), inj=[], maxrd=3),
    regS=dict(srv=["S1", "S2"], cli=["K", "E"], pre="srv", bud=dict(enter=3), inj=[], maxrd=2),
    reg2=dict(srv=["S1"], cli=[], pre="KE", bud=dict(enter=2, inj=1, replay=1), inj=["reg", "CREG", "CHAL"], maxrd=3),
    post=dict(srv=["S1"], cli=[], pre="KE", bud=dict(post=1, get=1, inj=2, enter=1, replay=1), inj=["post", "POST"], maxrd=3),
    postL=dict(srv=["S1"], cli=[], pre="KE", bud=dict(post=1, get=2, inj=2, enter=1, replay=1), inj=["post", "POST"], maxrd=3),
    req=dict(srv=["S1"], cli=[], pre="KE", bud=dict(post=1, get=1, inj=1, enter=1, replay=1), inj=["req", "REQ"], maxrd=3),
    sign=dict(srv=["S1", "S2"], cli=[], pre="KE", bud=dict(inj=1, enter=1), inj=["sign"], maxrd=3),
    got=dict(srv=["S1", "S2"], cli=[], pre="KE", bud=dict(post=1, get=1, inj=1, replay=1), inj=["got", "GOT"], maxrd=3),
    vote=dict(srv=["S1"], cli=[], pre="cert", bud=dict(vote=1, inj=1, replay=1, enter=2), inj=["vote", "VOTE"], maxrd=3),
    voteK=dict(srv=["S1"], cli=[], pre="certK", bud=dict(vote=1, inj=1, replay=1, enter=2), inj=["vote", "VOTE"], maxrd=3),
    vote2=dict(srv=["S1"], cli=[], pre="cert2", bud=dict(inj=1, replay=1), inj=["vote", "VOTE"], maxrd=3),
    got2=dict(srv=["S1", "S2"], cli=[], pre="cert2", bud=dict(post=1, get=1, inj=1, replay=1), inj=["got", "GOT"], maxrd=3),
    gotB=dict(srv=["S1", "S2"], cli=[], pre="two", bud=dict(inj=1, replay=1), inj=["got", "GOT"], maxrd=2),
    gotc=dict(srv=["S1"], cli=[], pre="certK", bud=dict(inj=1, vote=1, post=1, get=1), inj=["gotc"], maxrd=2),
    gotcN=dict(srv=["S1"], cli=[], pre="KE", bud=dict(inj=1, vote=1), inj=["gotc"], maxrd=2),
    theft=dict(srv=["S1"], cli=[], pre="KE", bud=dict(post=1, get=1, inj=1), inj=["req"], maxrd=2),
    fresh=dict(srv=["S1"], cli=[], pre="open", bud=dict(enter=2), maxrd=2),
    hon=dict(srv=["S1"], cli=["K"], pre="open", bud=dict(enter=2, get=1), maxrd=2),
    cross=dict(srv=["S1"], cli=[], pre="certK", bud=dict(post=1, vote=1, get=1, enter=2), inj=[], maxrd=3),
    gone=dict(srv=["S1"], cli=["K", "E"], pre="srv", bud=dict(enter=4, gone=1), inj=[], maxrd=2),
    gone2=dict(srv=["S1"], cli=[], pre="KE", bud=dict(enter=2, gone=1, post=1, get=1), inj=[], maxrd=3),
    junk=dict(srv=["S1"], cli=[], pre="KE", bud=dict(enter=2, inj=1, post=1, get=1), inj=["junk"], maxrd=3),
)

# the family in which the specification without this check goes wrong
G = dict(status="cross", postMember="post", postSig="post", postDup="post", onlyUnused="postL", markUsed="postL",
         atMostInd="post", reqMember="req", reqSig="req", reqInd="req", reqD="req", reqNonneg="req", reqBind="req",
         reqEqual="req", reqBound="req", gotPending="got2", gotSig="got", gotDup="got", gotEach="gotB", cliSig="gotcN", reqAddr="theft", voteMember="vote2",
         voteSig="voteK", voteSign="voteK", voteReq="voteK", voteCerts="vote", voteFb="vote",
         voteDup="vote", settleDiff="vote", regQueue="reg", regWait="reg", regValid="reg", honOnce="regR",
         regDup="reg2", srvQueue="setup", srvPhase="setup", srvWait="setup", newKey="fresh", honFirst="hon")

# families for random behaviours (larger constants); every behaviour is run on the real nodes
ALLINJ = ["post", "req", "got", "vote", "reg", "POST", "REQ", "GOT", "VOTE", "CREG", "CHAL"]
SIM = dict(
    boot=dict(srv=["S1", "S2", "S3"], cli=["K", "E"], pre="none", bud=dict(enter=4, late=1, inj=1), inj=["reg"]),
    churn=dict(srv=["S1", "S2"], cli=["K", "E", "L", "F"], pre="srv", bud=dict(enter=8, post=3, get=3, vote=2, inj=2, replay=2),
               inj=["reg", "CREG", "CHAL"]),
    churn1=dict(srv=["S1"], cli=["E", "K", "F"], pre="open", bud=dict(enter=6, post=2, get=2, vote=2, inj=1, replay=2),
                inj=["reg", "CREG"]),
    market=dict(srv=["S1", "S2"], cli=["F"], pre="KE", bud=dict(enter=4, post=5, get=5, vote=4, inj=4, replay=3), inj=ALLINJ),
    posts=dict(srv=["S1", "S2"], cli=[], pre="KLE", bud=dict(enter=3, post=6, get=6, vote=2, inj=3, replay=3),
               inj=["post", "POST", "REQ"]),
    reqs=dict(srv=["S1", "S2"], cli=[], pre="KE", bud=dict(enter=3, post=3, get=4, vote=1, inj=5, replay=2),
              inj=["req", "REQ", "sign"]),
    certs=dict(srv=["S1", "S2", "S3"], cli=[], pre="KE", bud=dict(enter=2, post=4, get=4, vote=2, inj=3, replay=4),
               inj=["got", "GOT", "REQ", "gotc"]),
    votes=dict(srv=["S1", "S2"], cli=[], pre="certK", bud=dict(enter=5, post=3, get=3, vote=5, inj=4, replay=4),
               inj=["vote", "VOTE"]),
    votesE=dict(srv=["S1"], cli=[], pre="cert", bud=dict(enter=5, post=3, get=3, vote=4, inj=5, replay=4),
                inj=["vote", "VOTE"]),
    cross=dict(srv=["S1", "S2"], cli=["L"], pre="certK", bud=dict(enter=8, post=4, get=4, vote=3, replay=5),
               inj=["POST", "REQ", "VOTE", "GOT", "CREG"]),
    long=dict(srv=["S1"], cli=["F"], pre="certK", bud=dict(enter=10, post=6, get=6, vote=6), inj=[]),
    gone=dict(srv=["S1", "S2"], cli=["E", "F", "K"], pre="srv", bud=dict(enter=7, post=2, get=2, vote=1, gone=2, inj=1),
              inj=["junk"]),
    gone2=dict(srv=["S1"], cli=["F"], pre="KE", bud=dict(enter=5, post=3, get=3, vote=2, gone=2), inj=[]),
    junk=dict(srv=["S1", "S2"], cli=["F"], pre="KE", bud=dict(enter=4, post=2, get=2, vote=1, inj=12, gone=1),
              inj=["junk"]),
    junk0=dict(srv=["S1", "S2"], cli=["E"], pre="none", bud=dict(enter=4, post=1, get=1, inj=10), inj=["junk", "reg"]),
)


def sc(id_, ev, seed, suffix=1):
    return dict(id=id_, pre=[], ev=ev, seed=seed, suffix=suffix)


def req(n, pf, v, sig="ok", ind=9):
    return [inj({"t": "REQ", "nym": n, "ind": ind, "sig": sig, "pf": pf}, v=v)]


ROUND = [EN, EN, D]    # from an open round to the next one
CLASSES = [("badInd", 2), ("badD", 2), ("badNN", 4), ("forgeNN", 2), ("badEq", 4), ("wrap", 2)]


def d_requests(rng, n=2):
    """every class of forged request, none may be granted; then the honest ones"""
    e1 = nym("E", 1)
    ev = open_round(n, ["K", "E"]) + [post("K", "b%d" % i) for i in range(1, 7)] + [D]
    forged = []
    for c, k in CLASSES:
        for v in range(k):
            forged += req(e1, c, v)
    for v in (0, 3, 6, 9, 12, 15, 18, 21, 1, 2, 4, 5):
        forged += req(e1, "ok", v, sig="bad", ind=2)
    forged += req(nym("K", 1), "badEq", 0, sig="bad")
    forged += req(GHOST, "badEq", 0)
    rng.shuffle(forged)
    for f in forged:
        ev += [f, D] if rng.random() < 0.3 else [f]
    ev += [D, get("E", 0), D, get("E", rng.randint(1, 4)), D, get("K", 5), D, get("E", 5), D]
    return ev


def d_requests_next(rng, n=1):
    """the same in a later round, with a reputation that votes have changed, and with what is left of earlier rounds"""
    ev = open_round(n, ["K", "E"])
    dn = rng.randint(1, 5)
    ev += [post("E", "e%d" % i) for i in range(dn)] + [D, get("K", dn), D]
    up = rng.random() < 0.4
    ev += [vote("K", i + 1, 1 if up else -1) for i in range(dn)] + [D]
    ev += [get("E", 2), D] + ROUND
    e2, e1 = nym("E", 2), nym("E", 1)
    ev += [post("K", "b%d" % i) for i in range(1, 4)] + [D]
    for c, k in CLASSES:
        ev += req(e2, c, rng.randrange(12))
        ev += req(e1, c, rng.randrange(12))
    ev += req(e1, "ok", 0, ind=1)
    for i in range(1, 9):
        if rng.random() < 0.5:
            ev.append({"a": "replay", "n": i})
    rep = 5 + (dn if up else -dn)
    ev += [D, get("E", 0), get("E", max(rep, 0)), D, get("K", 5), D] + ROUND + [get("E", max(rep, 0)), get("K", 3), D]
    return ev


def d_sign(rng, n=2):
    """a coordinator asks servers to sign for forged requests"""
    ev = open_round(n, ["K", "E"])
    e1 = nym("E", 1)

    def s(to, pf, v, n_=None):
        return {"a": "inj", "as": "C", "to": to, "m": {"t": "SIGN", "nym": n_ or e1, "ind": 9, "pf": pf, "v": v,
                "asgs": [{"br": "b3", "req": n_ or e1, "prov": nym("K", 1)}]}}
    for to in ["S%d" % (i + 1) for i in range(n)]:
        for c, k in CLASSES:
            for v in range(k):
                ev += [s(to, c, v), D]
        ev += [s(to, "ok", 0), D]
    ev += ROUND
    for to in ["S%d" % (i + 1) for i in range(n)]:
        ev += [s(to, "ok", 0), s(to, "ok", 0, nym("E", 2)), s(to, "badD", 0, nym("E", 2)), D]
    return ev


def d_grants(rng, n=2):
    """honest requests for every indicator, over rounds in which the reputation moves"""
    ev = open_round(n, ["K", "E"])
    rep = {"K": 5, "E": 5}
    for rd in range(3):
        other = {"K": "E", "E": "K"}
        p = rng.choice(["K", "E"])
        k = rng.randint(1, 4)
        ev += [post(p, "r%db%d" % (rd, i)) for i in range(k)] + [D]
        q = other[p]
        ev += [get(q, x) for x in ([0, rep[q], -rng.randint(1, 9)] if rd else range(0, min(rep[q], 2)))] + [D, get(q, rep[q]), D, get(p, rng.randint(0, rep[p])), get(q, rep[q] + 1), D]
        got = min(k, rep[q])
        for j in range(got):
            v = 1 if rng.random() < 0.5 else -1
            if q == "K":
                ev.append(vote("K", j + 1, v))
            else:
                ev.append(vote("E", j + 1, v))
            rep[p] += v
        ev += [D] + ROUND
    return ev


def d_posts(rng, n=1):
    e1 = nym("E", 1)

    def p(n_, br, sig="ok", v=None):
        return inj({"t": "POST", "nym": n_, "br": br, "sig": sig}, v=v)
    ev = open_round(n, ["K", "L", "E"])
    # contested addresses, claims in others' names, own keys that are in no table
    order = [post("K", "b1"), post("L", "b1"), p(e1, "b1"), post("L", "b2"), p(e1, "b2"), p(GHOST, "b3"), p(e1, "b4"), post("K", "b4")]
    rng.shuffle(order)
    ev += order + [p(nym("K", 1), "x%d" % v, "bad", v) for v in range(8)] + [p(e1, "y%d" % v, "bad", v) for v in range(8)]
    ev += [p(nym("L", 1), "b1", "bad", 7), p(nym("E", -1), "b5"), D]
    ev += [get("K", 2), get("L", 1), D, get("E", 5), get("K", 5), D, get("L", 5), D]
    ev += [{"a": "replay", "n": i} for i in rng.sample(range(1, 14), 5)] + [D, get("K", 4), D]
    ev += [vote("K", 1, 1), vote("L", 1, -1), vote("E", 1, 1), vote("E", 2, -1), D] + ROUND
    # next round: nothing is left of the first
    ev += [get("K", 4), D, p(e1, "b6"), p(nym("E", 2), "b1"), post("L", "b1"), D]
    ev += [{"a": "replay", "n": i} for i in rng.sample(range(1, 14), 5)] + [D, get("L", 5), get("K", 4), D, vote("L", 1, -1), vote("K", 1, -1), D] + ROUND
    return ev


def d_negative(rng, n=1):
    """a reputation below zero: nothing can be asked for any more, until votes lift it again"""
    ev = open_round(n, ["K", "E", "F"])
    k = 6 + rng.randint(0, 2)
    who = rng.choice(["K", "E"])
    other = "E" if who == "K" else "K"
    ev += [post(who, "b%d" % i) for i in range(k)] + [D, get(other, 4), D, get("F", 4), D]
    ev += [vote(other, j, -1) for j in range(1, 5)] + [vote("F", j, -1) for j in range(1, k - 3)] + [D] + ROUND
    low = 5 - k
    ev += [post(other, "c1"), post(other, "c2"), post(who, "d1"), post(who, "d2"), D]
    ev += [get(who, x) for x in (0, 1, low + 1, low, low - 1, 5)] + [D]
    if who == "E":
        ev += req(nym("E", 2), "badNN", rng.randrange(8), ind=0) + req(nym("E", 2), "wrap", rng.randrange(4), ind=0)
        ev += req(nym("E", 2), "badInd", rng.randrange(4), ind=0) + req(nym("E", 2), "badD", rng.randrange(4), ind=0) + [D]
    ev += [get("F", 2), D, get(other, 2), D, vote("F", 1, 1), vote("F", 2, 1), vote(other, 1, 1), vote(other, 2, 1), D] + ROUND
    ev += [post(other, "e1"), D, get(who, 0), get(who, low + 2), get(who, low + 4), D, get("F", 1), D]
    return ev


def d_theft(rng, n=2):
    """while a certificate is under way others name its owner in requests of their own, from their addresses"""
    ks = ["K", "E", "F"]
    v = rng.choice(["K", "F", "E"])          # whose certificate it is
    ev = open_round(n, ks) + [post("K", "b%d" % i) for i in range(3)] + [post("E", "c1"), D]
    for rd in (1, 2):
        vn = nym(v, rd)

        def steal(k):
            l = []
            for _ in range(k):
                as_ = rng.choice([x for x in ("E", "F", "G") if x != v])
                m = {"t": "REQ", "nym": vn, "ind": rng.randint(0, 3), "sig": "bad", "pf": rng.choice(["ok", "ok", "badEq", "badD"])}
                l += [inj(m, as_=as_, v=rng.randrange(8)), dlv(as_, "C")]
            return l
        ev += [get(v, rng.randint(1, 2)), dlv(v, "C")] + steal(2)
        ev += [dlv("C", "S1"), dlv("S1", "C")] + steal(2)
        ev += [dlv("C", "S%d" % n)] + steal(1) + [D] + steal(1)
        ev += [get(v, 1), D, vote(v, 1, 1), vote(v, 2, -1), D] + ROUND + [post("K", "b%d" % i) for i in range(3)] + [D]
    return ev


def d_certs(rng, n=2):
    """forged, repeated, reordered replies of servers"""
    e1, k1 = nym("E", 1), nym("K", 1)
    ev = open_round(n, ["K", "E", "F"])
    ev += [post("K", "b%d" % i) for i in range(1, 5)] + [D, get("E", 1), get("F", 2), dlv("E", "C"), dlv("F", "C")]

    def got(as_, br, rq, v, sv="none"):
        return inj({"t": "GOT", "ok": True, "asgs": [{"br": br, "req": rq, "prov": k1}], "sv": sv}, as_=as_, v=v)
    S = ["S%d" % (i + 1) for i in range(n)]
    bad = [got(s, b, r, v) for s in S for b in ("b1", "b2") for r in (e1, nym("F", 1)) for v in (0, 1, 3, 4)]
    rng.shuffle(bad)
    ev += bad[:8]
    late = rng.choice(S)
    # one server's replies come first, twice, then forged ones in the other's name
    for s in S:
        if s != late:
            ev += [dlv("C", s), dlv("C", s), dlv(s, "C"), dlv(s, "C")]
            ev += [{"a": "replay", "n": i} for i in rng.sample(range(1, 16), 6)]
    ev += [e for e in bad[8:20]] + [dlv(s, "C") for s in S for _ in range(8)]
    ev += [get("E", 2), dlv("E", "C"), D] + [{"a": "replay", "n": i} for i in rng.sample(range(1, 16), 6)] + [D]
    ev += [get("F", 1), D, vote("E", 1, -1), vote("F", 1, 1), D] + ROUND
    ev += [post("E", "b1"), post("K", "b2"), D, get("F", 2), dlv("F", "C")]
    ev += [{"a": "replay", "n": i} for i in rng.sample(range(1, 22), 8)] + [D, get("K", 1), D]
    return ev


def d_forged(rng, n=2):
    """certificates in the coordinator's name that it did not send, or sent before, to members that then vote"""
    ks = ["K", "L", "E"]
    ev = open_round(n, ks)

    def fake(to, br, rq, prov, v, sig="bad"):
        return {"a": "inj", "as": "C", "to": to, "m": {"t": "GOTC", "asg": {"br": br, "req": rq, "prov": prov}, "full": False,
                                                     "sig": sig, "v": v}}
    for rd in (1, 2):
        k, l, e = nym("K", rd), nym("L", rd), nym("E", rd)
        bad = [fake("K", b, k, p, v) for v in range(10) for b, p in ((rng.choice(["b1", "x1"]), rng.choice([e, l])),)]
        bad += [fake("L", "b2", l, e, rng.randrange(10)), fake("L", "b1", k, e, rng.randrange(10))]
        rng.shuffle(bad)
        if rng.random() < 0.5:
            ev += bad[:3] + [D, vote("K", 1, 1)]
        ev += [post("E", "b1"), post("L", "b2"), D, get("K", 1), D] + bad[3:7] + [D, get("L", 1), D]
        ev += bad[7:] + [D, vote("K", 2, -1), vote("K", 1, 1), vote("L", 1, -1), D]
        # what the coordinator did send, again or to another
        ev += [fake(rng.choice("KL"), "b1", k, e, v, "ok") for v in rng.sample(range(4), 3)] + [D]
        ev += [vote("K", 2, -1), vote("L", 2, -1), vote("K", 1, -1), D] + ROUND
    # what is left of an earlier round
    ev += [fake("K", "b1", nym("K", 1), nym("E", 1), v, "ok") for v in (0, 1)] + [D, vote("K", 1, -1), vote("K", 2, 1), D] + ROUND
    return ev


def d_bundle(rng, n=2, away=False):
    """servers that answer several requests in one reply, in any order, ahead of their single replies or after them;
    away: one of those who asked has left"""
    S = ["S%d" % (i + 1) for i in range(n)]

    def mix(s, k, front, as_=None):
        e = inj({"t": "GOT", "ok": True, "sv": s, "mix": k}, as_=as_ or s)
        if front:
            e["front"] = True
        return e
    ev = open_round(n, ["K", "E", "F"])
    for rd in (1, 2):
        ev += [post("K", "b%d" % i) for i in range(4)] + [post("E", "c%d" % rd), D]
        who = ["K", "E", "F"]
        rng.shuffle(who)
        for k in who:
            ev += [get(k, rng.randint(1, 2)), dlv(k, "C")]
        if away and rd == 1:
            ev += [{"a": "gone", "k": who[0]}]
        late = rng.sample(S, rng.randint(1, n))
        for s in S:
            ev += [dlv("C", s)] * 3
            if s not in late:
                ev += [dlv(s, "C")] * rng.randint(0, 3)
        for s in late:
            # its own signatures, sent on by one who is not that server
            ev += [mix(s, 5, True, a) for a in ["E", rng.choice(S)] if a != s] + [dlv("E", "C")]
        for s in S:
            ev += [mix(s, rng.randint(2, 5), s in late), dlv(s, "C")]
            if rng.random() < 0.5:
                ev += [mix(s, 5, rng.random() < 0.5), dlv(s, "C"), dlv(s, "C")]
        ev += [{"a": "replay", "n": i} for i in rng.sample(range(1, 20), 4)] + [D]
        ev += [vote("K", 1, 1), vote("E", 1, -1), vote("F", 1, 1), D] + ROUND
    return ev


def d_short(rng, n=1):
    """a server whose draws make points that begin with zero bytes: pseudonyms, bases, commitments"""
    ev = open_round(n, ["K", "E", "F"])
    for i, e in enumerate(ev):
        if e["a"] == "srv" and (n == 1 or rng.random() < 0.6):
            ev[i] = dict(e, emu=True)
    new = ["L"]
    for rd in (1, 2, 3):
        who = ["K", "E", "F"] + (["L"] if not new else [])
        ev += [post(k, "%s%d%d" % (k.lower(), rd, i)) for k in who for i in range(2)] + [D]
        # what was posted once more, with a byte of the nym in the address
        ev += [inj({"t": "POST", "nym": nym(k, rd), "br": "z%d%s%d" % (rd, k, i), "sig": "bad"}, v=i) for k in who for i in range(3)] + [D]
        ev += [get(k, rng.randint(1, 3)) for k in who] + [D]
        ev += [vote(k, 1, rng.choice([1, -1])) for k in who] + [D]
        if new and rng.random() < 0.7:
            ev += [cli(new.pop()), D]
        ev += [get("K", 5), get("F", 5), D, vote("F", 2, 1), vote("K", 2, -1), D] + ROUND
    return ev


def d_votes(rng, n=2):
    e1, k1, f1 = nym("E", 1), nym("K", 1), nym("F", 1)
    ev = open_round(n, ["K", "E", "F"])
    ev += [post("K", "b1"), D, get("E", 1), D, post("K", "b2"), D, get("F", 1), D, post("K", "b3"), D]

    hE, hF = rng.choice([1, -1]), rng.choice([1, -1])     # what the two will really vote: false votes say the opposite

    def v(n_, a, certs="ok", fb=None, sig="ok", vv=None, as_="E"):
        if fb is None:
            fb = -hE if a["br"] == "b1" else -hF
        return inj({"t": "VOTE", "nym": n_, "asg": a, "certs": certs, "fb": fb, "sig": sig}, as_=as_, v=vv)
    brs = ["b1", "b2", "b3"]
    aE = [{"br": b, "req": e1, "prov": k1} for b in brs]
    aF = [{"br": b, "req": f1, "prov": k1} for b in brs]
    bad = []
    # E holds the certificate for b1, F that for b2; no one holds one for b3
    for b in range(3):
        bad += [v(e1, aF[b]), v(GHOST, aE[b]), v(nym("E", -1), aE[b])]
        bad += [v(e1, aE[b], fb=7, vv=i) for i in range(6 if b == 0 else 2)]
        bad += [v(e1, aE[b], certs="bad", vv=i) for i in (range(18 * (n + 1)) if b == 0 else range(3))]
        bad += [v(k1, aE[b], sig="bad", vv=i) for i in (0, 1, 6, 7)]
        bad += [v(e1, aE[b], sig="bad", vv=i) for i in (range(8) if b == 0 else (0, 3, 7))]
        bad += [v(e1, {"br": b_, "req": e1, "prov": e1}, certs="bad", fb=1) for b_ in ("b1", "z")]
        bad += [v(e1, {"br": b_, "req": e1, "prov": f1}, certs="bad", fb=-1) for b_ in ("b1", "b2")]
    rng.shuffle(bad)
    ev += bad + [D]
    ev += [vote("E", 1, hE), D, v(e1, aE[0], fb=1), v(e1, aE[0], fb=-1), v(e1, aE[0], sig="flip"), D]
    ev += [v(f1, aF[1], fb=hF, as_="F"), v(f1, aF[1], fb=-hF, as_="F"), v(f1, aE[0], fb=1, as_="F"), vote("F", 1, hF), D]
    ev += [{"a": "replay", "n": i} for i in range(8, 18)] + [D] + ROUND
    # next round: certificates of the last one are void, under either pseudonym
    e2, f2 = nym("E", 2), nym("F", 2)
    ev += [v(e1, aE[b], fb=-1) for b in range(3)] + [v(e2, aE[b], fb=-1) for b in range(3)]
    ev += [v(f2, aF[b], fb=-1) for b in range(3)] + [{"a": "replay", "n": i} for i in range(8, 20)] + [D]
    ev += [post("K", "b1"), D, get("E", 1), D, vote("E", 1, 1), D] + ROUND
    return ev


def d_tally(rng, n=1):
    """several providers, several voters, both signs, over rounds; real clients keep the accounts"""
    ks = ["K", "L", "E"]
    ev = open_round(n, ks)
    for rd in range(3):
        for i, k in enumerate(ks):
            ev += [post(k, "r%d%s%d" % (rd, k, j)) for j in range(rng.randint(0, 3))]
        ev += [D]
        ks2 = ks[:]
        rng.shuffle(ks2)
        for k in ks2:
            ev += [get(k, rng.randint(1, 4)), D]
        for k in ks2:
            for j in range(1, 4):
                if rng.random() < 0.8:
                    ev.append(vote(k, j, rng.choice([1, 1, -1, -1, -1, 5, 0])))
        ev += [D] if rng.random() < 0.7 else []
        ev += [EN, EN, D]
    return ev


def d_crowd(rng, n=1, m=14, down=True):
    """many members: large tables, many votes for one of them, a large reputation and the fall of it"""
    es = ["E%02d" % i for i in range(m)]
    who = rng.choice(["K", "K", es[3]])
    ev = open_round(n, ["K"] + es[:m - 4])
    votes = [1, -1] if down else [1]
    for rd, fb in enumerate(votes):
        if rd == 0:
            # some come while the round is open
            ev += [cli(e) for e in es[m - 4:]] + [D, EN, EN, D]
        k = 5 * m - 3
        ev += [post(who, "p%d.%d" % (rd, i)) for i in range(k)] + [D]
        voters = [e for e in ["K"] + es if e != who]
        rng.shuffle(voters)
        for e in voters:
            ev += [get(e, 5)]
        ev += [D]
        for e in voters:
            ev += [vote(e, j, fb) for j in range(1, 6)]
        ev += [D] + ROUND
        if rd == 0:
            ev += [post(es[0], "q%d" % i) for i in range(3)] + [D, get(who, k + 5), get(who, k + 4), get(who, k + 6), D] + ROUND
    return ev + [post(es[1], "z"), D, get(who, 5), get(es[5], 5), D]


def d_wide(rng, n=2, m=22, more=12):
    """messages of all sizes: a table of dozens of members, addresses of bridges of many kilobytes"""
    es = ["E%02d" % i for i in range(m + more)]
    ev = open_round(n, ["K"] + es[:m])
    a, b = rng.sample(es[:m], 2)
    for rd in range(2 + (more > 0)):
        k = 0
        for who in (a, "K", b):
            ev += [post(who, "%s%d.%d" % ("long" if who != "K" and rng.random() < 0.7 else "p", rd, k + i)) for i in range(rng.randint(1, 3))]
            k += 3
        ev += [D, get("K", 3), get(a, 5), D, get(b, rng.randint(1, 3)), get(rng.choice(es[2:m]), 2), D]
        ev += [vote("K", 1, 1), vote("K", 2, -1), vote(a, 1, -1), vote(a, 2, 1), vote(b, 1, 1), D]
        if rd == 0:
            ev += [cli(e) for e in es[m:]] + [D]
        ev += ROUND
    return ev + [post(a, "long9"), D, get("K", 2), D]


def d_phases(rng, n=1):
    """requests, posts and votes delivered in every phase of the coordinator, then an ordinary round"""
    ev = open_round(n, ["K", "E"])
    ev += [post("K", "b1"), post("E", "b2"), D, get("K", 1), get("E", 1), D]
    last, first = "S%d" % n, "S1"
    rush = [post("K", "c1"), post("E", "c2"), get("K", 1), get("E", 1), vote("K", 1, 1), vote("E", 1, -1)]

    def late():
        q = rush[:]
        rng.shuffle(q)
        return q[:rng.randint(2, 6)] + [dlv("K", "C")] * 3 + [dlv("E", "C")] * 3
    ev += [EN] + (late() if rng.random() < 0.3 else []) + [EN]
    ev += late()                                                   # ending: RE is on its way
    ev += [dlv("C", "S%d" % (i + 1)) for i in reversed(range(n))][:1]
    ev += late()
    for i in reversed(range(n)):
        ev += [dlv("S%d" % (i + 2) if i + 1 < n else "C", "S%d" % (i + 1))]
    ev += late() + [dlv(first, "C")]                              # back: ready, announced at once
    ev += late()
    for i in range(n):
        ev += [dlv("S%d" % i if i else "C", "S%d" % (i + 1))]
    ev += late() + [dlv(last, "C")] + late() + [D]
    ev += [get("K", 3), get("E", 3), D] + [vote("K", 1, 1), vote("E", 1, 1), D]
    return ev


def d_flight(rng, n=2):
    """requests whose signatures are still missing when the round ends"""
    ev = open_round(n, ["K", "E"])
    ev += [post("K", "b1"), post("K", "b2"), D, get("E", 2), dlv("E", "C")]
    ev += [dlv("C", "S1")] + ([dlv("S1", "C")] if rng.random() < 0.5 else []) + [EN, EN]
    if rng.random() < 0.5:
        ev += [dlv("C", "S2"), dlv("S2", "C"), dlv("S1", "C")]
    ev += [D, get("E", 1), D, post("K", "b1"), D, get("E", 1), D] + [{"a": "replay", "n": i} for i in range(5, 12)] + [D]
    ev += [vote("E", 1, 1), D] + ROUND
    return ev


def d_register(rng, n=2, early=False):
    """registrations in every phase, two at a time, with duplicates and bad keys"""
    kinds = ["K", "L", "E", "F"]
    rng.shuffle(kinds)
    S = ["S%d" % (i + 1) for i in range(n)]

    def cr(pk, v=None, as_="E"):
        return inj({"t": "CREG", "pk": pk}, as_=as_, v=v)

    def come(k):
        return [cli(k), dlv(k, "C")]

    def odd():
        r = rng.random()
        if r < 0.5:
            return [cr("badkey", rng.randrange(6)), dlv("E", "C")]
        return [{"a": "replay", "n": rng.randint(1, 3)}] + [dlv(k, "C") for k in kinds]
    k = kinds[:]
    ev = srv(n)
    if early:
        ev += come(k.pop())                       # before the configuration is done
        if rng.random() < 0.7:
            ev += come(k.pop())
            if rng.random() < 0.6:                # the key of one under the address of another, both waiting
                a, b = rng.sample(kinds[len(k):], 2)
                if k and rng.random() < 0.6:          # one that has not come yet
                    a = rng.choice(k)
                ev += [cr(a, as_=b), dlv(b, "C")]
    ev += [D] + (odd() if rng.random() < .5 else [])
    ev += [EN]
    if rng.random() < 0.6 and k:
        ev += come(k.pop())                       # announcement under way
        if rng.random() < 0.4:
            ev += odd()
    ev += [D]
    if k and rng.random() < 0.8:
        ev += come(k.pop()) + ([D] if rng.random() < 0.5 else [dlv("C", "S1")])    # round open
        ev += odd()
    ev += [EN, EN] + ([dlv("S1", S[1] if n > 1 else "C")] if rng.random() < .5 else [])
    if k and rng.random() < 0.7:
        ev += come(k.pop())                       # round end
    ev += [D] + odd() + [D, EN, EN, D]
    while k:
        ev += come(k.pop())
    ev += [D, EN, EN, D]
    return ev


def d_twice(rng, n=1):
    """keys that are registered again, by their owner, under other addresses, while pending"""
    ev = open_round(n, ["K", "E"])

    def cr(pk, as_="E", v=None):
        return inj({"t": "CREG", "pk": pk}, as_=as_, v=v)
    acts = [cr("K"), cr("E"), cr("E", "F"), cr("K", "F"), {"a": "replay", "n": 1}, cr("badkey", "E", rng.randrange(6)), cr("badkey", "F", rng.randrange(6))]
    rng.shuffle(acts)
    ev += acts[:4] + ([D] if rng.random() < .5 else []) + [cli("L"), {"a": "replay", "n": 1}, D]
    ev += [EN, EN] + acts[4:] + [dlv("E", "C"), dlv("F", "C"), cr("L"), cr("K"), dlv("E", "C")] + [D]
    ev += [post("K", "b1"), D, get("E", 1), get("L", 1), D, vote("E", 1, -1), vote("L", 1, -1), D] + ROUND
    return ev


def d_setup(rng, n=3):
    """servers that register together, one after the other, and too late"""
    S = ["S%d" % (i + 1) for i in range(n)]
    ev = []
    order = S[:]
    mode = rng.randrange(3)
    if mode == 0:                                  # all at once
        ev += [{"a": "srv", "i": i} for i in order]
        q = order[:]
        rng.shuffle(q)
        ev += [dlv(i, "C") for i in q] + [D]
    elif mode == 1:                                # overlapping
        for i in order:
            ev += [{"a": "srv", "i": i}, dlv(i, "C")]
            for _ in range(rng.randint(0, 3)):
                j = rng.choice(order)
                ev += [dlv("C", j)] if rng.random() < .5 else [dlv(j, "C")]
        ev += [D]
    else:                                          # the last one while the operator starts
        ev += [{"a": "srv", "i": i} for i in order[:-1]] + [D, {"a": "srv", "i": order[-1]}]
        ev += [dlv(order[-1], "C"), EN] if rng.random() < .5 else [EN, dlv(order[-1], "C")]
        ev += [D]
    if rng.random() < .4:
        ev += [cli("K"), dlv("K", "C")]
    ev += [EN, D]
    if rng.random() < .5:
        ev += [{"a": "srv", "i": "S9"}, D]
    ev += [cli("E"), D, EN, EN, D]
    return ev


def d_long(rng, n=2, rounds=5):
    """many rounds: nothing of a round repeats, nobody is lost"""
    ev = srv(n) + [D, EN, D, cli("E"), D]
    more = ["F", "K"]
    for r in range(rounds):
        ev += [EN, EN, D]
        if more and rng.random() < .6:
            ev += [cli(more.pop()), D]
        if rng.random() < .5:
            ev += [post("E", "b%d" % r), D, get("F", 1), get("K", 1), D, vote("F", 1, 1), vote("K", 1, -1), D]
    return ev


def d_again(rng, n=2):
    """short and always the same, to be done twice at the same addresses"""
    ev = srv(n) + [D, EN, D, cli("K"), cli("F"), D, EN, EN, D]
    return ev + [post("K", "b1"), D, get("F", 1), D, vote("F", 1, 1), D, EN, EN, D]


def d_junk(rng, n=1, vs=range(22)):
    """malformed messages and connections in every phase; after each the round goes on"""
    vs = list(vs)
    rng.shuffle(vs)

    def bad(v):
        return [inj({"t": "BAD"}, as_="E", v=v), dlv("E", "C")]
    ev = srv(n) + [D] + bad(vs[0]) + bad(rng.randrange(8, 22)) + [EN] + bad(vs[1]) + [D, cli("K"), cli("E"), D, EN, EN] + bad(vs[2]) + [D]
    ev += [post("K", "b1"), D, get("E", 1), D]
    for v in vs[3:]:
        ev += bad(v)
    ev += bad(rng.choice([22, 22, 23, 24, 24])) + [post("K", "b2"), D] + bad(22) + [vote("E", 1, 1), D, get("K", 1)] + bad(22) + [D, EN] + bad(rng.randrange(8, 22)) + [EN] + bad(rng.randrange(8, 22)) + [D]
    return ev


def d_mute(rng, n=1):
    """a client that takes connections and reads nothing: what is sent to it may be more than the network holds"""
    ev = srv(n) + [D, EN, D, cli("K"), cli("F"), cli("E"), D, EN, EN, D]
    ev += [post("F", "huge1"), D, get("E", 1), dlv("E", "C"), {"a": "gone", "k": "E", "mute": True}, D]
    ev += [post("K", "b1"), D, get("F", 1), D, post("F", "b2"), D, get("K", 1), D, vote("F", 1, 1), vote("K", 1, -1), D, EN, EN, D]
    return ev + [post("K", "b1"), D, get("F", 1), D, vote("F", 1, 1), D, EN, EN, D]


def d_huge(rng, n=1):
    """forged requests whose proofs hold numbers of many megabytes: they are refused, and others are served meanwhile"""
    ev = open_round(n, ["K", "E"]) + [post("K", "b%d" % i) for i in range(1, 4)] + [D]
    for c, v in rng.sample([("badNN", 100), ("badNN", 101), ("badEq", 102), ("badEq", 103)], 4):
        ev += req(nym("E", 1), c, v) + [D, get("K", 1), D]
    return ev + [get("E", 1), D, vote("K", 1, 1), D] + ROUND + [get("K", 1), D]


def d_gone(rng, n=1, point=0, hole=False):
    """a client disappears at a given point; with hole, connecting to it is not even refused"""
    g = lambda k: [{"a": "gone", "k": k, "hole": True} if hole else {"a": "gone", "k": k}]
    who = rng.choice(["K", "E", "L"])
    at = lambda i: g(who) if i == point else []
    ev = srv(n) + [D, EN, D, cli("K"), cli("L"), cli("E")]
    ev += at(0) + [dlv(who, "C")] + at(1) + [dlv("C", "S1")] + at(2) + [D] + at(3) + [EN] + at(4) + [EN] + at(5) + [dlv("C", "S%d" % n)] + at(6)
    ev += [D] + at(7) + [post("K", "b1"), post("L", "b2"), post("E", "b3")] + at(8) + [D, get("K", 1), get("L", 1), get("E", 1)] + at(9)
    ev += [dlv("K", "C"), dlv("L", "C"), dlv("E", "C")] + at(10) + [D] + at(11) + [vote("K", 1, 1), vote("L", 1, 1), vote("E", 1, -1)] + at(12) + [D]
    ev += at(13) + [EN] + at(14) + [EN] + at(15) + [D]
    return ev


def d_slow(rng, n=1):
    """a client does not answer, which holds the coordinator up in the middle of each step: what comes then"""
    who = rng.choice(["L", "E"])
    rest = [k for k in ("K", "L", "E") if k != who]
    o = [k for k in rest if k != "K"][0]
    ev = open_round(n, ["K", "L", "E"])
    ev += [post("K", "b%d" % i) for i in range(4)] + [post(o, "c"), D, get("K", 1), D, get(o, 3), D]
    ev += [{"a": "gone", "k": who, "hole": True}, vote("K", 1, 1), vote(o, 1, -1), vote(o, 2, 1), vote(o, 3, 1), post("K", "d"), get("K", 1), get("K", 1)]
    now = [dlv("K", "C"), dlv(o, "C")]
    ev += now + [EN] + (now if rng.random() < 0.5 else []) + [EN] + now * 2
    # the new round is announced as soon as the table is back
    back = [dlv("S%d" % (i + 2) if i + 1 < n else "C", "S%d" % (i + 1)) for i in reversed(range(n))]
    ev += back + now + [cli("M"), dlv("M", "C"), dlv("S1", "C")] + now
    for i in range(n):
        ev += [dlv("S%d" % i if i else "C", "S%d" % (i + 1))]
    ev += [post("K", "e"), get(o, 1), dlv("S%d" % n, "C")] + now + [D, get(o, 1), D, vote(o, 1, 1), D]
    return ev + ROUND + [get("K", 1), D]


def d_honesty(rng, n=1):
    """the honesty test's messages repeated and out of order; requests before it is done"""
    ev = srv(n) + [D, EN, D, cli("K"), cli("E"), dlv("K", "C"), dlv("E", "C")]
    ev += [dlv("C", "S1")] * 2 + [dlv("S1", "C" if n == 1 else "S2")] * 2
    ev += [get("K", 1), dlv("C", "K"), dlv("C", "K"), get("K", 1)]
    ev += [D, {"a": "replay", "n": 3}, {"a": "replay", "n": 4}, D, EN, EN, D]
    ev += [{"a": "replay", "n": 3}, {"a": "replay", "n": 4}, D, get("K", 2), get("E", 2), D, cli("L"), dlv("L", "C")]
    ev += [D, EN, EN, D, get("L", 1), D]
    return ev


def d_beforetest(rng, n=1):
    """K has a table entry but its honesty test is still open when it asks"""
    ev = srv(n) + [D, EN, D, cli("K"), dlv("K", "C")]
    for i in range(n):
        ev += [dlv("C" if i == 0 else "S%d" % i, "S%d" % (i + 1))]
    ev += [dlv("S%d" % n, "C")]
    k = rng.randint(0, 2)
    ev += [dlv("C", "K")] * k                     # INITR, CONF
    ev += [EN, EN]
    for i in range(2 * n + 2):
        ev += [dlv("C", "S%d" % n)] + [dlv("S%d" % (j + 1), "S%d" % j if j else "C") for j in reversed(range(n))]
        ev += [dlv("C", "S1")] + [dlv("S%d" % (j + 1), "S%d" % (j + 2) if j + 1 < n else "C") for j in range(n)]
    # everything up to the table, but not the answer to the challenge
    ev += [dlv("C", "K")] * (6 - k) + [get("K", 1), dlv("K", "C"), get("K", 2), dlv("C", "K"), get("K", 1), D, get("K", 1), D]
    return ev
