"""Which properties a difference between the real nodes and the specification breaks.

A label is missing.T, extra.T, order.T, T.field, crash.N, step.A or pick; `at` is the step it was seen at and
ctx what had happened before (see Tags in ZRepTrace.tla)."""

TABLE = {
    # message type -> field (or "*") -> properties
    "SREG": {"*": "C13"}, "SREP": {"*": "C13"}, "UPH": {"*": "C13"}, "NEXT": {"*": "C13"}, "BCH": {"*": "C13"},
    "ANN": {"tab": "C01 C02", "nf": "C01", "dup": "C01 C10", "nym": "C01", "cm": "C11", "g": "C11", "prm": "C11 C01",
            "pf": "C12", "missing": "C09 C01 C12 C11 C13", "extra": "C09 C13 C12", "order": "C13 C09"},
    "FIN": {"tab": "C01 C02", "nf": "C01 C10", "dup": "C01 C10", "nym": "C01", "same": "C01", "prm": "C01", "g": "C01 C11",
            "missing": "C09 C10 C01", "extra": "C09", "order": "C09"},
    "CREG": {"*": "C10"},
    "CRS": {"*": "C10", "x": "C10 C01", "missing": "C10", "extra": "C10 C09"},
    "INITR": {"*": "C10", "r": "C10 C01"},
    "CONF": {"*": "C10", "hp": "C14", "prm": "C14 C10", "cpk": "C10 C06"},
    "CHAL": {"*": "C14"}, "ANSW": {"*": "C14"},
    "POST": {"*": "C05 C09", "sig": "C15 C05", "nym": "C05 C01"},
    "REQ": {"*": "C04", "sig": "C15 C04", "pf": "C04 C01 C02", "extra": "C14 C04", "missing": "C04 C14 C02 C09",
            "nym": "C04 C01"},
    "SIGN": {"asgs": "C05", "missing": "C04 C05", "extra": "C03 C05", "ind": "C03 C04", "nym": "C03 C05", "pf": "C03 C04",
             "order": "C05"},
    "GOT": {"ok": "C04 C03", "asgs": "C06 C05", "sv": "C06 C15", "missing": "C06 C04", "extra": "C06 C03"},
    "GOTC": {"*": "C06", "sig": "C06 C15", "full": "C06 C15", "missing": "C06 C04", "extra": "C06"},
    "VSTART": {"*": "C09"},
    "VOTE": {"*": "C07 C08", "sig": "C15 C07", "certs": "C06 C07", "fb": "C07 C08", "missing": "C08 C06 C09", "asg": "C06 C08"},
    "RE": {"tab": "C02 C07 C08", "nf": "C01 C10", "dup": "C01 C10", "nym": "C01", "prm": "C11 C01", "cm": "C11", "pf": "C12",
           "missing": "C09 C12 C01", "extra": "C09 C12", "order": "C13 C09"},
    "RDIFF": {"own": "C01 C10 C02", "n": "C01 C10", "missing": "C09 C02 C01", "extra": "C09 C02"},
    "REC": {"diffs": "C02 C07 C08", "missing": "C09 C02", "extra": "C09 C02"},
}

# where something stopped or could not go on
STEP = {"SREG": "C13", "UPH": "C13", "SREP": "C13", "NEXT": "C13", "BCH": "C13", "ANN": "C01 C12 C11", "FIN": "C01 C09",
        "CREG": "C10", "CRS": "C10", "INITR": "C10", "CONF": "C10 C14", "CHAL": "C14", "ANSW": "C14", "POST": "C05",
        "REQ": "C03 C04", "SIGN": "C04 C03", "GOT": "C06", "GOTC": "C06", "VOTE": "C07 C08", "RE": "C01 C02 C12",
        "RDIFF": "C02", "REC": "C02", "VSTART": "C09"}

REWARD = {("RE", "tab"), ("REC", "diffs"), ("ANN", "tab"), ("FIN", "tab"), ("RDIFF", "own")}


def owners(label, at, ctx):
    ctx = set(ctx)
    typ = at[4:] if at.startswith("dlv.") else None
    res = set()

    def add(s):
        res.update(s.split())
    kind, _, rest = label.partition(".")
    if kind == "crash":
        if rest == "C":
            add("C16")
        if typ:
            add(STEP.get(typ, ""))
        elif at in ("main", "enter"):
            add("C09")
        if rest.startswith("S"):
            add("C12 C13" if typ in ("ANN", "RE") else "")
            if ctx & {"gone", "junk"}:
                add("C16")
        if at == "get":
            add("C04")
        if at == "vote":
            add("C08")
        if at == "post":
            add("C05")
    elif kind == "step":
        add("C09")
        if typ:
            add(STEP.get(typ, ""))
    elif label == "own.rep":
        # what a member takes its reputation to be
        add("C02")
        if any(x.startswith(("bad.VOTE", "alien.VOTE", "dup.VOTE")) for x in ctx):
            add("C07 C08")
    elif label == "pick":
        add("C05")
    else:
        if kind in ("missing", "extra", "order"):
            t, f = rest, kind
        else:
            t, f = kind, rest
        row = TABLE.get(t)
        if row is None:
            # an unknown kind of message
            add(STEP.get(typ, "C09"))
        else:
            add(row.get(f, row.get("*", "C09")))
        if f == "missing" and at in ("get",):
            add("C04")
        if f in ("missing", "extra") and typ:
            add(STEP.get(typ, ""))
        if (t, f) in REWARD:
            add("C02")
            if any(x.startswith(("bad.VOTE", "alien.VOTE", "dup.VOTE")) for x in ctx):
                add("C07 C08")
            if any(x.startswith("late.") for x in ctx):
                add("C09")
            if any(x.startswith(("dup.POST", "bad.POST", "alien.POST")) for x in ctx):
                add("C05")
            if any(x.startswith(("dup.CREG", "bad.CREG", "late.CREG")) for x in ctx):
                add("C10")
        if t in ("SIGN", "GOT", "GOTC") and any(x.startswith("late.") for x in ctx):
            add("C09")
        if t in ("FIN", "ANN", "RE", "RDIFF", "REC", "CRS", "INITR", "CONF", "VSTART") and \
                any(x.endswith("CREG") for x in ctx):
            add("C10")
        if t in ("SIGN", "GOT") and any(x.startswith(("bad.REQ", "alien.REQ", "bad.SIGN")) for x in ctx):
            add("C03")
        if t == "GOTC" and any(x.endswith("GOT") for x in ctx):
            add("C06")
    if ctx & {"gone", "junk"} and (kind in ("missing", "step", "crash", "order") or at == "dlv.BAD"):
        add("C16")
    if kind not in ("crash", "extra") and ctx == {"junk"}:
        # nothing else was unusual
        add("C16")
    return res
