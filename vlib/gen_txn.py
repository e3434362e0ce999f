"""Random scenarios for the transaction machine (Txn.tla). A profile says what a scenario exercises most."""

NATURAL = ["conn", "url", "reqh", "reqb", "resh", "resb", "log"]
PHASE_CALLS = ["conn", "reqh", "reqb", "resh", "resb", "log"]

DEF = dict(phases=[1, 2, 3, 4, 5, 6], nrules=(1, 6), pmatch=0.6, pchain=0.12, chainlen=(1, 3), pabortvar=0.0, pabortop=0.0,
           pnot=0.2, rich=0.15, acts={"mark": 4, "log": 1}, nacts=(1, 3), calls="natural", pres=0.25, pabort=0.0, mode=[-1, 0],
           pmode=0.0, defs=(0, 2), oddphase=0.03, bignum=0.03, hugenum=0.0, manyacts=0.02, manyvals=0.02, longchain=0.01)

PROFILES = {
    "C01": dict(calls="wild", nrules=(2, 9), acts={"mark": 6, "log": 1, "allow": 1.5, "skip": 0.5, "deny": 0.2}, pres=0.3, nacts=(1, 2)),
    "C02": dict(hugenum=0.006, nrules=(1, 12), acts={"mark": 6, "log": 1, "status": 0.5, "pass": 0.3}, pmatch=0.5, calls="mostly", oddphase=0.1, nacts=(1, 2), bignum=0.12),
    "C03": dict(hugenum=0.003, nrules=(3, 12), acts={"mark": 3, "skip": 1.2, "skip1": 0.5, "allow": 0.8, "log": 0.3}, pmatch=0.55, calls="mostly", phases=None, nacts=(1, 3), pchain=0.15),
    "C04": dict(longchain=0.05, nrules=(1, 5), pchain=0.8, chainlen=(1, 4), pmatch=0.75, acts={"mark": 5, "log": 0.6, "status": 0.6, "deny": 0.5, "skip": 0.3, "allow": 0.2}, calls="mostly", pres=0.4),
    "C05": dict(manyvals=0.06, nrules=(1, 5), rich=1.0, pchain=0.2, pnot=0.4, acts={"mark": 1}, nacts=(1, 1), calls="natural", phases=[2, 3]),
    "C06": dict(manyacts=0.1, nrules=(1, 4), pmatch=0.9, nacts=(0, 7), acts={"mark": 4, "status": 1.5, "log": 1, "deny": 0.8, "block": 0.8, "pass": 0.7, "skip": 0.5, "allow": 0.3, "custiv": 0.2},
                defs=(0, 5), pchain=0.3, calls="mostly", pres=0.5),
    "C07": dict(nrules=(1, 7), pmatch=0.7, acts={"mark": 1, "log": 2, "deny": 1.5, "status": 1, "pass": 0.6, "block": 0.5, "custiv": 0.5}, calls="mostly", pres=0.6, nacts=(1, 4), defs=(0, 3)),
    "C08": dict(nrules=(1, 6), pmatch=0.8, acts={"mark": 3, "log": 1, "pass": 0.7, "deny": 0.3, "status": 0.3, "abort": 0.8}, pabort=0.15, pabortvar=0.15, pabortop=0.1, calls="mostly", pres=0.5, pchain=0.3, mode=[-1, 0, 0, 2, 2, 1], pmode=0.04),
    "C09": dict(nrules=(1, 6), pmatch=0.8, acts={"mark": 3, "log": 1, "deny": 1, "block": 0.5, "pass": 0.5, "allow": 0.6, "status": 0.5, "skip": 0.5, "mode": 0.25}, mode=[0, 1, 1, 2, 2, 2], pmode=0.15, calls="mostly", pres=0.5, defs=(0, 3), pchain=0.3),
}

ABORTS = [403, 413, 500, 403, 413, 500, 302, 200, 100, 0, 404, 599, 600, -1]
STATUSES = [200, 403, 404, 500, 99, 100, 599, 600, 0, -1, 302, 418]


def pick(rng, w):
    ks = list(w)
    return rng.choices(ks, [w[k] for k in ks])[0]


def word(rng, n=4, alpha=(97, 98, 99)):
    return [rng.choice(alpha) for _ in range(rng.randint(0, n))]


IPS = ["1.2.3.4", "10.0.0.1", "::1", "fe80::1%eth0", "2001:db8::8a2e:370:7334", "", "%s", "%d%d%!", "100%", "%25", "a b", "[::1]", "]", "unix:@", "h\u00f6st",
       "line\nbreak", "\t", "x" * 300, "1.2.3.4:5", "\"quoted\"", "%(EXTRA string=x)", "${ip}", "\\", "\u2028", "0", "[client 1.1.1.1:1]"]
PORTS = ["1", "80", "65535", "0", "", "99999", "%d", "-1", "http", "%v%v", "p" * 200, "8 0"]
CODES = [200, 200, 204, 304, 404, 500, 100, 101, 103, 199, 0, -1, 302, 999, 65536, 599]
HDRS = [None, [], [["X-A", "1"]], [["Content-Type", "text/plain"], ["Content-Length", "5"]], [["Connection", "Upgrade"], ["Upgrade", "websocket"]],
        [["Expect", "100-continue"]], [["Transfer-Encoding", "chunked"]], [["Content-Encoding", "gzip"]], [["Content-Length", "0"]],
        [["Cookie", "a=b"], ["X", ""], ["", "y"]], [["Content-Type", "multipart/form-data; boundary=x"]], [["X-Forwarded-For", "8.8.8.8"]]]


def payload(rng, c):
    return {k: v for k, v in _payload(rng, c).items() if v is not None}


def _payload(rng, c):
    """What the caller hands over with a call; none of it decides which rules run."""
    if c == "conn":
        return {"dip": rng.choice(IPS), "dport": rng.choice(PORTS)}
    if c == "url":
        return {"u": rng.choice(["", "/", "/x", "/a/b?c=d", "nil", "?", "http://h:1/p?q#f", "//h", "*", "/%2e%2e", "mailto:x"]),
                "m": rng.choice(["GET", "POST", "HEAD", "PUT", "OPTIONS", "CONNECT", "TRACE", "", "get", "X" * 50]), "pr": rng.choice(["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "", "x"])}
    if c == "reqh":
        return {"h": rng.choice(HDRS)}
    if c == "resh":
        return {"n": rng.choice(CODES), "pr": rng.choice(["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "", "x"]), "h": rng.choice(HDRS)}
    return {}


def action(rng, k):
    a = {"k": k, "n": 0, "s": ""}
    if k == "mark":
        a["n"] = rng.choice([0, 1, 2, 2, 2, 3, 4])
    elif k == "status":
        a["n"] = rng.choice(STATUSES)
    elif k == "skip":
        a["n"] = rng.choice([0, 1, 1, 2, 2, 3, 5, 40])
    elif k == "allow":
        a["s"] = rng.choice(["", "phase", "phase", "request", "nonsense"])
    elif k == "mode":
        a["n"], a["s"] = rng.choice([0, 1, 1, 2, 2]), rng.choice(["", "", "fields", "sec"])
    elif k == "abort":
        a["n"] = rng.choice(ABORTS)
    elif k == "custiv":
        a["n"] = rng.choice([302, 200, 401])
    return a


def ruleid(rng, rid):
    """Ids are for people: whatever they are, they must not matter."""
    return {0: rid[0], 1: 5000 - rid[0], 2: 0, 3: rng.choice([0, 1, 7, 7, 900001, -3, 2147483647, 1000])}[rid[1]]


def rule(rng, p, rid, phase, depth=0):
    n = rng.randint(*p["nacts"])
    if rng.random() < p["manyacts"]:
        n = rng.randint(10, 60)
    acts = [action(rng, pick(rng, p["acts"])) for _ in range(n)]
    if rng.random() < 0.7:
        acts.append({"k": "mark", "n": 2, "s": ""})
    not_ = rng.random() < p["pnot"]
    tr = []
    if rng.random() < p["rich"]:
        nv = rng.choice([1, 1, 2, 3])
        vars_ = [{"vals": [word(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6]))], "ab": 0} for _ in range(nv)]
        nt = rng.choice([0, 1, 1, 2, 2, 3])
        late = False
        if rng.random() < p["manyvals"]:  # sizes beyond what anyone writes by hand
            k = rng.choice(["vals", "len", "vars", "trans"])
            if k == "vals":
                rng.choice(vars_)["vals"] = [word(rng) for _ in range(rng.choice([20, 70, 300, 600, 1100, 2100]))]
                late = rng.random() < 0.6
            elif k == "len":
                rng.choice(vars_)["vals"] = [word(rng, rng.choice([100, 600, 3000])) for _ in range(rng.randint(1, 3))]
                nt = rng.choice([0, 0, 1])
            elif k == "vars":
                vars_ = [{"vals": [word(rng) for _ in range(rng.choice([0, 0, 1]))], "ab": 0} for _ in range(rng.choice([9, 20, 40]))]
            else:
                nt = rng.choice([8, 17, 40])
        for i in range(nt):
            tr.append({"k": rng.choice(["app", "rev", "drop", "dup"] if i < 4 else ["app", "rev", "drop"]), "n": rng.choice([97, 98]), "s": ""})
        k = rng.choice(["eq", "eq", "has", "has", "longer", "all", "none"])
        op = {"k": k, "arg": word(rng, 3), "n": rng.randint(0, 6)}
        if k in ("eq", "has") and rng.random() < 0.6:  # aim at a value that occurs
            if late:  # the only value that can match comes late
                v = max((x["vals"] for x in vars_), key=len)
                v[-1 - rng.choice([0, 0, 1, 7])] = [100] + word(rng)
                op.update(k="has", arg=[100])
            allv = [] if late else [v for x in vars_ for v in x["vals"]]
            if allv:
                v = transform(tr, rng.choice(allv))
                op["arg"] = v if k == "eq" else v[:rng.randint(0, len(v))]
    else:
        m = rng.random() < p["pmatch"]
        vars_ = [{"vals": [[97]], "ab": 0}]
        if rng.random() < 0.2:
            vars_.append({"vals": [word(rng)], "ab": 0})
        op = {"k": "all" if m != not_ else "none", "arg": [], "n": 0}
    if rng.random() < p["pabortvar"]:
        vars_ = [{"vals": [[97]] if rng.random() < 0.5 else [], "ab": rng.choice([413, 500, 403, 302, 200, 1, 599])}]
    elif rng.random() < p["pabortop"]:
        not_ = False
        vars_ = [{"vals": [word(rng, 1) for _ in range(3)], "ab": 0}]
        tr = []
        op = {"k": "abeq", "arg": word(rng, 1), "n": rng.choice([413, 500, 302, 200, 1])}
    subs = []
    r = {"rid": rid[0], "id": ruleid(rng, rid), "ph": phase, "not": not_, "vars": vars_, "tr": tr, "op": op, "acts": acts, "subs": subs}
    rid[0] += 1
    if depth == 0 and rng.random() < p["pchain"]:
        for _ in range(rng.randint(*p["chainlen"]) if rng.random() >= p["longchain"] else rng.choice([8, 20, 40])):
            subs.append(rule(rng, p, rid, rng.choice([phase, 0, 2, 5]), 1))
    return r


def transform(tr, v):
    v = list(v)
    for a in tr:
        if a["k"] == "app":
            v = v + [a["n"]]
        elif a["k"] == "rev":
            v = v[::-1]
        elif a["k"] == "drop":
            v = v[1:]
        else:
            v = v + v
    return v


def calls(rng, p):
    if rng.random() < 0.01:  # a caller that goes on and on
        k = rng.choice([3, 10, 40])
        return [c for _ in range(k) for c in calls(rng, dict(p, calls="wild"))]
    kind = p["calls"]
    if kind == "mostly":
        kind = "natural" if rng.random() < 0.7 else "wild"
    if kind == "natural":
        cs = [c for c in NATURAL if rng.random() > 0.06]
    else:
        cs = []
        base = [c for c in NATURAL if rng.random() > 0.25]
        for c in base:
            cs.append(c)
            while rng.random() < 0.3:
                cs.append(rng.choice(PHASE_CALLS))
        if rng.random() < 0.3:
            rng.shuffle(cs)
        if rng.random() < 0.3:
            cs = cs + [c for c in NATURAL if rng.random() < 0.7]
    out = []
    for c in cs:
        out.append({"c": c, "n": 0, "p": payload(rng, c)})
        if rng.random() < 0.08:  # bytes between the calls
            out.append({"c": rng.choice(["breq", "bres"]), "n": rng.choice([0, 1, 3, 200])})
        if rng.random() < p["pres"]:
            out.append({"c": "res", "n": 0})
            if rng.random() < 0.15:
                out.append({"c": "res", "n": 0})
        if rng.random() < p["pabort"]:
            out.append({"c": rng.choice(["abort", "aberr"]), "n": rng.choice(ABORTS)})
        if rng.random() < p["pmode"]:
            out.append({"c": "mode", "n": rng.choice([0, 1, 2]), "s": rng.choice(["", "", "fields", "sec"])})
    if rng.random() < 0.8:
        out.append({"c": "res", "n": 0})
    return out


def scenario(rng, prof, sid):
    p = dict(DEF)
    p.update(PROFILES[prof])
    rid = [1, rng.choice([0, 0, 1, 2, 3, 3])]
    phases = p["phases"]
    if phases is None or rng.random() < 0.35:  # concentrate on few phases so that rules meet
        phases = rng.sample([1, 2, 3, 4, 5, 6], rng.choice([1, 1, 2, 2, 3]))
    n = rng.randint(*p["nrules"])
    if rng.random() < p["bignum"]:
        n = rng.randint(12, 40)
    if rng.random() < p["hugenum"]:
        n = rng.choice([130, 257, 300, 520, 1030])
        p.update(rich=0, nacts=(0, 1), pchain=0.01, manyacts=0, manyvals=0)
        phases = phases[:2] if rng.random() < 0.7 else phases
    rules = []
    for _ in range(n):
        ph = rng.choice(phases)
        if rng.random() < p["oddphase"]:
            ph = rng.choice([0, 7, 8, -1])
        rules.append(rule(rng, p, rid, ph))
    if rules and rng.random() < 0.1 and prof != "C05":
        rules[rng.randrange(len(rules))]["acts"] = []
    for i in range(len(rules)):  # the same rule again
        if rng.random() < 0.02:
            rules.insert(rng.randint(0, len(rules)), rules[i])
    defs = []
    for _ in range(rng.randint(*p["defs"])):
        k = rng.choice(["deny", "log", "status", "mark", "pass", "deny"])
        defs.append(action(rng, k))
    cs = calls(rng, p)
    while rng.random() < 0.05:  # rules that are added later, also ones that are there already
        cs.insert(rng.randint(0, len(cs)), {"c": "add", "n": 0, "defs": [action(rng, rng.choice(["deny", "log", "status"]))] if rng.random() < 0.2 else [],
                                            "rules": [rule(rng, p, rid, rng.choice(phases)) if rng.random() < 0.9 or not rules else rng.choice(rules)
                                                      for _ in range(rng.choice([1, 1, 2, 4]))]})
    return {"sid": sid, "own": rng.random() < 0.1, "rules": rules, "defs": defs, "mode": rng.choice(p["mode"]), "ip": rng.choice(IPS), "port": rng.choice(PORTS),
            "calls": cs, "direct": rng.random() < 0.5, "share": rng.random() < 0.3,
            # how many other transactions the engine has seen, and how many of the rules were there then
            "warm": [] if rng.random() < 0.7 else [rng.randint(0, len(rules)) if rng.random() < 0.5 else len(rules), rng.choice([1, 1, 2, 5, 20 if n < 50 else 1])]}


def batch(rng, prof, n):
    return [scenario(rng, prof, i + 1) for i in range(n)]
