"""Whole scenarios: rule texts, and a request and response fed to the engine they make (C23, C24)."""
import copy, json

from . import gen_fn, gen_lang, gen_vars
from .gen_vars import b


def pairs_of(text):
    res = []
    for p in bytes(text).split(b"&"):
        n, _, v = p.partition(b"=")
        res += [list(n.replace(b"+", b" ")), list(v.replace(b"+", b" "))]
    return res


class Traffic:
    def __init__(self, r, weird=.1):
        self.r = r
        self.mp = gen_vars.NOMP
        kind = r.choice(["form", "form", "form", "multi", "other", "empty"])
        self.body, ct = [], r.choice(gen_vars.OTHER)
        if kind == "form":
            self.body, ct = gen_vars.form(r, r.choice([130, 260, 300]) if r.random() < .02 else None, bad=.1), r.choice(gen_vars.URLENC)
        elif kind == "multi":
            m = gen_vars.multipart(r)
            self.body, self.mp = gen_vars.mtext(m), m
            ct = "multipart/form-data; boundary=" + bytes(m["bd"]).decode()
            if r.random() < weird:
                self.body = self.body[:r.randint(0, len(self.body))]
        elif kind == "other":
            self.body = gen_vars.form(r)
        self.url = gen_vars.url(r, post=.8)
        if r.random() < .01:
            self.url["query"] = [c for c in gen_vars.form(r, r.choice([130, 260, 300])) if 32 < c < 127 and c != 35]
        self.reqh = gen_vars.header(r, ct)
        self.code = r.choice([200, 404, 500, 302])
        self.resh = gen_vars.header(r, r.choice(["", "text/html", "text/html; charset=utf-8", "application/json;a=b"]), True)
        self.resb = b(r.choice(["", "ok", "hello world", "abcdef", "<b>secret</b>"]))
        self.resproto = b(r.choice(["HTTP/1.1", "HTTP/2"]))
        self.ip = r.choice(["127.0.0.1", "10.1.2.3", "::1"])
        vals = pairs_of(self.body)[:12] + pairs_of(self.url["query"])[:12] + [self.url["method"], self.url["path"], self.url["proto"], b(self.ip), self.resb, self.resproto, b(str(self.code))]
        for h in self.reqh + self.resh:
            vals += [h["n"]] + h["vs"]
        vals += [p["v"] for p in self.mp["parts"]] + [p["n"] for p in self.mp["parts"]]
        self.vals = [v for v in vals if v]
        self.pool, self.last = [], None
        self.names = [b(n) for n in gen_vars.NAMES[:6]] + [b("Host"), b("X-A"), b("Content-Type"), b("Cookie"), b("X-B")]

        gp, pp = pairs_of(self.url["query"]), pairs_of(self.body) if kind == "form" else [x for p in self.mp["parts"] for x in (p["n"], p["v"])]
        hv = lambda h: [v for x in h for v in x["vs"]]
        hn = lambda h: [x["n"] for x in h]
        self.of = {"ARGS_GET": gp[1::2], "ARGS_GET_NAMES": gp[0::2], "ARGS_POST": pp[1::2], "ARGS_POST_NAMES": pp[0::2], "ARGS": gp[1::2] + pp[1::2], "ARGS_NAMES": gp[0::2] + pp[0::2],
                   "REQUEST_HEADERS": hv(self.reqh), "REQUEST_HEADERS_NAMES": hn(self.reqh), "RESPONSE_HEADERS": hv(self.resh), "RESPONSE_HEADERS_NAMES": hn(self.resh),
                   "REMOTE_ADDR": [b(self.ip)], "REQUEST_METHOD": [self.url["method"]], "REQUEST_PROTOCOL": [self.url["proto"]], "REQUEST_URI": [self.url["path"], self.url["query"]],
                   "REQUEST_FILENAME": [self.url["path"]], "QUERY_STRING": [self.url["query"]], "REQUEST_BODY": [self.body], "RESPONSE_BODY": [self.resb], "RESPONSE_STATUS": [b(str(self.code))],
                   "RESPONSE_PROTOCOL": [self.resproto], "RESPONSE_CONTENT_TYPE": [b("text/html"), b("octet")]}

    def ops(self):
        r = self.r
        ops = [{"o": "conn", "x": {"ip": b(self.ip)}}, {"o": "url", "x": self.url}, {"o": "reqh", "x": {"h": self.reqh}}]
        ops += [{"o": "append", "p": c} for c in gen_vars.chunks(r, self.body)] if self.body or r.random() < .3 else []
        ops += [{"o": "reqb"}, {"o": "resh", "x": {"code": self.code, "proto": self.resproto, "h": self.resh}}]
        ops += [{"o": "rappend", "p": c} for c in gen_vars.chunks(r, self.resb)] if self.resb else []
        ops += [{"o": "resb"}, {"o": "log"}]
        x = r.random()
        if x < .12:  # an embedder that leaves calls out, repeats or reorders them
            ops = [o for o in ops if r.random() < .85]
            for _ in range(r.randint(0, 2)):
                if ops:
                    i, j = r.randrange(len(ops)), r.randint(0, len(ops))
                    ops.insert(j, ops[i])
            if r.random() < .3:
                r.shuffle(ops)
        res = []
        every = r.random() < .75
        for o in ops:
            res.append(o)
            if o["o"] in ("conn", "reqh", "reqb", "resh", "resb", "log") and (every or r.random() < .3):
                res.append({"o": "res"})
                if r.random() < .05:
                    res.append({"o": "res"})
        if not every:
            res.append({"o": "res"})
        return res


def lit(s):
    return [{"k": "lit", "c": c} for c in s]


def operand(r, rx, tr, vs):
    """An operator that has a fair chance to hold on some value of the traffic."""
    x = r.random()
    neg = b(r.choice(["", "", "", "", "!"]))
    mine = [v for n in vs for v in tr.of.get(n, []) if v]
    if x < .7:
        v = list(r.choice(mine)) if mine and r.random() < .8 else list(r.choice(tr.vals)) if tr.vals and r.random() < .5 else b(r.choice(["zz", "a", "1", "foo"]))
        if r.random() < .15:
            v = [c + 32 if 65 <= c <= 90 else c for c in v]
        i = r.randint(0, len(v) - 1)
        v = v[i:i + r.randint(1, 5)]
        v = [c for c in v if 32 < c < 127 and c not in (33, 64)] or b("a")
        t = {"k": "cat", "l": ([{"k": "bol"}] if i == 0 and r.random() < .4 else []) + lit(v) + ([{"k": "eol"}] if r.random() < .25 else [])}
        if r.random() < .15:
            t = gen_fn.tree(r, 2)
        s = gen_fn.render(t)
        if len(s) > 40 or not s:
            t = {"k": "cat", "l": lit(b("a"))}
            s = b("a")
        rx.d[bytes(s)] = {"s": s, "ok": True, "tree": t}
        named = r.random() < .5 or s[0] in b("!@ ")
        return neg + (b("@rx ") if named else []) + s
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 12, 200, 404, -1])
    return neg + b("@%s %d" % (r.choice(["eq", "ge", "gt", "le", "lt"]), n))


def part(r, rx, tr):
    v = r.choice(gen_vars.COLL + ["ARGS", "ARGS_POST", "ARGS_GET", "REQUEST_HEADERS"]) if r.random() < .6 else r.choice(gen_vars.SCALAR)
    s, pre = b(v), ""
    if v in gen_vars.COLL:
        x = r.random()
        if x < .35:
            if r.random() < .3:
                n = [c for c in r.choice(tr.names) if c < 127][:2]
                t = {"k": "cat", "l": ([{"k": "bol"}] if r.random() < .6 else []) + lit(n)}
                q = gen_fn.render(t)
                rx.d[bytes(q)] = {"s": q, "ok": True, "tree": t}
                s += [58, 47] + q + [47]
            else:
                s += [58] + r.choice(tr.names[:5] if not v.endswith("HEADERS") else tr.names[6:])
            pre = r.choice(["", "", "", "&", "!"])
        else:
            pre = r.choice(["", "", "", "&"])
    if 44 in s or 124 in s:
        return b("ARGS")
    return b(pre) + s


def part_again(r, rx, tr):
    """Rules often look at the same things."""
    if tr.pool and r.random() < .6:
        return r.choice(tr.pool)
    p = part(r, rx, tr)
    if r.random() < .3:
        tr.pool.append(p)
    return p


def trans(r, tr):
    ts = [r.choice(gen_lang.TRANS) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    if tr.last and r.random() < .5:  # like that of another rule, up to a step
        ts = list(tr.last)
        x = r.random()
        if x < .4:
            ts.insert(0, r.choice(gen_lang.TRANS))
        elif x < .7:
            del ts[0]
        elif x < .85:
            r.shuffle(ts)
        else:
            ts.append(r.choice(gen_lang.TRANS))
    tr.last = ts
    return ts


def rule(r, rx, tr, chain, ph, heavy):
    ps = [part_again(r, rx, tr) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    v = ps[0]
    for p in ps[1:]:
        v = v + [124] + p
    acts = []
    if ph and r.random() < .9:
        acts.append("phase:" + ph)
    if r.random() < .5:
        acts.append("id:%d" % r.randint(1, 99))
    ts = trans(r, tr)
    for _ in range(r.choice([0, 1, 1, 2, 2])):
        acts.append(r.choice(heavy))
    if r.random() < .3:
        acts.append("log")
    if not acts:
        acts = ["log"]
    if chain:
        acts.append("chain")
    r.shuffle(acts)
    for t in ts:  # in this order, anywhere
        at = 1 + max([i for i, a in enumerate(acts) if a.startswith("t:")], default=-1)
        acts.insert(r.randint(at, len(acts)), "t:" + t)
    vs = [bytes(p).decode("latin-1").lstrip("&!").split(":")[0] for p in ps]
    return ("SecRule", [v, operand(r, rx, tr, vs), b(",".join(acts))])


HEAVY = [
    ["log", "log", "log", "msg:'x, y'", "tag:t", "status:418"],
    ["log", "deny", "deny", "deny", "pass", "status:451", "status:99", "block"],
    ["deny", "deny", "log", "status:418"],
    ["log", "log", "skip:1", "skip:2", "skip", "skip:3"],
    ["log", "log", "allow", "allow:phase", "allow:request", "pass", "skip:1"],
    ["log", "deny", "block", "pass", "allow", "allow:phase", "allow:request", "skip:1", "skip:2", "status:302", "status:503"],
]
PHS = ["2", "2", "3", "3", "3", "3", "4", "4", "1", "5", "request", "response", "logging"]


def rules(r, rx, tr, n):
    heavy = r.choice(HEAVY)
    same = r.choice(PHS) if r.random() < .5 else None
    ds = []
    if r.random() < .85:
        ds.append(("SecRequestBodyAccess", [b(r.choice(["On", "On", "On", "on", "Off"]))]))
    if r.random() < .7:
        ds.append(("SecResponseBodyAccess", [b(r.choice(["On", "On", "Off"]))]))
    if r.random() < .25:
        ds.append(("SecRuleEngine", [b(r.choice(["On", "DetectionOnly", "DetectionOnly", "Off"]))]))
    k = 0
    while k < n:
        ph = same or r.choice(PHS)
        if r.random() < .2:
            for _ in range(r.choice([1, 1, 2])):
                ds.append(rule(r, rx, tr, True, ph, heavy))
                k += 1
        ds.append(rule(r, rx, tr, False, ph, heavy))
        k += 1
    return ds


def texts(r, rx, tr, n):
    ds = rules(r, rx, tr, n)
    if r.random() < .8:
        return [gen_lang.render(r, ds, 1)]
    res, i = [], 0
    while i < len(ds):
        j = r.randint(i + 1, len(ds))
        while j < len(ds) and ds[j - 1][0] == "SecRule" and ds[j - 1][1][2].count(44) >= 0 and b"chain" in bytes(ds[j - 1][1][2]):
            j += 1
        res.append(gen_lang.render(r, ds[i:j], 1))
        i = j
    if r.random() < .2:
        res.insert(r.randint(0, len(res)), b("SecRule ARGS a deny:x"))
    return res


def limits(r, tr):
    n = len(tr.body)
    if r.random() < .8:
        return 100000, 200000, 1000
    return max(0, r.choice([n - 1, n, n + 1, 0, 5])), max(0, r.choice([n - 1, n, n + 1, 2000, 2000])), r.choice([0, 3, 100])


def long_parts(r, rx, tr):
    """Long runs in the traffic of no letter that an expression accepts (gen_fn.pumped); the limits are far away."""
    if not all(gen_fn.inert(x["tree"], 81) and gen_fn.inert(x["tree"], 113) for x in rx.list() if x["ok"]):
        return None
    for h in tr.reqh + tr.resh:
        if h["n"] != b("Content-Type") and r.random() < .4:
            gen_vars.put(r, r.choice(h["vs"]))
    if r.random() < .5:
        gen_vars.put(r, tr.url["query"])
    if r.random() < .3 and tr.url["path"]:
        tr.url["path"] += gen_vars.QQ
    if r.random() < .5:
        gen_vars.put(r, tr.resb)
    if tr.mp is gen_vars.NOMP and tr.body and r.random() < .7:
        gen_vars.put(r, tr.body)
    elif tr.mp["parts"] and tr.body == gen_vars.mtext(tr.mp):
        for p in tr.mp["parts"]:
            if r.random() < .5:
                p["v"] = p["v"] + gen_vars.QQ
        tr.body = gen_vars.mtext(tr.mp)
    return {"c": 81, "n": r.choice(gen_fn.SIZES), "lim": False}


def far(r, rx, tr, ts):
    """Something at the far end of a long value, and rules that look for it there."""
    for _ in range(r.choice([1, 1, 2])):
        lits = b("".join(r.choice("abxyz12") for _ in range(r.choice([1, 2, 3, 6]))))
        where = r.choice(["query", "query", "resb", "reqh", "resh"] + ["body"] * 3 * (tr.mp is gen_vars.NOMP and len(tr.body) > 0))
        more = b(r.choice(["", "", "c", "zz"])) + gen_vars.QQ + lits
        if where == "query":
            tr.url["query"] = tr.url["query"] + b("&a=") + more
            vs, tr.url["hasq"] = ["ARGS", "ARGS_GET", "QUERY_STRING", "REQUEST_URI"], True
        elif where == "body":
            tr.body = list(tr.body) + b("&zz=") + more
            vs = ["ARGS", "ARGS_POST", "REQUEST_BODY"]
        elif where == "resb":
            tr.resb = list(tr.resb) + more
            vs = ["RESPONSE_BODY"]
        else:
            h = getattr(tr, where)
            h.append({"n": b("X-Far%d" % len(h)), "vs": [more]})
            vs = ["REQUEST_HEADERS"] if where == "reqh" else ["RESPONSE_HEADERS"]
        s = lits + [36]
        rx.d[bytes(s)] = {"s": s, "ok": True, "tree": {"k": "cat", "l": [{"k": "lit", "c": c} for c in lits] + [{"k": "eol"}]}}
        ts.append(gen_lang.render(r, [("SecRule", [b(r.choice(vs)), s, b("phase:%d,id:%d,%s%s" % (r.choice([3, 4, 5]), 850 + len(ts), r.choice(["", "t:lowercase,", "t:urlDecode,", "t:urlDecodeUni,t:removeNulls,"]),
                                                                                                          r.choice(["deny", "log", "deny,status:404"])))])], 1))


def scenario(r, sid):
    rx, tr = gen_lang.Rxs(r), Traffic(r)
    ts = texts(r, rx, tr, r.choice([1, 2, 3, 4, 6, 9]) if r.random() < .985 else r.choice([20, 35, 70]))
    later = [gen_lang.render(r, rules(r, rx, tr, r.choice([1, 1, 2, 4])), 1) if r.random() < .9 else b("SecRule ARGS a deny\nSecRule ARGS a deny:x")
             for _ in range(r.choice([1, 1, 2]))] if r.random() < .15 else []
    m, q, s = limits(r, tr)
    pump = long_parts(r, rx, tr) if r.random() < .06 else None
    if pump:
        m, q, s = 100000, 200000, 1000
        far(r, rx, tr, ts)
    ops = tr.ops()
    for t in later:  # executed on the engine while the transaction is under way
        ops.insert(r.randint(0, len(ops)), {"o": "exec", "p": t})
    return {**({"pump": pump} if pump else {}), "sid": sid, "rxs": rx.list(), "mp": tr.mp, "memlim": m, "reqlim": q, "reslim": s, "ip": tr.ip, "port": r.choice(["1234", "80"]),
            "ops": [{"o": "load", "p": t} for t in ts] + [{"o": "start"}] + ops}


def batch(r, n):
    return [scenario(r, i + 1) for i in range(n)]


def short(r, ops):
    """Fewer calls, so that there are more ways to interleave them that matter."""
    keep = r.choice(["reqb", "resh", "resb", "log"])
    i = next((i for i, o in enumerate(ops) if o["o"] == keep), len(ops) - 1)
    return ops[:i + 2]


def tail(r, s, must=False):
    """One byte near the end is another one: what is there then, and what may show it."""
    at = [i for i in range(max(0, len(s) - 6), len(s)) if s[i] in b("abxyz1234") and 37 not in s[max(0, i - 2):i]]
    if not at or not must and r.random() < .5:
        return None
    i = r.choice(at)
    s[i] = r.choice([c for c in b("abx1") if c != s[i]])
    k = i + 1
    while k < len(s) and k < i + 3 and s[k] in b("abxyz1234"):
        k += 1
    return s[i:k]


def twins(r, rx, trs, ts):
    """The second transaction is the first one but for a byte here and there; both are of one length, which may be long."""
    long = long_parts(r, rx, trs[0]) if r.random() < .7 else None
    t = copy.copy(trs[0])
    t.url, t.reqh, t.resh, t.resb = copy.deepcopy((t.url, t.reqh, t.resh, t.resb))
    had = [(tail(r, t.url["query"], True), ["ARGS", "ARGS", "ARGS_GET", "QUERY_STRING", "REQUEST_URI", "ARGS_NAMES"]), (tail(r, t.url["path"]), ["REQUEST_FILENAME", "REQUEST_BASENAME", "REQUEST_URI"]),
           (tail(r, t.resb), ["RESPONSE_BODY"])]
    for h in t.reqh + t.resh:
        if h["n"] != b("Content-Type"):
            had.append((tail(r, r.choice(h["vs"])), ["REQUEST_HEADERS", "REQUEST_COOKIES"] if h in t.reqh else ["RESPONSE_HEADERS"]))
    if t.mp is gen_vars.NOMP and t.body:
        t.body = list(t.body)
        had.append((tail(r, t.body), ["ARGS", "ARGS_POST", "REQUEST_BODY", "ARGS_POST_NAMES"]))
    trs[1] = t
    had = [x for x in had if x[0]]
    for lits, vs in r.sample(had, min(2, len(had))):  # a rule that tells them apart
        rx.d[bytes(lits)] = {"s": lits, "ok": True, "tree": {"k": "cat", "l": [{"k": "lit", "c": c} for c in lits]}}
        ts.append(gen_lang.render(r, [("SecRule", [b(r.choice(vs)), lits, b("phase:%d,id:%d,%s" % (r.choice([3, 3, 4, 5]), 800 + len(ts), r.choice(["deny", "log", "deny,status:404"])))])], 1))
    if long:
        long["n"] = r.choice([60, 62, 126, 254, 255, 256, 300, 510, 1022, 2000, 4094, 8192])
    return long


def multi(r, sid, how):
    """A few transactions on one engine (C23). Two of them may carry the same request."""
    rx, base = gen_lang.Rxs(r), Traffic(r, weird=0)
    n = r.choice([2, 2, 3, 4]) if how != "serial" else r.choice([2, 3, 5])
    trs = [base] + [Traffic(r, weird=0) for _ in range(n - 1)]
    x, pump = r.random(), None
    if x < .3:
        trs[1] = base
    ts = []
    for tr in r.sample(trs, min(2, len(trs))):
        ts += texts(r, rx, tr, r.choice([1, 2, 3, 4]))
    m, q, s = limits(r, r.choice(trs))
    if x > .7:
        pump = twins(r, rx, trs, ts)
        if pump:
            m, q, s = 100000, 200000, 1000
    txs = [{"ip": tr.ip, "port": r.choice(["1234", "80"]), "mp": tr.mp, "ops": short(r, tr.ops()) if r.random() < .5 else tr.ops()} for tr in trs]
    sc = {"sid": sid, "rxs": rx.list(), "texts": ts, "memlim": m, "reqlim": q, "reslim": s, "txs": txs, "how": how, **({"pump": pump} if pump else {})}
    if how == "fine":
        k = 60 * n
        if r.random() < .5:  # long and short turns
            sc["sched"] = []
            while len(sc["sched"]) < k:
                sc["sched"] += [r.randint(1, n)] * r.choice([1, 1, 2, 3, 10, 30])
        else:
            sc["sched"] = [r.randint(1, n) for _ in range(k)]
    elif how == "free":
        sc.update(rounds=6, copies=2)
    else:
        sc.update(rounds=30)
    return sc


def alone(scs, obs):
    """What every transaction showed, as scenarios of TraceE2E (equal ones once), and what is wrong whatever it was."""
    res, got, wrong = [], {}, []
    for s in scs:
        ev = obs[s["sid"]]
        out = [e for e in ev if "t" not in e]
        if out or any(e["t"] == 0 and e["e"]["e"] != "load" for e in ev):
            wrong.append(s)
        if out:
            continue
        loads = [e["e"] for e in ev if e["t"] == 0 and e["e"]["e"] == "load"]
        seen = set()
        if s["how"] == "fine":
            for i in range(1, len(s["txs"]) + 1):
                seen.add((i, json.dumps([e["e"] for e in ev if e["t"] == i])))
        else:
            seen = {(e["t"], json.dumps(e["run"])) for e in ev if "run" in e}
        for i, one in sorted(seen):
            x = s["txs"][i - 1]
            sid = len(res) + 1
            res.append({"sid": sid, "rxs": s["rxs"], "mp": x["mp"], "memlim": s["memlim"], "reqlim": s["reqlim"], "reslim": s["reslim"], "ip": x["ip"], "port": x["port"],
                        "ops": [{"o": "load", "p": t} for t in s["texts"]] + [{"o": "start"}] + x["ops"], "group": s["sid"], "tx": i})
            got[sid] = loads + [{"e": "start"}] + json.loads(one)
    return res, got, wrong
