"""Texts whose rules name their phase in every way, and histories of calls (C25)."""
from . import gen_e2e, gen_lang
from .gen_vars import b

WORDS = {"1": 1, "2": 2, "3": 3, "4": 4, "5": 5, "request": 2, "response": 4, "logging": 5}


def actions(r, i):
    """Actions of a rule with this id, and the phase they name."""
    ph, acts = 2, ["id:%d" % i]
    for _ in range(r.choice([0, 1, 1, 1, 1, 1, 1, 2])):
        w = r.choice(list(WORDS))
        ph = WORDS[w]
        w = r.choice([w, w, "'" + w + "'", " " + w, w + " "])
        acts.append("phase:" + w)
    rest = [r.choice(["log", "t:none", "t:lowercase", "msg:'phase:1'", "tag:phase", "msg:'a, phase:5'", "status:404", "pass"]) for _ in range(r.choice([0, 1, 2]))]
    if acts[1:] and r.random() < .5:  # the phases stay in order
        acts = acts[1:] + acts[:1]
    for x in rest:
        acts.insert(r.randint(0, len(acts)), x)
    return acts, ph


def scenario(r, sid):
    tr = gen_e2e.Traffic(r, weird=0)
    ds, ids, i = [], [], 0
    for _ in range(r.choice([1, 2, 3, 5])):
        i += 1
        acts, ph = actions(r, i)
        ids.append((i, ph))
        subs = r.choice([0, 0, 0, 1, 2])
        if subs:
            acts.append("chain")
        v = b(r.choice(["ARGS", "&ARGS", "REMOTE_ADDR", "REQUEST_HEADERS", "ARGS_POST|RESPONSE_BODY", "REQUEST_BODY", "RESPONSE_STATUS"]))
        ds.append(("SecRule", [v, b(r.choice(["@ge 0", "a", "!@eq 7", "^"])) if 0 else b(r.choice(["@ge 0", "!@eq 7", "@gt 99999"])), b(",".join(acts))]))
        for k in range(subs):
            a = [x for x in actions(r, 90 + k)[0]] if r.random() < .5 else ["log"]
            if k < subs - 1:
                a.append("chain")
            ds.append(("SecRule", [b("ARGS"), b("@ge 0"), b(",".join(a))]))
    text = gen_lang.render(r, ds, 1)
    calls = ["conn", "url", "reqh", "append", "reqb", "resh", "rappend", "resb", "log"]
    if r.random() < .4:  # an embedder that takes a step twice
        for _ in range(r.randint(1, 3)):
            k = r.randint(2, len(calls) - 1)
            calls.insert(r.randint(k + 1, len(calls)), r.choice([c for c in calls[:k + 1] if c not in ("append", "rappend")]))
    if r.random() < .5:
        calls = [c for x in calls for c in ([x, "res"] if x not in ("url", "append", "rappend") else [x])]
    return {"sid": sid, "texts": [text], "new": r.random() < .5, "ids": ids, "calls": calls,
            "x": {"u": tr.url, "h": tr.reqh, "b": tr.body, "r": {"code": tr.code, "proto": tr.resproto, "h": tr.resh}, "rb": tr.resb}}


def each(scs, obs):
    """One scenario per rule: in which calls it was evaluated."""
    res, got = [], {}
    for s in scs:
        ev = obs[s["sid"]]
        for i, ph in s["ids"]:
            sid = len(res) + 1
            res.append({"sid": sid, "text": s["texts"][0], "id": i, "phase": ph, "calls": s["calls"], "whole": s["sid"]})
            got[sid] = [{"e": e["e"], "c": e["c"]} if "id" in e else e for e in ev if e.get("id", i) == i]
    return res, got
