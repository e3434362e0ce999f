from . import gen_buf, gen_e2e, gen_fn, gen_lang, gen_steps, gen_txn, gen_vars

CHECKS = {}

# property -> (model configurations, generator configurations)
TXN = {
    "C01": (["calls"], ["calls", "flow"]),
    "C02": (["flow"], ["order", "skip"]),
    "C03": (["flow", "skip"], ["flow", "skip"]),
    "C04": (["chain"], ["chain"]),
    "C05": (["chain"], ["chain"]),
    "C06": (["act"], ["act"]),
    "C07": (["iv"], ["iv", "act"]),
    "C08": (["abort"], ["abort"]),
    "C09": (["mode"], ["mode"]),
}


def txn(pid):
    def run(c):
        mcs, gens = TXN[pid]
        for m in mcs:
            c.model_check("MCTxn", "MCTxn_%s.cfg" % m)
            if c.thorough:
                c.model_check("MCTxn", "MCTxn_%s_t.cfg" % m, timeout=1500)
        for g in gens:
            c.replay("txn", c.generate("GenTxn", "GenTxn_%s.cfg" % g), "replay-" + g, "GenTxn")
        for i in range(8 if c.thorough else 1):
            c.validate("TraceTxn", "txn", gen_txn.batch(c.rng, pid, 2500), label="random")
    return run


for _p in TXN:
    CHECKS[_p] = txn(_p)


def sample(c, scs, n):
    """At most n of the enumerated scenarios, chosen by the seed, numbered anew."""
    if len(scs) > n:
        scs = c.rng.sample(scs, n)
    for i, s in enumerate(scs):
        s["sid"] = i + 1
    return scs


def c10(c):
    c.model_check("MCBuffer", "MCBuffer_nofault%s.cfg" % ("_t" if c.thorough else ""), timeout=1500)
    for g, n in (("content", 6000), ("two", 3000)) + ((("content_t", 60000),) if c.thorough else ()):
        c.validate("TraceBuffer", "buf", sample(c, c.generate("GenBuffer", "GenBuffer_%s.cfg" % g), n), label="enumerated-" + g)
    for i in range(8 if c.thorough else 1):
        c.validate("TraceBuffer", "buf", gen_buf.batch(c.rng, 3000, False, big=60), label="random")


def c11(c):
    c.model_check("MCBuffer", "MCBuffer_fault%s.cfg" % ("_t" if c.thorough else ""), timeout=1500)
    for g, n in (("limit", 6000), ("fault", 2100)) + ((("limit_t", 60000),) if c.thorough else ()):
        c.validate("TraceBuffer", "buf", sample(c, c.generate("GenBuffer", "GenBuffer_%s.cfg" % g), n), label="enumerated-" + g)
    for i in range(8 if c.thorough else 1):
        c.validate("TraceBuffer", "buf", gen_buf.batch(c.rng, 3000, True, big=60), label="random-faults")


CHECKS["C10"] = c10
CHECKS["C11"] = c11


def fn_replay(c, module, cfgs):
    for g in cfgs:
        c.replay("fn", c.generate(module, "%s%s.cfg" % (module, g), timeout=1500), "replay-" + module + g, module)


def sizes(c, which):
    c.model_check("MCPump", "MCPump_%s%s.cfg" % (which, "_t" if c.thorough else ""))


def c16(c):
    sizes(c, "functions")
    fn_replay(c, "GenFn", ["_case"] + (["_case_t"] if c.thorough else []))
    for i in range(8 if c.thorough else 1):
        c.validate("TraceFn", "fn", gen_fn.trans_batch(c.rng, 8000, gen_fn.C16), label="random")


def c17(c):
    sizes(c, "functions")
    fn_replay(c, "GenFn", ["_url"] + (["_url_t"] if c.thorough else []))
    for i in range(8 if c.thorough else 1):
        c.validate("TraceFn", "fn", gen_fn.trans_batch(c.rng, 8000, ["urlDecode", "urlDecodeUni"]), label="random")


def c18(c):
    fn_replay(c, "GenFn", ["_num"] + (["_num_t"] if c.thorough else []))
    for i in range(8 if c.thorough else 1):
        c.validate("TraceFn", "fn", gen_fn.num_batch(c.rng, 8000), label="random")


def c19(c):
    sizes(c, "searches")
    fn_replay(c, "GenRx", ["", "_fl"] + (["_t", "_d", "_fl_t"] if c.thorough else []))
    for i in range(8 if c.thorough else 1):
        c.validate("TraceFn", "fn", gen_fn.rx_batch(c.rng, 6000), label="random")


CHECKS.update(C16=c16, C17=c17, C18=c18, C19=c19)


def vars_check(prof, fams):
    def run(c):
        c.model_check("MCVars", "MCVars%s.cfg" % ("_t" if c.thorough else ""), timeout=1500)
        for g, n, m in fams:
            c.validate("TraceVars", "vars", sample(c, c.generate("GenVars", "GenVars_%s.cfg" % (g + m if c.thorough else g)), 40000 if c.thorough else n),
                       label="enumerated-" + g, timeout=1500)
        c.validate("TraceMany", "many", gen_vars.many(c.rng, 200 if c.thorough else 40), label="many")
        for i in range(10 if c.thorough else 1):
            c.validate("TraceVars", "vars", gen_vars.batch(c.rng, 3000, prof), label="random")
    return run


CHECKS["C12"] = vars_check("C12", [("limit", 3000, "")])
CHECKS["C13"] = vars_check("C13", [("body", 3000, "_t")])
CHECKS["C14"] = vars_check("C14", [("select", 100, "_t")])
CHECKS["C15"] = vars_check("C15", [("query", 3000, "_t")])


def lang_check(prof, models, fams, n):
    def run(c):
        t = c.thorough
        for m in models:
            c.model_check("MCLang", "MCLang_%s%s.cfg" % (m, "_t" if t else ""), timeout=1800)
        for g, k, deep, probes in fams:
            scs = c.generate("GenLang", "GenLang_%s%s.cfg" % (g, deep if t else ""), timeout=1800)
            scs = sample(c, scs, 30000 if t else k)
            for s in scs:
                s.update(probe=gen_lang.PROBE, probes=gen_lang.PROBES if probes else gen_lang.PROBES[:2])
            c.validate("TraceLang", "lang", scs, label="enumerated-" + g, timeout=1800)
        for i in range(8 if t else 1):
            c.validate("TraceLang", "lang", gen_lang.batch(c.rng, n, prof), label="random")
    return run


CHECKS["C20"] = lang_check("C20", ["scan", "text"], [("arg", 2500, "_t", False), ("paste", 1500, "_t", False)], 2200)
CHECKS["C21"] = lang_check("C21", ["vars"], [("var", 1400, "", False), ("op", 300, "", True), ("act", 1900, "", False), ("trans", 100, "_t", True)], 2000)
CHECKS["C22"] = lang_check("C22", ["load"], [("load", 2000, "_t", False)], 800)


def c24(c):
    for g in ["pairs", "noacc"] + (["triples"] if c.thorough else []):
        c.replay("e2e", c.generate("MCE2E", "MCE2E_%s.cfg" % g, timeout=1800), "replay-" + g, "MCE2E")
    for i in range(12 if c.thorough else 1):
        c.validate("TraceE2E", "e2e", gen_e2e.batch(c.rng, 2500), label="random", angelic=True)
    c.validate("TraceMany", "many", gen_vars.many(c.rng, 200 if c.thorough else 60), label="many")


CHECKS["C24"] = c24


def c23(c):
    t = "_t" if c.thorough else ""
    for g, n in (("head", 6000), ("body", 5000), ("conn", 6000)):
        c.model_check("MCSched", "MCSched_%s%s.cfg" % (g, t), timeout=1800)
        scs = c.generate("MCSched", "MCSched_emit_%s%s.cfg" % (g, t), timeout=1800)
        c.replay("multi", sample(c, scs, 200000 if t else n), "interleavings-" + g, "MCSched")
    for how, n in (("fine", 500), ("free", 300), ("serial", 60)) * (8 if t else 1):
        scs = [gen_e2e.multi(c.rng, i + 1, how) for i in range(n)]
        race = how == "free"
        obs = c.run_harness("multi", scs, race=race, timeout=600, env={"GORACE": "halt_on_error=1 exitcode=66", "VH_FLUSH": "1"} if race else None)
        each, got, wrong = gen_e2e.alone(scs, obs)
        for s in wrong:
            c.violation(how, s, obs[s["sid"]], 1, "no data race, no crash, no hang, and the rules as they were", "Sched")
        c.validate("TraceE2E", "e2e", each, observed=got, label=how + " (each transaction by itself)", angelic=True)


CHECKS["C23"] = c23


def c25(c):
    c.model_check("MCSteps", "MCSteps%s.cfg" % ("_t" if c.thorough else ""))
    for i in range(8 if c.thorough else 1):
        scs = [gen_steps.scenario(c.rng, k + 1) for k in range(1500)]
        each, got = gen_steps.each(scs, c.run_harness("steps", scs))
        c.validate("TraceSteps", "steps", each, observed=got, label="steps")


CHECKS["C25"] = c25
