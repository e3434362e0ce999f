"""Plumbing shared by the checks: build the harness from /repo, run it, run TLC, write the evidence."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JAVA = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]


class CheckError(Exception):
    """The check could not decide: neither held nor violated."""


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", HOME=e.get("HOME", "/root"))
    return e


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.rng = random.Random("%s/%s/%s" % (pid, SEED, TIER))
        self.thorough = TIER == "thorough"
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = 0
        self.traces = 0
        self.replayed = 0
        self.samples = []
        self.parts = {}
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.known = load_known(pid)
        self._bin = None

    # ---- building and running the code under test

    def build(self, race=False, tag=""):
        out = os.path.join(self.dir, "vh-race" if race else "vh")
        if os.path.exists(out):
            return out
        # built from a copy so that nothing is written below /verif
        src = os.path.join(self.dir, "harness")
        if not os.path.exists(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        if os.environ.get("GOCOVERDIR"):  # to see which lines of the code under test the scenarios reach
            cmd[2:2] = ["-cover", "-coverpkg=./...,github.com/senghoo/modsecurity-go/..."]
        r = subprocess.run(cmd, cwd=src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("harness does not build:\n" + r.stdout[-4000:])
        return out

    def run_harness(self, mode, scenarios, timeout=300, race=False, env=None, wrap=None):
        """Runs the scenarios, returns {sid: events}. A scenario that kills or hangs the process is recorded as such."""
        vh = self.build(race)
        scr = os.path.join(self.dir, "scratch")
        os.makedirs(scr, exist_ok=True)
        res = {}
        todo = list(scenarios)
        e = dict(os.environ)
        e["TMPDIR"] = scr
        e["GOTRACEBACK"] = "single"
        e.update(env or {})
        rounds = 0
        while todo:
            rounds += 1
            if rounds > 12:  # enough: the scenarios that are left cannot be told from those it died in
                for s in todo:
                    res[s["sid"]] = [{"e": "crash", "out": "not run, the code under test keeps dying"}]
                break
            fin, fout = os.path.join(self.dir, "in.ndjson"), os.path.join(self.dir, "out.ndjson")
            with open(fin, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            if os.path.exists(fout):
                os.unlink(fout)
            try:
                r = subprocess.run((wrap or []) + [vh, mode, fin, fout, scr], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=e, timeout=timeout, text=True, errors="replace")
            except subprocess.TimeoutExpired:
                raise CheckError("harness did not finish in %ss" % timeout)
            started, crashed = [], None
            if os.path.exists(fout):
                for line in open(fout):
                    if not line.endswith("\n"):
                        break
                    o = json.loads(line)
                    if "start" in o:
                        started.append(o["start"])
                    else:
                        res[o["sid"]] = o["ev"]
            if r.returncode == 0:
                break
            if r.returncode != 7:  # 7: the harness gave up a hanging scenario
                if e.get("VH_FLUSH"):
                    bad = [s for s in started if s not in res]
                    if len(bad) != 1:
                        raise CheckError("harness failed (%d):\n%s" % (r.returncode, r.stdout[-3000:]))
                    res[bad[0]] = [{"e": "crash", "out": race_excerpt(r.stdout)}]
                else:
                    e["VH_FLUSH"] = "1"  # once more, now knowing which scenario it is
            todo = [s for s in todo if s["sid"] not in res]
        for s in scenarios:
            if s["sid"] not in res:
                raise CheckError("no observation for scenario %d" % s["sid"])
        return res

    # ---- TLC

    def tlc(self, module, cfg=None, env=None, workers=8, timeout=600, args=(), expect_ok=True, heap=None):
        cfg = cfg or module + ".cfg"
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        e = dict(os.environ)
        e.update(env or {})
        java = list(JAVA)
        java.insert(1, "-Djava.io.tmpdir=" + meta)
        cmd = java + ["tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s did not finish in %ss" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        if expect_ok and r.returncode != 0:
            raise CheckError("TLC on %s/%s failed (%d):\n%s" % (module, cfg, r.returncode, tail_noise(out)))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not m and "-simulate" not in args:
            raise CheckError("TLC on %s gave no state count:\n%s" % (module, tail_noise(out)))
        self.states += dist
        self.transitions += gen
        return out, dist, gen

    def model_check(self, module, cfg=None, **kw):
        """Exhaustive check of the specification itself; it has to hold, or the specification is wrong."""
        out, dist, gen = self.tlc(module, cfg, **kw)
        self.parts.setdefault("model", []).append({"spec": module, "cfg": cfg or module + ".cfg", "states": dist, "transitions": gen})
        return out

    def validate(self, module, mode, scenarios, cfg=None, observed=None, env=None, timeout=600, label=None, harness_env=None, wrap=None, angelic=False):
        """Runs scenarios on the real code and checks the recorded events against the trace specification."""
        if not scenarios:
            return {}
        obs = observed if observed is not None else self.run_harness(mode, scenarios, env=harness_env, wrap=wrap)
        tr = os.path.join(self.dir, "trace.ndjson")
        with open(tr, "w") as f:
            for s in scenarios:
                o = dict(s)
                o["ev"] = obs[s["sid"]]
                f.write(json.dumps(o) + "\n")
        ev = {"TRACE": tr}
        ev.update(env or {})
        out, dist, gen = self.tlc(module, cfg, env=ev, timeout=timeout)
        ok, bad = parse_verdicts(out)
        if angelic:  # the specification left something open: one way through it is enough
            bad = {sid: v for sid, v in bad.items() if sid not in ok}
        byid = {s["sid"]: s for s in scenarios}
        for sid in byid:
            if (sid in ok) == (sid in bad):
                raise CheckError("%s gave no verdict on scenario %d:\n%s" % (module, sid, tail_noise(out)))
        self.traces += len(byid)
        self.parts.setdefault("traces", []).append({"spec": module, "family": label or mode, "scenarios": len(byid),
            "events": sum(len(obs[s]) for s in byid), "states": dist, "rejected": len(bad)})
        for sid, (pos, exp) in bad.items():
            self.violation(label or mode, byid[sid], obs[sid], pos, exp, module)
        if scenarios:
            s = self.rng.choice(scenarios)
            self.samples.append({"family": label or mode, "scenario": s, "observed": obs[s["sid"]][:12]})
        return obs

    def violation(self, family, scenario, observed, pos, expected, spec):
        v = {"property": self.pid, "family": family, "spec": spec, "scenario": scenario, "observed": observed,
             "first_difference": pos, "expected": expected}
        for k in self.known:
            if k["match"](v):
                self.known_hits.append((k, v))
                return
        self.violations.append(v)

    def generate(self, module, cfg, timeout=600, env=None):
        """Behaviours enumerated by TLC: scenarios with the events the specification predicts (pred)."""
        out, dist, gen = self.tlc(module, cfg, timeout=timeout, env=env)
        res = []
        for line in out.splitlines():
            if line.startswith('"GEN '):
                o = json.loads(json.loads(line)[4:])
                o["sid"] = len(res) + 1
                res.append(o)
        if not res:
            raise CheckError("%s/%s generated no behaviour:\n%s" % (module, cfg, tail_noise(out)))
        self.parts.setdefault("generated", []).append({"spec": module, "cfg": cfg, "behaviours": len(res), "states": dist})
        return res

    def replay(self, mode, scenarios, label, spec):
        """Replays generated behaviours on the real code and compares event by event with the prediction."""
        plain = [{k: v for k, v in s.items() if k != "pred"} for s in scenarios]
        obs = self.run_harness(mode, plain)
        for s, p in zip(scenarios, plain):
            got, want = obs[s["sid"]], s["pred"]
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                self.violation(label, p, got, i + 1, json.dumps(want[i]) if i < len(want) else "nothing more", spec)
        self.replayed += len(scenarios)
        self.traces += len(scenarios)
        s = self.rng.choice(scenarios)
        self.samples.append({"family": label, "behaviour": s})
        return obs

    # ---- the end

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": shorten(self.samples[:6])}
        if self.replayed:
            cov["behaviours_replayed_on_impl"] = self.replayed
        cov.update(self.parts)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
                       "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
                       "violations": len(self.violations)}, f, indent=1)
            f.write("\n")
        seen = set()
        for k, v in self.known_hits:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rc = 0
        if self.violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + ".json")
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1)
            v = self.violations[0]
            print("%d scenario(s) rejected; first: family=%s sid=%s event %s" % (len(self.violations), v["family"],
                  v["scenario"].get("sid"), v["first_difference"]))
            print("  specification expects: %s" % str(v["expected"])[:600])
            p = v["first_difference"]
            got = v["observed"][p - 1] if isinstance(p, int) and 0 < p <= len(v["observed"]) else "nothing more"
            print("  the code did:          %s" % json.dumps(got)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            rc = 1
        shutil.rmtree(self.dir, ignore_errors=True)
        return rc


def parse_verdicts(out):
    ok, bad = set(), {}
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"') and line.endswith('"'):
            line = line[1:-1]
        if line.startswith("OK "):
            ok.add(int(line.split()[1]))
        elif line.startswith("BAD "):
            p = line.split(" ", 3)
            sid, pos = int(p[1]), int(p[2])
            if sid not in bad or bad[sid][0] < pos:
                bad[sid] = (pos, p[3].replace('\\"', '"').replace("\\\\", "\\"))
    return ok, bad


def tail_noise(out, n=3000):
    lines = [l for l in out.splitlines() if not re.match(r'^"?(OK|BAD|GEN) ', l) and not l.startswith("Semantic processing") and not l.startswith("Parsing file")]
    s = "\n".join(lines)
    i = s.find("Error:")
    return s[i:i + n] if i >= 0 else s[-n:]


def race_excerpt(s):
    for key in ("WARNING: DATA RACE", "fatal error:", "panic:"):
        i = s.find(key)
        if i >= 0:
            return s[i:i + 600]
    return s[-600:]


def shorten(x, depth=0):
    """Samples stay readable: long strings and lists are cut."""
    if isinstance(x, str):
        return x if len(x) < 400 else x[:400] + "..."
    if isinstance(x, list):
        y = [shorten(i, depth + 1) for i in x[:40]]
        return y + ["... %d more" % (len(x) - 40)] if len(x) > 40 else y
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in x.items()}
    return x


def load_known(pid):
    """known-findings.json. Returns matchers for the entries of this property."""
    res = []
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return res
    for k in json.load(open(path))["known"]:
        if k["property"] != pid:
            continue
        sel = k["select"]

        def match(v, sel=sel):
            if sel.get("family") != v["family"]:
                return False
            sc = v["scenario"]
            return all(sc.get(a) == b for a, b in sel.get("scenario", {}).items()) and \
                ("observed" not in sel or v["observed"] == sel["observed"])
        res.append({"id": k["id"], "what": k["what"], "match": match})
    return res


def main(fn, pid):
    c = None
    try:
        c = Check(pid)
        fn(c)
        rc = c.finish()
    except CheckError as ex:
        print("ERROR: check %s could not decide: %s" % (pid, ex))
        rc = 2
    finally:
        if c is not None:
            shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(rc)
