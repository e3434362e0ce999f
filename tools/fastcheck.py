#!/usr/bin/env python3
"""fastcheck.py ID CACHE [record]: the check ID without what does not depend on the code under test (for tools/gomut.py only).
With record, the behaviours enumerated by TLC and what the code did are kept; without, only scenarios on which the code did
something else than then are given to TLC, and the first violation ends the run."""
import os
import pickle
import sys

sys.path.insert(0, '/verif')
from vlib import core, registry

pid, cache = sys.argv[1], os.path.join(sys.argv[2], sys.argv[1] + '.pkl')
record = sys.argv[3:] == ['record']
kept = {'gen': {}, 'obs': []} if record else pickle.load(open(cache, 'rb'))
C = core.Check
generate, validate, replay, violation = C.generate, C.validate, C.replay, C.violation
n = [0]


class Found(Exception):
    pass


def gen(self, module, cfg, **kw):
    if record:
        kept['gen'][module, cfg] = generate(self, module, cfg, **kw)
    return kept['gen'][module, cfg]


def val(self, module, mode, scenarios, cfg=None, observed=None, env=None, timeout=600, label=None, harness_env=None, wrap=None, angelic=False):
    if not scenarios:
        return {}
    obs = observed if observed is not None else self.run_harness(mode, scenarios, env=harness_env, wrap=wrap)
    if record:
        kept['obs'].append(obs)
        self.rng.choice(scenarios)
        return obs
    old = kept['obs'][n[0]] if n[0] < len(kept['obs']) else {}
    n[0] += 1
    st = self.rng.getstate()
    diff = [s for s in scenarios if obs[s['sid']] != old.get(s['sid'])][:300]
    if diff:
        validate(self, module, mode, diff, cfg=cfg, observed=obs, env=env, timeout=timeout, label=label, angelic=angelic)
        self.rng.setstate(st)
    self.rng.choice(scenarios)
    return obs


def viol(self, *a, **k):
    violation(self, *a, **k)
    if self.violations:
        raise Found()


C.model_check = lambda self, *a, **k: ''
C.generate, C.validate = gen, val
if not record:
    C.violation = viol


def fn(c):
    try:
        registry.CHECKS[pid](c)
    except Found:
        pass
    if record:
        pickle.dump(kept, open(cache, 'wb'))


core.main(fn, pid)
