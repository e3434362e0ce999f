#!/usr/bin/env python3
"""Runs the check of each planted bug's property against it (or --all checks), in copies of /repo and /verif that are
mounted over the originals in a private mount namespace. Writes /tmp/seedres.json."""
import argparse
import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import subprocess
import tempfile
import time

ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('-j', type=int, default=3)
ap.add_argument('--tier', default='quick')
ap.add_argument('--seed', default='1')
ap.add_argument('--check', action='append')
args = ap.parse_args()

seeds = sorted(p for p in pathlib.Path('/verif/seeded').iterdir() if (p / 'meta.json').exists())
if args.ids:
    seeds = [p for p in seeds if any(p.name.startswith(i) for i in args.ids)]


snap = pathlib.Path(tempfile.mkdtemp(prefix='verif-snap-'))  # both trees may be edited while this runs
subprocess.run(['cp', '-a', '/repo', str(snap / 'repo')], check=True)
(snap / 'verif').mkdir()
subprocess.run('cp -a $(ls -A | grep -v -e "^.git$") %s' % (snap / 'verif'), shell=True, cwd='/verif', check=True)


def run(job):
    seed, prop = job
    work = pathlib.Path(tempfile.mkdtemp(prefix='verif-run-'))
    try:
        subprocess.run(['cp', '-a', str(snap / 'repo'), str(work / 'repo')], check=True)
        (work / 'verif').mkdir()
        subprocess.run('cp -a $(ls -A | grep -v -e "^seeded$") %s' % (work / 'verif'), shell=True,
                       cwd=snap / 'verif', check=True)
        subprocess.run(['git', 'apply', str(snap / 'verif' / 'seeded' / seed.name / 'patch.diff')], cwd=work / 'repo', check=True)
        t = time.time()
        r = subprocess.run(['unshare', '-m', 'sh', '-c',
                            'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && '
                            'exec timeout 900 python3 check.py %s' % (work, work, prop)],
                           env=dict(os.environ, VERIF_SEED=args.seed, VERIF_TIER=args.tier),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return seed.name, prop, r.returncode, round(time.time() - t), r.stdout
    finally:
        shutil.rmtree(work, ignore_errors=True)


jobs = []
for p in seeds:
    for prop in args.check or [json.load(open(p / 'meta.json'))['property']]:
        jobs.append((p, prop))
res = {}
try:
    res = json.load(open('/tmp/seedres.json'))
except (OSError, ValueError):
    pass
with cf.ThreadPoolExecutor(args.j) as ex:
    for name, prop, rc, secs, out in ex.map(run, jobs):
        viol = [l for l in out.splitlines() if l.startswith('VIOLATION property=%s ' % prop)]
        ok = rc == 1 and viol
        print('%-22s %s %s rc=%d %ds %s' % (name, prop, 'caught' if ok else 'MISSED', rc, secs,
                                            '' if ok else out[-300:].replace('\n', ' | ')), flush=True)
        res.setdefault(name, {})[prop] = {'caught': bool(ok), 'rc': rc, 'secs': secs}
        with open('/tmp/seedres.json', 'w') as f:
            json.dump(res, f, indent=1)
shutil.rmtree(snap, ignore_errors=True)
