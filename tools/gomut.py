#!/usr/bin/env python3
"""Mechanical mutations of /repo: `gomut.py survivors` finds those that build and pass the existing tests (into /tmp/gomut.json),
`gomut.py check [-n N] [-j J] [--seed S] [--file PART]` runs the checks of the mutated file on a sample of them until one notices; what none
notices is listed in /tmp/gomut-res.json to be looked at (it may change nothing that can be observed)."""
import argparse
import concurrent.futures as cf
import json
import os
import pathlib
import random
import shutil
import subprocess
import tempfile

ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
CHECKS = [
    ('actions/allow', 'C03 C24'), ('actions/skip', 'C03 C24'), ('modsecurity/actions', 'C06 C07 C08 C24'), ('buffer', 'C10 C11'), ('engine', 'C09 C12 C23 C22'), ('compare', 'C18'),
    ('operators/rx', 'C19'), ('modsecurity/sec_rule', 'C05 C04 C06 C02 C08'), ('transaction', 'C07 C01 C03 C08 C09 C02 C12 C15'), ('urldecode', 'C17'), ('transforms', 'C16'),
    ('body', 'C12 C13 C15'), ('post', 'C13 C12 C14'), ('filter', 'C14 C21'), ('count', 'C14 C21'), ('variables/', 'C15 C14 C13'), ('media_type', 'C13 C12'), ('seclang/actions', 'C21 C24 C22'), ('seclang/operators', 'C21'), ('seclang/trans', 'C21'),
    ('scanner', 'C20 C21'), ('parser/utils', 'C20 C21'), ('parser', 'C21 C20 C22'), ('rule_set', 'C22'), ('rules.go', 'C22 C20'), ('seclang', 'C21 C22'), ('query', 'C13 C14'), ('urlencode', 'C17'), ('strings', 'C14 C15'),
]


def checks(f):
    return next((c for k, c in CHECKS if k in f), 'C24').split()


def test(m):
    d = tempfile.mkdtemp(prefix='verif-mut-')
    try:
        p = os.path.join(d, 'x.go')
        open(p, 'w').write(m['src'])
        o = os.path.join(d, 'o.json')
        json.dump({'Replace': {os.path.join('/repo', m['file']): p}}, open(o, 'w'))
        r = subprocess.run(['timeout', '60', 'go', 'test', '-vet=off', '-count=1', '-overlay', o, './...'], cwd='/repo', env=dict(ENV, TMPDIR=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return m if r.returncode == 0 else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def survivors(args):
    subprocess.run(['go', 'build', '-o', '/tmp/gomut', '.'], cwd='/verif/tools/gomut', env=ENV, check=True)
    fs = subprocess.run("git ls-files '*.go' | grep -v _test | grep -v pprint", shell=True, cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.split()
    ms = [json.loads(l) for l in subprocess.run(['/tmp/gomut'] + fs, cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    with cf.ThreadPoolExecutor(args.j) as ex:
        left = [m for m in ex.map(test, ms) if m]
    json.dump(left, open('/tmp/gomut.json', 'w'))
    print(len(ms), 'mutations,', len(left), 'pass the tests')


def check(args):
    ms = json.load(open('/tmp/gomut.json'))
    ms = [m for m in ms if args.file in m['file']]
    res = {}
    try:
        res = json.load(open(args.out))
    except (OSError, ValueError):
        pass
    key = lambda m: '%s:%d:%d' % (m['file'], m['line'], m['i'])
    if args.again:  # what stayed unnoticed, with the checks as they are now
        shutil.rmtree('/tmp/gomutcache', ignore_errors=True)
        ms = [m for m in ms if key(m) in res and res[key(m)][1][-1][1] != 1]
    else:
        ms = [m for m in ms if key(m) not in res]
    # every line once before any line twice
    random.Random(args.seed).shuffle(ms)
    lines = {}
    for m in ms:
        lines.setdefault((m['file'], m['line']), []).append(m)
    order = []
    while lines and len(order) < args.n:
        for k in list(lines):
            order.append(lines[k].pop())
            if not lines[k]:
                del lines[k]
    order = order[:args.n]
    snap = pathlib.Path(tempfile.mkdtemp(prefix='verif-snap-'))
    subprocess.run(['cp', '-a', '/repo', str(snap / 'repo')], check=True)
    (snap / 'verif').mkdir()
    subprocess.run('cp -a $(ls -A | grep -v -e "^.git$" -e "^seeded$") %s' % (snap / 'verif'), shell=True, cwd='/verif', check=True)

    os.makedirs('/tmp/gomutcache', exist_ok=True)
    for c in sorted({c for m in order for c in checks(m['file'])}):
        if not os.path.exists('/tmp/gomutcache/%s.pkl' % c):
            print('recording', c, flush=True)
            subprocess.run(['python3', 'tools/fastcheck.py', c, '/tmp/gomutcache', 'record'], cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.DEVNULL)

    def run(m):
        work = pathlib.Path(tempfile.mkdtemp(prefix='verif-run-'))
        out = []
        try:
            subprocess.run(['cp', '-a', str(snap / 'repo'), str(snap / 'verif'), str(work)], check=True)
            (work / 'repo' / m['file']).write_text(m['src'])
            for c in checks(m['file']):
                r = subprocess.run(['unshare', '-m', 'sh', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec timeout 900 python3 tools/fastcheck.py %s /tmp/gomutcache' % (work, work, c)],
                                   env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out.append((c, r.returncode))
                if r.returncode == 1:
                    break
            return m, out
        finally:
            shutil.rmtree(work, ignore_errors=True)
    with cf.ThreadPoolExecutor(args.j) as ex:
        for f in cf.as_completed([ex.submit(run, m) for m in order]):
            m, out = f.result()
            print('%-9s %s %s %s' % ('noticed' if out[-1][1] == 1 else 'UNNOTICED' if all(r == 0 for _, r in out) else 'UNDECIDED', key(m), m['what'][:110].replace('\n', ' '), out), flush=True)
            res[key(m)] = [m['what'], out]
            json.dump(res, open(args.out, 'w'), indent=1)
    shutil.rmtree(snap, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument('cmd', choices=['survivors', 'check'])
ap.add_argument('-n', type=int, default=100)
ap.add_argument('-j', type=int, default=4)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--file', default='')
ap.add_argument('--again', action='store_true')
ap.add_argument('--out', default='/tmp/gomut-res.json')
args = ap.parse_args()
{'survivors': survivors, 'check': check}[args.cmd](args)
