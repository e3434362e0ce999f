#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds/*.py: the patch, the demonstration and meta.json, confirmed in a scratch
copy of /repo (builds, passes the stable tests, changes a line of the original repository, the demonstration passes
without the patch and fails with it)."""
import concurrent.futures as cf
import importlib.util
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path('/verif')
BASE = '017b480'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')

DEMO = '''#!/bin/sh
# runs demo_test.go, which lies beside this file, as a test of ./%(pkg)s (cwd: the repository)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/tmp"
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$work/overlay.json"
TMPDIR="$work/tmp" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local \\
  go test %(flags)s-count=1 -vet=off -timeout 120s -overlay "$work/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''

HELPERS = '''
func demoEngine(t *testing.T, text string) *modsecurity.Engine {
	t.Helper()
	e := modsecurity.NewEngine()
	e.TmpPath = t.TempDir()
	demoLoad(t, e, text)
	return e
}

func demoLoad(t *testing.T, e *modsecurity.Engine, text string) {
	t.Helper()
	ds, err := seclang.NewDireSetFromSecLangString(text)
	if err != nil {
		t.Fatalf("%s: %v", text, err)
	}
	if err := ds.Execute(e); err != nil {
		t.Fatal(err)
	}
}

func demoTx(t *testing.T, e *modsecurity.Engine) *modsecurity.Transaction {
	t.Helper()
	tx, err := e.NewTransaction()
	if err != nil {
		t.Fatal(err)
	}
	return tx
}

// demoStart feeds a request up to its headers
func demoStart(t *testing.T, e *modsecurity.Engine, method, uri, ctype string) *modsecurity.Transaction {
	t.Helper()
	tx := demoTx(t, e)
	u, err := url.Parse(uri)
	if err != nil {
		t.Fatal(err)
	}
	h := make(http.Header)
	if ctype != "" {
		h.Set("Content-Type", ctype)
	}
	tx.ProcessConnection("10.0.0.1", "1234", "10.0.0.2", "80")
	tx.ProcessRequestURL(u, method, "HTTP/1.1")
	tx.ProcessRequestHeader(h)
	return tx
}

// demoBody feeds the body in one piece and runs its phase
func demoBody(t *testing.T, tx *modsecurity.Transaction, body string) {
	t.Helper()
	if err := tx.AppendRequestBody([]byte(body)); err != nil {
		t.Fatal(err)
	}
	tx.ProcessRequestBody()
}

func demoLogs(i *modsecurity.Intervention) int { return len(i.Log) }

func demoEnd(tx *modsecurity.Transaction) {
	tx.ProcessResponseHeaders(200, "HTTP/1.1", nil)
	tx.ProcessResponseBody()
	tx.ProcessLogging()
}
'''


def demo_go(seed):
    imports = ['net/http', 'net/url', 'testing'] + list(seed.get('imports', []))
    mods = ['github.com/senghoo/modsecurity-go/modsecurity', 'github.com/senghoo/modsecurity-go/seclang']
    mods += ['github.com/senghoo/modsecurity-go/' + x for x in seed.get('mods', [])]
    lines = ['package seclang_test', '', 'import (']
    lines += ['\t"%s"' % x for x in sorted(set(imports))] + ['']
    lines += ['\t"%s"' % x for x in sorted(set(mods))] + [')']
    return '\n'.join(lines) + '\n' + HELPERS + '\n' + seed['demo'].strip('\n') + '\n'


def sh(cmd, cwd, env=ENV, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)



def passing(repo):
    """names of the passing tests"""
    out = sh(['go', 'test', '-count=1', '-vet=off', '-json', './...'], repo).stdout
    res = set()
    for line in out.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            res.add(e['Package'] + '/' + e['Test'])
    return res & STABLE


def original_lines(repo, path):
    """line numbers of HEAD's file that are as in the original repository"""
    out = sh(['git', 'blame', '-s', BASE + '..', '--', path], repo).stdout
    return {i for i, l in enumerate(out.splitlines(), 1) if l.startswith('^')}


def make(seed):
    sid = seed['id']
    work = pathlib.Path(tempfile.mkdtemp(prefix='verif-seed-'))
    try:
        repo = work / 'repo'
        subprocess.run(['cp', '-a', '/repo', str(repo)], check=True)
        before = BASEPASS
        touched = {}
        for path, old, new in seed['edits']:
            f = repo / path
            text = f.read_text()
            if text.count(old) != 1:
                return sid, 'edit of %s matches %d times: %s' % (path, text.count(old), old[:60])
            f.write_text(text.replace(old, new))
            sh(['gofmt', '-l', path], repo)
            touched[path] = 1
        bad = sh(['gofmt', '-l'] + list(touched), repo).stdout.strip()
        for path in touched:
            sh(['gofmt', '-w', path], repo)
        diff = sh(['git', 'diff'], repo).stdout
        # lines of the original that the patch takes away
        orig = 0
        mine = 0
        for path in touched:
            ok = original_lines(repo, path)
            d = sh(['git', 'diff', '-U0', '--', path], repo).stdout
            for l in d.splitlines():
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for i in range(a, a + n):
                        if i in ok:
                            orig += 1
                        else:
                            mine += 1
        if not orig:
            return sid, 'no original line changed (%d of mine)' % mine
        r = sh(['go', 'vet', './...'], repo)
        b = sh(['go', 'build', './...'], repo)
        if b.returncode:
            return sid, 'build: ' + b.stdout[-600:]
        lost = before - passing(repo)
        if lost:
            return sid, 'tests lost: %s' % sorted(lost)[:5]
        out = work / 'seed'
        out.mkdir()
        (out / 'patch.diff').write_text(diff)
        (out / 'demo_test.go').write_text(demo_go(seed))
        sh(['gofmt', '-w', str(out / 'demo_test.go')], repo)
        (out / 'demo.sh').write_text(DEMO % {'pkg': 'seclang', 'flags': seed.get('flags', '')})
        os.chmod(out / 'demo.sh', 0o755)
        (out / 'meta.json').write_text(json.dumps({'property': seed['property'], 'needs': seed['needs'],
                                                   'what_it_breaks': seed['breaks']}, indent=1) + '\n')
        for i in range(2):
            r = sh(['sh', str(out / 'demo.sh')], repo)
            if r.returncode == 0:
                return sid, 'demo passes with the patch'
            if 'build failed' in r.stdout or 'setup failed' in r.stdout:
                return sid, 'demo does not build: ' + r.stdout[-800:]
        for i in range(2):
            r0 = sh(['sh', str(out / 'demo.sh')], '/repo')
            if r0.returncode:
                return sid, 'demo fails unpatched: ' + r0.stdout[-1200:]
        dst = VERIF / 'seeded' / sid
        if dst.exists():
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return sid, 'ok' + (' (also touches %d lines of mine)' % mine if mine else '') + (' gofmt' if bad else '')
    finally:
        shutil.rmtree(work, ignore_errors=True)


def load():
    seeds = []
    for f in sorted((VERIF / 'tools' / 'seeds').glob('*.py')):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    ids = [s['id'] for s in seeds]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return seeds


if __name__ == '__main__':
    want = sys.argv[1:]
    seeds = [s for s in load() if not want or any(s['id'].startswith(w) for w in want)]
    BASEPASS = passing('/repo')
    print('%d tests pass, %d seeds' % (len(BASEPASS), len(seeds)))
    with cf.ThreadPoolExecutor(4) as ex:
        for sid, res in ex.map(make, seeds):
            print(sid, '::', res, flush=True)
