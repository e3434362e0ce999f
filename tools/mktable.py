#!/usr/bin/env python3
"""Writes /verif/TABLES.md: which check caught which planted bug (/tmp/seedres.json of tools/runseeds.py), what broken specifications
were noticed by (/tmp/specmut.md of tools/specmut.py), mechanical mutations (/tmp/gomut-res.json of tools/gomut.py) and times of the
tiers (/tmp/tiers.json: {tier: {check: seconds}}). A part whose file is missing is kept as it stands."""
import json
import os
import pathlib
import re

OUT = '/verif/TABLES.md'
old = pathlib.Path(OUT).read_text() if os.path.exists(OUT) else ''


def part(title, src, make):
    if os.path.exists(src):
        return '## %s\n\n%s\n' % (title, make(open(src).read()).strip())
    m = re.search(r'^## %s\n.*?(?=^## |\Z)' % re.escape(title), old, re.M | re.S)
    return m.group(0) if m else ''


def seeds(t):
    rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
    res = json.loads(t)
    for p in sorted(pathlib.Path('/verif/seeded').iterdir()):
        m = json.load(open(p / 'meta.json'))
        r = res.get(p.name, {})
        by = ' '.join(sorted('%s (%d s)' % (c, v['secs']) for c, v in r.items() if v['caught'])) or ('—' if r else 'not run')
        rows.append('| %s | %s | %s | %s |' % (p.name, m['property'], m['needs'].replace('|', '\\|'), by))
    return '\n'.join(rows)


def muts(t):
    res = json.loads(t)
    groups = {}
    for k, (what, out) in sorted(res.items()):
        f = k.split(':')[0]
        g = groups.setdefault(f, [0, 0, []])
        g[0] += 1
        if out[-1][1] == 1:
            g[1] += 1
        else:
            g[2].append((k.split(':')[1], what))
    rows = ['| file | mutations run | noticed |', '|---|---|---|'] + ['| %s | %d | %d |' % (f, a, b) for f, (a, b, _) in sorted(groups.items())]
    rows.append('| all | %d | %d |' % (sum(g[0] for g in groups.values()), sum(g[1] for g in groups.values())))
    return '\n'.join(rows)


def tiers(t):
    d = json.loads(t)
    cs = sorted({c for v in d.values() for c in v})
    return '\n'.join(['| check | ' + ' | '.join(d) + ' |', '|---' * (len(d) + 1) + '|'] + ['| %s | %s |' % (c, ' | '.join('%s s' % d[k].get(c, '–') for k in d)) for c in cs])


pathlib.Path(OUT).write_text('# Tables\n\nMade by `tools/mktable.py`; see DESIGN.md.\n\n' + '\n'.join([
    part('Times of the checks', '/tmp/tiers.json', tiers),
    part('Planted bugs', '/tmp/seedres.json', seeds),
    part('Mechanical mutations', '/tmp/gomut-res.json', muts),
    part('Broken specifications', '/tmp/specmut.md', lambda t: t)]))
