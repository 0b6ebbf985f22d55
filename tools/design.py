#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, the harnesses' comments, the last evidence, seeded bugs and design_tail.md."""
import glob, json, os, re, sys, collections
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, COMMON
hs = collections.defaultdict(list)
for f in sorted(glob.glob(root + '/harness/**/*.go', recursive=True)):
    s = open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (\w+)\(\)', s):
        c, fn = m.groups()
        d = re.search(r'//gosym:harness (\S+) ([^\n]*)', c)
        if not d: continue
        doc = ' '.join(l[2:].strip() for l in c.splitlines() if not l.startswith('//gosym') and l != '//')
        hs[d.group(1)].append((fn, doc, os.path.relpath(os.path.dirname(f), root + '/harness'), d.group(2)))
seeds = collections.defaultdict(list)
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); seeds[m['property']].append((os.path.basename(os.path.dirname(d)), m))
cost = json.load(open(here + '/cost.json')) if os.path.exists(here + '/cost.json') else {}
out = [open(here + '/design_head.md').read(), '## The properties\n']
for p in PROPS:
    out.append('### %s - %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('*Bounds:* ' + p['forall'] + '. *Observed:* ' + ', '.join(p['observe']) + '.\n')
    out.append('*Why tests cannot:* ' + p['why'] + '\n')
    n = p['note'][len(COMMON):]
    if n: out.append('*Note:* ' + n + '\n')
    c = cost.get(p['id'])
    if c: out.append('*Cost (quick, last full run):* %s s, %s symbolic paths, %s decisions.\n' % (c['s'], c['paths'], c['q']))
    for fn, doc, pkg, d in hs[p['id']]:
        out.append('- `%s` (%s): %s' % (fn, pkg, doc or 'see the harness'))
    out.append('')
    for i, m in seeds[p['id']]:
        out.append('- planted bug `%s`: %s (needs: %s)' % (i, m['what_it_breaks'], m['needs']))
    if seeds[p['id']]: out.append('')
out.append(open(here + '/design_tail.md').read())
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
