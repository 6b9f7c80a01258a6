#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from the contracts and the planted bugs."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(here + '/contracts/properties.json'))
titles = {}
for l in open(here + '/properties.jsonl'):
    p = json.loads(l)
    titles[p['id']] = p['title']

def names(l):
    return ', '.join('`%s`' % n for n in l) or '–'

rows = ['| id | title | level | roots (proved) | internal (proved) | bounded |', '|---|---|---|---|---|---|']
for k in sorted(d):
    e = d[k]
    r, i, b = e.get('roots', []), e.get('internal', []), e.get('bounded', [])
    b = b + [c for c in e.get('bounded_clauses', [])]
    level = 'proved+bounded' if r and b else 'proved' if r else 'bounded+internal' if i else 'bounded'
    rows.append('| %s | %s | %s | %s | %s | %s |' % (k, titles[k], level, names(r), names(i), names(b)))

tr = ['| kind | contract | why |', '|---|---|---|']
for f in sorted(glob.glob(here + '/contracts/**/*.go', recursive=True)):
    kind = why = None
    for l in open(f):
        m = re.match(r'//vc:(trusted|assumed)\s+(.*)', l)
        if m:
            kind, why = m.group(1), m.group(2).strip()
            continue
        m = re.match(r'func (\w+)', l)
        if m and kind:
            pkg = os.path.basename(os.path.dirname(f))
            tr.append('| %s | `%s.%s` | %s |' % (kind, pkg, m.group(1), why))
            kind = None
        elif not l.startswith('//'):
            kind = None

res = {}
if os.path.exists(here + '/tools/seeded_results.json'):
    res = json.load(open(here + '/tools/seeded_results.json'))
sd = ['| id | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    sd.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], res.get(i, '')))

s = open(here + '/DESIGN.md').read()
for tag, t in (('trusted', tr), ('properties', rows), ('seeded', sd)):
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag),
               lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(t), tag), s, flags=re.S)
open(here + '/DESIGN.md', 'w').write(s)
