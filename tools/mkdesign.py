#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (properties, planted bugs) from the contracts, tools/levels.json,
tools/seedresults.json and seeded/*/meta.json."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
levels = json.load(open(os.path.join(here, 'tools', 'levels.json')))
fns = {}
for f in sorted(glob.glob(os.path.join(here, 'contracts', '*.gvc'))):
    t = open(f).read()
    for m in re.finditer(r'^property (C\d\d): ((?:.*,\n)*.*)$', t, re.M):
        fns.setdefault(m.group(1), []).extend(x.strip() for x in m.group(2).replace('\n', ' ').split(',') if x.strip())
o = ['## 4. The properties', '',
     'Per property: the functions under contract whose obligations its check discharges, what they establish, and',
     'what is left to the bounded search. Contracts of the functions these use are assumed here and proved by the',
     "check named in the evidence (`verified_by_other_checks`).", '']
for p in props:
    l = levels.get(p['id'], levels['default'])
    o.append(f"**{p['id']} {p['title']}** ({l['level']})")
    o.append('')
    if fns.get(p['id']):
        o.append('* Under contract: ' + ', '.join('`' + x + '`' for x in fns[p['id']]) + '.')
    o.append('* ' + l['note'])
    if l.get('bounded'):
        o.append('* Bounded search only: ' + l['bounded'])
    o.append('')
s = ['## 6. Planted bugs', '',
     '`seeded/` holds one directory per planted bug (patch, demonstration, meta). `tools/seedtest.sh` applies each',
     'to a copy, runs the check of its property and writes `tools/seedresults.json`. "proof": an obligation fails;',
     '"search": the concrete search has a failing input.', '',
     '| bug | property | caught by | needs |', '|---|---|---|---|']
try:
    res = json.load(open(os.path.join(here, 'tools', 'seedresults.json')))
except OSError:
    res = {}
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    s.append(f"| {d} | {m['property']} | {res.get(d, '?')} | {m['needs']} |")
t = open(os.path.join(here, 'DESIGN.md')).read()
def put(t, name, lines):
    return re.sub(f'<!-- {name} -->.*?<!-- end -->', lambda _: f'<!-- {name} -->\n' + '\n'.join(lines) + '\n<!-- end -->', t, flags=re.S)
t = put(t, 'props', o)
t = put(t, 'seeds', s)
open(os.path.join(here, 'DESIGN.md'), 'w').write(t)
