#!/usr/bin/env python3
"""Writes DESIGN.md (python3 tools/design.py)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + '/tools/design_head.md').read()]
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = {x['property']: x['reason'] for x in json.load(open(V + '/MANIFEST.json'))['not_applicable']}
docs = {}
for f in sorted(glob.glob(V + '/harness/h/*.go')):
    for m in re.finditer(r'((?:^//.*\n)+)func (C\d\dT?_\w+)\(', open(f).read(), re.M):
        t = re.sub(r'\s+', ' ', ' '.join(l[2:].strip() for l in m.group(1).splitlines()))
        docs[m.group(2)] = (os.path.basename(f), t)
known = open(V + '/KNOWN_FINDINGS.txt').read().splitlines()
catch = {}
if os.path.exists(V + '/tools/catches.json'):
    catch = json.load(open(V + '/tools/catches.json'))
out.append('## Properties\n\nThe oracle of each is in the harness: a reference implementation (C03, C05, C25), a law, or the specification written as Go code over the symbolic inputs.\n')
for q in props:
    out.append('### %s %s\n\n%s\n' % (q['id'], q['title'], q['statement']))
    out.append('*Why tests cannot:* %s *Quantified over:* %s. *Anchors:* %s.\n' % (q['why_tests_cant'], q['quantifier']['text'],
        '; '.join('%s (%s)' % (a['name'], a['where']) for a in q['anchors']['mechanism'])))
    if q['id'] in na:
        out.append('**Not applicable:** %s\n' % na[q['id']])
    for n in sorted(docs):
        if n[:3] == q['id']:
            t = docs[n][1]
            t = t[len(n) + 1:].strip() if t.startswith(n) else t
            out.append('- `%s`: %s' % (n, t))
    out.append('')
    fx = [k.split(' ', 2)[2] for k in known if k.startswith('fixed: property=%s ' % q['id'])]
    kf = [k for k in known if k.startswith('KNOWN-FINDING: property=%s ' % q['id'])]
    if fx:
        out.append('Found and fixed: ' + '; '.join('%s (`%s`)' % (x.split(' ', 1)[1], x.split(' ', 1)[0]) for x in fx) + '.\n')
    if kf:
        out.append('Known findings: ' + '; '.join(k.split('"', 2)[2].strip() for k in kf) + '.\n')
out.append('## Planted bugs\n\nEach was written from the text of a property, compiles, passes the 508 stable tests and has a demonstration. *Caught by* is what the quick check of the property says.\n')
out.append('| Bug | Property | Needs | Breaks | Caught by |\n|---|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    e = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], e(m['needs']), e(m['what_it_breaks']), e(catch.get(i, 'not measured'))))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
