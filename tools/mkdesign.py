#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md, the properties, the checks and what they last covered."""
import sys, os, json, importlib, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
na = json.load(open(R + '/tools/not_applicable.json'))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
old = {}
rf = R + '/tools/rules.json'
if os.path.exists(rf):
    old = json.load(open(rf))
for d in sys.argv[1:] + [R + '/evidence']:
    for f in glob.glob(d + '/C*.json'):
        e = json.load(open(f))
        if e.get('tier') != 'quick':
            continue
        c = e.get('coverage', {})
        p = e['property']
        old[p] = {'rule': c.get('rule'), 'n': c.get('distinct_nontrivial')}
json.dump(old, open(rf, 'w'), indent=0, sort_keys=True)
out = [open(R + '/tools/design_head.md').read().rstrip(), '', '## The properties, one by one', '']
for p in props:
    i = p['id']
    out += ['### %s — %s' % (i, p['title']), '']
    if i in na:
        out += ['Not checked: see the last section.', '']
        continue
    m = importlib.import_module('checks.' + i.lower())
    o = old.get(i, {})
    doc = ' '.join((m.__doc__ or '').split())
    doc = doc.split(': ', 1)[-1]
    doc = doc[:1].upper() + doc[1:]
    out += ['*Design.* ' + doc, '']
    out += ['*Deciding method.* ' + m.TECH[:1].upper() + m.TECH[1:] + '.', '']
    if o.get('rule'):
        r = o['rule']
        out += ['*What is generated and judged.* ' + r[:1].upper() + r[1:] + '.' + (' About %d distinct judged observations per quick run.' % o['n'] if o.get('n') else ''), '']
    out += ['*Bounds and trust.* ' + m.NOTE[:1].upper() + m.NOTE[1:].rstrip('.') + '.', '']
    out += ['*Beyond the tests.* ' + p['why_tests_cant'].rstrip('.') + '.', '']
out += [open(R + '/tools/design_tail.md').read().rstrip(), '']
fx = [l for l in open(R + '/known_findings.txt') if l.startswith('fixed: property')]
out += ['## Defects repaired in /repo', '', '%d commits, each recorded in `known_findings.txt` and each now guarded by the check that found it.' % len({l.split()[2] for l in fx}), '', '| property | commit | what failed |', '|---|---|---|']
for l in sorted(fx, key=lambda l: l.split()[1]):
    a = l.strip().split(' ', 3)
    out.append('| %s | %s | %s |' % (a[1].split('=')[1], a[2], a[3].replace('|', '\\|')))
out += ['', '## Defects recorded, not repaired', '', '| property | what fails |', '|---|---|']
for l in open(R + '/known_findings.txt'):
    if l.startswith('known: {'):
        k = json.loads(l[7:])
        if k.get('property'):
            out.append('| %s | %s |' % (k['property'], k['what'].replace('|', '\\|')))
out += ['', '## Planted bugs', '', '`seeded/ID/`; the check of the property named catches it in its quick tier unless the last column says otherwise.', '', '| id | property | needs | breaks | caught |', '|---|---|---|---|---|']
miss = json.load(open(R + '/tools/missed.json')) if os.path.exists(R + '/tools/missed.json') else {}
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    k = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s | %s |' % (i, k['property'], k['needs'].replace('|', '\\|'), k['what_it_breaks'].replace('|', '\\|'), miss.get(i, 'yes')))
out += ['', '## Not claimed', '']
for i in sorted(na):
    out.append('* **%s**: %s' % (i, na[i]))
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
