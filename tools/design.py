"""DESIGN.md from its head, the property list, the checks and the seeds."""
import glob
import importlib
import json
import os
import sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HOME)
sys.path.insert(0, HOME)
props = [json.loads(l) for l in open('properties.jsonl')]
man = {c['property']: c for c in json.load(open('MANIFEST.json'))['checks']}
na = json.load(open('MANIFEST.json'))['not_applicable']
out = [open('tools/design_head.md').read()]
out.append('## The properties\n\n')
for p in props:
    id = p['id']
    out.append('### %s %s\n\n%s\n\n' % (id, p['title'], p['statement']))
    if id not in man:
        out.append('Not claimed: %s\n\n' % [
            x['reason'] for x in na if x['property'] == id][0])
        continue
    mod = importlib.import_module('mc.checks.' + id.lower())
    ev = {}
    try:
        ev = json.load(open('evidence/%s.json' % id))
    except (IOError, ValueError):
        pass
    c = man[id]
    out.append('* Decided by: %s (%s).\n' % (c['technique'], c['level']))
    out.append('* Enumerated and compared: %s.\n' % mod.RULE)
    out.append('* Size, in short: %s.\n' % c['level_note'])
    out.append('* Bounds, quick: `%s`; thorough: `%s`.\n' % (
        mod.BOUNDS('quick'), mod.BOUNDS('thorough')))
    for a in getattr(mod, 'ASSUME', []):
        out.append('* Assumed: %s.\n' % a)
    out.append('* Ranges over %s; tests can not: %s.\n\n' % (
        p['quantifier']['text'], p['why_tests_cant']))
out.append('## Planted bugs\n\nEach patch under `seeded/` compiles, passes '
           'the stable tests, and has a demo.  `tools/sweep` runs them. The '
           'check named is the one that reports it.\n\n'
           '| bug | property | needs | caught by |\n|---|---|---|---|\n')
caught = {}
for l in open('tools/caught.txt'):
    if l.strip():
        k, v = l.split(None, 1)
        caught[k] = v.strip()
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    id = d.split('/')[1]
    out.append('| %s | %s | %s | %s |\n' % (
        id, m['property'], m['needs'].replace('|', '/'),
        caught.get(id, '?')))
open('DESIGN.md', 'w').write(''.join(out))
