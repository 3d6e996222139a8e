"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, anchors, technique, note,
         level=None):
    files, mech = [], []
    for name, where in anchors:
        mech.append({'name': name, 'where': where})
        f = where.split(':')[0]
        if f not in files:
            files.append(f)
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier={'over': over, 'text': text},
                      why_tests_cant=why,
                      anchors={'files': files, 'mechanism': mech},
                      technique=technique, note=note))


ENUM = 'bounded exhaustive enumeration of documents run through the real ' \
       'code, compared with an independent reference model'
HIST = 'explicit-state exploration of every operation sequence up to a ' \
       'depth on the real code, in lockstep with a reference model'

S = 'nxt/stage.py'
L = 'nxt/nxt_layer.py'
N = 'nxt/nxt_node.py'

exec(open(os.path.join(HOME, 'tools', 'proplist.py')).read())


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        lines.append(json.dumps({k: v for k, v in p.items()
                                 if k not in ('technique', 'note')}))
        mod = os.path.join(HOME, 'mc', 'checks', p['id'].lower() + '.py')
        if not os.path.exists(mod):
            na.append({'property': p['id'], 'reason':
                       'the check for it is not built yet'})
            continue
        src = open(mod).read()
        level = [l.split("'")[1] for l in src.splitlines()
                 if l.startswith('LEVEL = ')][0]
        checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough ./check ' +
                       p['id'],
                       'technique': p['technique'], 'level': level,
                       'level_note': p['note']})
    with open(os.path.join(HOME, 'properties.jsonl'), 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks,
                   'not_applicable': na,
                   'notes': 'Nothing is compiled ahead: every check imports '
                   '/repo/nxt from the working tree. See DESIGN.md.'},
                  fp, indent=1)
        fp.write('\n')
    print(len(checks), 'claimed;', [x['property'] for x in na])


main()
