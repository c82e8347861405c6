"""The property catalogue.  `python3 tools/props.py` rewrites properties.jsonl
and MANIFEST.json; a property is claimed when its monitor mon/<id>.py exists."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='exploration', observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                            **({'observe_at': observe} if observe else {}), 'hook_needed': None}),
              technique, level, note))


exec(open(os.path.join(V, 'tools', 'catalogue.py')).read())

if __name__ == '__main__':
    claimed, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, t, l, n in P:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
            if os.path.exists(os.path.join(V, 'mon', p['id'].lower() + '.py')):
                claimed.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                                'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                                'technique': t, 'level': l, 'level_note': n})
                f.write(json.dumps(p) + '\n')
            elif p['id'] in NOT_APPLICABLE:
                na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
                f.write(json.dumps(p) + '\n')
    json.dump({'version': 1, 'setup_cmd': 'python3 -m mon.build asan tsan', 'checks': claimed, 'not_applicable': na,
               'notes': 'Every check builds libkml from /repo with sanitizers (cached by content under /verif/build) and drives it '
                        'through harness/*.cc; oracles are in mon/*.py. No hooks in /repo are needed. See DESIGN.md.'},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(claimed), 'claimed', [c['property'] for c in claimed])
