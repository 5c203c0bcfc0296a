"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), technique=None, note=None, na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, observe=list(observe), technique=technique, note=note, na=na, state=list(state)))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p['observe'], hook_needed=None))) + '\n')
M = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note'])
                 for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
         notes='Static analysis only: an abstract interpreter over the Python syntax tree of /repo (sa/), nothing of /repo is executed.')
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(M['checks']), 'claimed')
