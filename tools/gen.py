#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'unreal_asset/unreal_asset_base/src/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, bin_, hook=None, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, bin=bin_, hook=hook, claimed=claimed))
exec(open(os.path.join(V, 'tools', 'table.py')).read())
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p['observe'], hook_needed=p['hook'])), ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='bash setup.sh',
  checks=[dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
     evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level='model_checking', level_note=p['note']) for p in P if p['claimed']],
  not_applicable=[dict(property=p['id'], reason=p['note']) for p in P if not p['claimed']],
  notes="Every check is an explicit-state exploration of the real crates in /repo (path dependencies, rebuilt from the working tree); no hooks in /repo are needed. See DESIGN.md.")
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
bins = {}
for p in P:
    if p['claimed']: bins.setdefault(p['bin'], []).append(p['id'])
s = open(os.path.join(V, 'env.sh')).read()
i = s.index('bin_of() {')
s = s[:i] + 'bin_of() {\n    case "$1" in\n' + ''.join(f"    {'|'.join(v)}) echo {k} ;;\n" for k, v in bins.items()) + '    *) echo "unknown property $1" >&2; return 1 ;;\n    esac\n}\n'
open(os.path.join(V, 'env.sh'), 'w').write(s)
