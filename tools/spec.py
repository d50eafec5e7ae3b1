"""The property list: generates properties.jsonl, MANIFEST.json and the
per-property part of DESIGN.md.  Run: python3 tools/spec.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'balloon_learning_environment/'
ENV, BAL, UT = B + 'env/', B + 'env/balloon/', B + 'utils/'
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, design, note,
      observe=(), technique='runtime monitor'):
  PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why,
                    files=files, mech=mech, design=design, note=note, observe=list(observe),
                    technique=technique))


for part in ('spec_env', 'spec_physics', 'spec_wind', 'spec_train'):
  path = os.path.join(V, 'tools', part + '.py')
  if os.path.exists(path):
    exec(compile(open(path).read(), path, 'exec'))

ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
PROPS.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
  for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    mech = []
    for m in p['mech'].split('; '):
      name, where = m.split(' @ ')
      mech.append({'name': name, 'where': where})
    rec = dict(id=p['id'], title=p['title'], statement=p['statement'],
               quantifier=dict(over=p['over'], text=p['quant']),
               why_tests_cant=p['why'],
               anchors=dict(files=p['files'], mechanism=mech, observe_at=p['observe'], hook_needed=None))
    f.write(json.dumps(rec) + '\n')

checks = []
for p in PROPS:
  assert os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')), p['id']
  checks.append(dict(property=p['id'], quick_cmd=f'./run.sh {p["id"]} --tier quick',
                     thorough_cmd=f'./run.sh {p["id"]} --tier thorough',
                     technique=p['technique'], level=p.get('level', 'exploration'), level_note=p['note'],
                     evidence_file=f'evidence/{p["id"]}.json'))
man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
           notes='Pure Python: no build step; every check imports /repo\'s working tree. '
                 'No hooks in /repo: all monitors observe public objects and calls. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
  json.dump(man, f, indent=1)
  f.write('\n')

d = os.path.join(V, 'DESIGN.md')
if os.path.exists(d):
  s = open(d).read()
  a, b = '<!-- generated: properties -->', '<!-- end generated -->'
  i, j = s.index(a) + len(a), s.index(b)
  body = '\n'.join(f'\n### {p["id"]} {p["title"]}\n\n{p["design"]}\n' for p in PROPS)
  open(d, 'w').write(s[:i] + '\n' + body + '\n' + s[j:])
print(len(PROPS), 'properties')
