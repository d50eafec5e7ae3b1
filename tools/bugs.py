"""Writes the table of planted bugs into DESIGN.md."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('''p29-undo p31-time p34-draw p39-count p45-target p01-time p02-station p05-terminal p06-float p06-info p07-layer
p12-power p24-cache p26-cap p28-cmp p29-big p34-clip p35-loss p37-run p40-json p40-seedset p45-lims p01-info p04-window
p05-paused p06-last p12-both p46-adder p47-limit p47-space'''.split())
extra = os.path.join(ROOT, 'tools', 'missed_first.txt')
if os.path.exists(extra):
  MISSED |= set(open(extra).read().split())
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', ''))):
  m = json.load(open(d + 'meta.json'))
  i = os.path.basename(d.rstrip('/'))
  c = lambda s: s.replace('|', '/').replace('\n', ' ')
  rows.append(f'| {i} | {m["property"]}{" (missed at first)" if i in MISSED else ""} | {c(m["what_it_breaks"])} | {c(m["needs"])} |')
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
t = '<!-- generated: bugs -->\n| bug | caught by | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- end generated bugs -->'
s = re.sub(r'<!-- generated: bugs -->.*<!-- end generated bugs -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
print(len(rows), 'bugs')
