"""DESIGN.md = hand-written frame (tools/design_head.md, tools/design_tail.md) + one section per property from the table"""
import os
import runpy
import sys
sys.argv = ['gen_docs']
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gen_docs.py'))
H = g['HERE']
import importlib  # noqa
sys.path.insert(0, H)
out = [open(os.path.join(H, 'tools', 'design_head.md')).read(), '\n## Property by property\n']
for p in g['P']:
    c = importlib.import_module('tamon.checks.' + p['id'].lower())
    out.append(f"### {p['id']} {p['title']}\n\n"
               f"*Deciding method*: {p['how']} (runtime monitoring, level: exploration). {p['note']}\n\n"
               f"*Domain*: {p['text']}.\n\n*What counts*: {c.RULE}\n\n"
               f"*Size*: {c.CASES['quick']} histories quick (about 10-25 s on 8 cores), up to {c.CASES['thorough']} thorough (14 min cap).\n\n"
               f"*Why it reaches further than the tests*: {p['why']}\n")
out.append(open(os.path.join(H, 'tools', 'design_tail.md')).read())
import json  # noqa
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    b = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    rows.append(f"| {d} | {b['property']} | {b['what_it_breaks']} | {b['needs']} |".replace('\n', ' '))
out.append('\n'.join(rows) + '\n')
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
