"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(f'{here}/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append(f'| {f.split("/")[-2]} | {d["property"]} | {d["what_it_breaks"]} |')
path = f'{here}/DESIGN.md'
text = open(path).read()
head = '| Change | Check | What it breaks |\n|---|---|---|\n'
text = re.sub(re.escape(head) + r'(\|.*\n)+', lambda m: head + '\n'.join(rows) + '\n', text)
open(path, 'w').write(text)
