"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    t.setdefault(json.load(open(f))['property'], []).append(f.split('/')[-2])
rows = '| check | planted bugs caught |\n|---|---|\n' + ''.join(f"| {p} | {', '.join(t[p])} |\n" for p in sorted(t))
d = open(root + '/DESIGN.md').read()
d = re.sub(r'\| check \| planted bugs caught \|\n\|---\|---\|\n(\|.*\n)+', lambda m: rows, d)
open(root + '/DESIGN.md', 'w').write(d)
