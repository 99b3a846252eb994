"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    d = json.load(open(p))
    c = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {d['property']} | {c(d['needs'])} | {c(d['what_it_breaks'])} | {d.get('missed_first', '')} |")
D = ROOT + '/DESIGN.md'
s = open(D).read()
i, j = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->')
s = s[:i] + '<!-- seeded -->\n| bug | property (= check that catches it) | needs | breaks | missed first |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[j:]
open(D, 'w').write(s)
print(len(rows))
