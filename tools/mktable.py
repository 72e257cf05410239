"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all caught by the quick check of their property)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
rows.sort()
t = '<!-- planted -->\n| check | change | shows only with | breaks |\n|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s |\n' % r for r in rows).replace('||', '| |') + '<!-- /planted -->'
p = root + '/DESIGN.md'
s = open(p).read()
if '<!-- planted -->' in s:
    s = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: t, s, flags=re.S)
else:
    s = s.rstrip('\n') + '\n\n## 5. Planted bugs and which checks catch them\nEach change in `seeded/` was written from the text of its property and the code; each is caught by the quick check of\nthat property (first column) with the default seed.\n\n' + t + '\n'
open(p, 'w').write(s)
