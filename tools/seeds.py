"""Regenerates the list of seeded bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(top + '/seeded')):
    d = json.load(open('%s/seeded/%s/meta.json' % (top, i)))
    rows.append('* `%s` (%s): %s; needs %s. Caught by %s.' % (i, d['property'], d['what_it_breaks'].rstrip('.'), d['needs'].rstrip('.'), d['property']))
p = top + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(caught by the check of its property\):\n\n)(?:\* `.*\n)+', lambda m: m.group(1) + '\n'.join(rows) + '\n', s)
open(p, 'w').write(s)
