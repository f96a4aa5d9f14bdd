"""Writes the table of seeded changes at the end of DESIGN.md from tools/seeds/results.json and seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(V + '/tools/seeds/results.json'))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    ch = r.get(d, {}).get('checks', {})
    hit = [k for k, v in sorted(ch.items()) if v[0] == 1]
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], ' '.join(m['needs'].split())[:140].replace('|', '/'), ', '.join(hit) or 'not caught'))
s = open(V + '/DESIGN.md').read()
head = '## Seeded changes\n'
s = s[:s.index(head)] + head + '''
Each was written from the text of its property and the code, confirmed (demonstration passes on the unchanged tree and fails with the change, all
stable tests pass with it), and kept whether or not a check caught it at the time. "caught by" lists the quick checks, among those run on the change
(always the one of its own property), that reported a violation. Changes that were first missed led to the extensions named above.

| change | property | needs | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
print(len(rows), sum('not caught' in x for x in rows))
