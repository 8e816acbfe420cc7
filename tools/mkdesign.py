"""DESIGN.md = design/*.md parts + generated tables (checks, planted bugs)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
body = open(os.path.join(V, 'tools', 'design.md')).read()
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
sd = os.path.join(V, 'seeded')
res = json.load(open(os.path.join(V, 'tools', 'seeded_results.json')))
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    r = res.get(i)
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), '?' if r is None else r[0] if r[1] == 1 and r[2] else '**missed**'))
props = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    props.append('**%s — %s.** %s' % (p['id'], p['title'], open(os.path.join(V, 'tools', 'design', p['id'] + '.md')).read().strip()))
open(os.path.join(V, 'DESIGN.md'), 'w').write(body.replace('@PROPS@', '\n\n'.join(props)).replace('@SEEDED@', '\n'.join(rows)))
