"""Writes DESIGN.md (run with python3-vt, from anywhere)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import registry
rd = lambda f: open(os.path.join(HERE, 'tools', f)).read()
txt = dict(re.findall(r'^## (C\d\d)\n(.*?)(?=^## |\Z)', rd('design_props.md'), re.M | re.S))
res = json.load(open(os.path.join(HERE, 'tools', 'seed_results.json')))
seeds = {}
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    seeds.setdefault(m['property'], []).append((i, m))
out = [rd('design_head.md')]
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    out.append('\n### %s %s\n\n%s\n' % (p['id'], p['title'], txt.get(p['id'], '').strip()))
    for h in registry.load(p['id']):
        q, t = len(registry.cases_of(h, 'quick')), len(registry.cases_of(h, 'thorough'))
        out.append('* `%s` (%s): %s\n' % (h.name, '%d cases' % q if q == t else '%d cases, thorough %d' % (q, t), h.bounds))
    out.append('\nSeeded: %s\n' % ('; '.join('`%s` (%s)' % (i, res.get(i, 'not run')) for i, m in seeds.get(p['id'], [])) or 'none'))
out.append('\n## 6. Seeded changes\n\n')
n = sum(len(v) for v in seeds.values())
c = sum(1 for v in seeds.values() for i, m in v if res.get(i) == 'caught')
out.append('%d changes are kept in `seeded/`, each with a demonstration; %d are caught by the quick check of their property. %s\n' % (n, c, rd('design_seeds.md')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
print(n, 'seeds', c, 'caught')
