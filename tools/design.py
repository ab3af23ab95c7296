"""Fills the tables of DESIGN.md from tools/design.md, the evidence, findings and seeded bugs."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/tools/design.md').read()
old = {}
try: old = json.load(open(V + '/tools/costs.json'))
except OSError: pass
for f in glob.glob(V + '/evidence/*.json'):
    e = json.load(open(f)); c = e['coverage']
    if e['violations'] == 0 and c['exhaustive'] and e['tier'] == 'quick':
        old[e['property']] = [c['cases_distinct'], c['evaluations'], c['states'], c['transitions'], round(e['wall_s'])]
json.dump(old, open(V + '/tools/costs.json', 'w'), indent=0, sort_keys=True)
t = '| id | property | cases | executions | distinct outcomes | transitions | quick, s |\n|---|---|---|---|---|---|---|\n'
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); o = old.get(p['id'], ['?'] * 5)
    t += '| %s | %s | %s | %s | %s | %s | %s |\n' % (p['id'], p['title'], *o)
fx = ''
for k in json.load(open(V + '/known_findings.json')):
    if k['status'] == 'fixed': fx += '* %s %s: %s -> %s\n' % (k['property'], k['commit'], k['input'], k['what'])
sd = '| id | property | needs | breaks |\n|---|---|---|---|\n'
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m)); sd += '| %s | %s | %s | %s |\n' % (m.split('/')[-2], j['property'], j['needs'].replace('|', '/').replace('\n', ' '), j['what_it_breaks'].replace('|', '/'))
open(V + '/DESIGN.md', 'w').write(d.replace('@@TABLE@@', t).replace('@@FIXES@@', fx).replace('@@SEEDS@@', sd))
