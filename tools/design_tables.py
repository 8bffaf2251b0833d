#!/usr/bin/env python3
# design_tables.py: rewrites the two tables of DESIGN.md from evidence/*.json (cost) and tools/seed_results.json (planted changes)
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); d = open(V + '/DESIGN.md').read()
def put(start, end, text):
    global d; a = d.index(start) + len(start); a = d.index('\n', a) + 1 if start.startswith('<!-- cost') else a + 1; b = d.index(end, a); d = d[:a] + text + d[b:]
n = lambda x: f'{x:,}'.replace(',', ' ')
rows = ['| check | states | transitions | traces on the code | seconds |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/evidence/*.json'), key=lambda f: ('CVMQP'.index(os.path.basename(f)[0]), f)):
    e = json.load(open(f)); c = e['coverage']; rows.append(f"| {e['property']} | {n(c['states'])} | {n(c['transitions'])} | {n(c['traces_validated_against_impl'])} | {e['wall_s']:.0f} |")
put('<!-- cost table: tools/design_tables.py -->', '<!-- end -->', '\n'.join(rows) + '\n')
res = json.load(open(V + '/tools/seed_results.json')); rows = ['| change | property | needs | reported by |', '|---|---|---|---|']
for i, r in sorted(res.items(), key=lambda x: ('CVMQP'.index(x[1]['property'][0]), x[1]['property'], x[0])):
    if not os.path.isdir(f'{V}/seeded/{i}'): continue
    m = json.load(open(f'{V}/seeded/{i}/meta.json')); esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {i} | {r['property']} | {esc(m['needs'])[:110]} | {esc(re.sub(r'\s+', ' ', r['first']).split(':')[0] + ':' + ':'.join(r['first'].split(':')[1:2]))[:70] if r['caught'] else '**missed**'} |")
put('<!-- seeds -->', '<!-- end seeds -->', '\n'.join(rows) + '\n')
open(V + '/DESIGN.md', 'w').write(d)
