#!/usr/bin/env python3
# seed_run.py [ids]: applies every planted change of seeded/ to a scratch worktree of /repo and runs the check of its
# property on it; writes tools/seed_results.json. A development tool: no check uses it.
import json, os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + '/seeded'; W = '/tmp/seedrun'; out = V + '/tools/seed_results.json'
res = json.load(open(out)) if os.path.exists(out) else {}
sh = lambda *a, **k: subprocess.run(a, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
sh('git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', W, 'HEAD')
ids = sys.argv[1:] or sorted(os.listdir(S)); res = {k: v for k, v in res.items() if os.path.isdir(S + '/' + k)}
for i in ids:
    p = json.load(open(f'{S}/{i}/meta.json'))['property']; sh('git', '-C', W, 'checkout', '-q', '--', '.')
    a = sh('git', '-C', W, 'apply', f'{S}/{i}/patch.diff')
    if a.returncode: print(i, 'DOES NOT APPLY'); continue
    r = sh(V + '/check', p, env=dict(os.environ, VERIF_REPO=W))
    m = re.search(r'^\s+(\[\w+\].*)$', r.stdout, re.M)
    res[i] = {'property': p, 'caught': r.returncode == 1 and f'VIOLATION property={p}' in r.stdout, 'first': re.sub(r'#\d+ ', '', m[1])[:90] if m else ''}
    print(i, p, res[i]['caught'], flush=True); json.dump(res, open(out, 'w'), indent=0, sort_keys=True)
sh('git', '-C', '/repo', 'worktree', 'remove', '--force', W)
