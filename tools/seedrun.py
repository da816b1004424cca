#!/usr/bin/env python3
"""Development tool (not a check): apply each planted change to /repo, run its property's check, undo it.
usage: seedrun.py [--tier quick] [ids...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
args = sys.argv[1:]
tier = 'quick'
if '--tier' in args:
    i = args.index('--tier'); tier = args[i + 1]; del args[i:i + 2]
prop = None
if '--prop' in args:
    i = args.index('--prop'); prop = args[i + 1]; del args[i:i + 2]
ids = args or sorted(os.listdir(V + '/seeded'))
if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('repo dirty')
for b in ids:
    d = f'{V}/seeded/{b}'
    p = prop or json.load(open(d + '/meta.json'))['property']
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print(b, 'DOES NOT APPLY', r.stderr[:200]); continue
    t = time.time()
    try: r = sh(f"cd {V} && VERIF_SEED={os.environ.get('VERIF_SEED', 1)} VERIF_TIER={tier} python3 run.py {p} {tier}")
    finally: sh('git -C /repo checkout -- .')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + p)]
    print(b, p, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', f'{time.time()-t:.0f}s', (v[:1] or [r.stdout[-200:]])[0][:160], flush=True)
