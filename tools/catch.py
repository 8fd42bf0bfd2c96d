#!/usr/bin/env python3
"""Runs the check of each planted bug's property against /repo with the bug applied (and undoes it).
usage: catch.py [id ...]   results: /tmp/sd/catch.json"""
import json, os, subprocess, sys, time
V = '/verif'; OUT = '/tmp/sd/catch.json'
def sh(c): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = '%s/seeded/%s' % (V, i)
    prop = json.load(open(d + '/meta.json'))['property']
    assert sh('git -C /repo status --porcelain').stdout.strip() == ''
    if sh('git -C /repo apply %s/patch.diff' % d).returncode:
        print(i, 'patch does not apply', flush=True); continue
    t = time.time()
    try:
        r = sh('VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash %s/run.sh %s' % (V, prop))
    finally:
        sh('git -C /repo checkout -- .')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    ok = r.returncode == 1 and bool(v) and ('property=%s ' % prop) in v[0] + ' '
    res[i] = dict(caught=ok, rc=r.returncode, secs=round(time.time() - t), line=(v or [''])[0])
    json.dump(res, open(OUT, 'w'), indent=1)
    tail = '' if ok else '\n' + '\n'.join(r.stdout.splitlines()[-6:])
    print(i, prop, 'CAUGHT' if ok else 'MISSED', r.returncode, '%ds' % (time.time() - t), (v or [''])[0][:150], tail, flush=True)
