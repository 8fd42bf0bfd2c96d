#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a specification and checks that it is a valid planted bug.

usage: seed.py SPEC...   (SPEC: a python file with BUGS = [dict(id, prop, edits, needs, breaks, demo, flags)])
Works in a scratch copy of /repo at /tmp/sd/repo; /repo is not touched."""
import json, os, shutil, subprocess, sys, filecmp
V = '/verif'
W = '/tmp/sd/repo'
LIB = V + '/tools/seedlib/'

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def prep():
    if not os.path.exists(W):
        os.makedirs('/tmp/sd', exist_ok=True)
        sh('cp -a /repo ' + W)
    sh('git -C %s checkout -- . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q --detach FETCH_HEAD' % (W, W, W))

def demo(d):
    return sh('bash %s/demo.sh' % d, cwd=W, env=dict(os.environ, DEMO_TARGET='/tmp/sd/target'))

def do(b):
    prep()
    d = '%s/seeded/%s' % (V, b['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/main.rs', 'w').write('mod common;\nuse common::*;\n' + b['demo'])
    for f in ('common.rs', 'Cargo.toml.in', 'Cargo.lock'):
        shutil.copy(LIB + f, d + '/' + f)
    s = open(LIB + 'demo.sh').read().replace('FLAGS', b.get('flags', ''))
    open(d + '/demo.sh', 'w').write(s)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r = demo(d)
    if r.returncode != 0:
        return 'BAD demo fails on the unchanged tree (%d)\n%s' % (r.returncode, r.stdout[-3000:])
    for f, old, new in b['edits']:
        p = W + '/' + f
        t = open(p).read()
        n = b.get('count', {}).get(old, 1)
        if t.count(old) != n:
            return 'BAD edit matches %d times: %s' % (t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    r = sh('git -C %s diff' % W)
    open(d + '/patch.diff', 'w').write(r.stdout)
    r = demo(d)
    if r.returncode in (0, 2):
        return 'BAD demo with the patch: %d\n%s' % (r.returncode, r.stdout[-3000:])
    ls = r.stdout.splitlines()
    at = [k for k, l in enumerate(ls) if 'panicked at' in l and 'main.rs' in l]
    out = 'demo: ' + (' '.join(ls[at[-1]:at[-1] + 2])[:300] if at else ' '.join(ls[-3:])[:300])
    r = sh('sed "s#/repo#%s#g" /opt/vp/build.sh > /tmp/sd/build.sh; sed "s#/repo#%s#g" /opt/vp/test.sh > /tmp/sd/test.sh; bash /tmp/sd/build.sh' % (W, W))
    if r.returncode:
        return 'BAD build\n' + r.stdout[-3000:]
    sh('bash /tmp/sd/test.sh /tmp/sd/out.json')
    base = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open('/tmp/sd/out.json'))
    stable = base.get('stable') or base.get('passed') or base
    passed = set(got.get('passed', []))
    missing = [t for t in stable if t not in passed]
    if missing:
        return 'BAD tests fail: %s' % missing
    return 'ok ' + out

for spec in sys.argv[1:]:
    only = None
    if ':' in spec:
        spec, only = spec.split(':')
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns['BUGS']:
        if only and b['id'] not in only.split(','):
            continue
        r = do(b)
        print(b['id'], r, flush=True)
        if r.startswith('BAD'):
            bad = '%s/seeded/%s' % (V, b['id'])
            os.makedirs('/tmp/sd/bad', exist_ok=True)
            shutil.rmtree('/tmp/sd/bad/' + b['id'], ignore_errors=True)
            shutil.move(bad, '/tmp/sd/bad/' + b['id'])
sh('git -C %s checkout -- .' % W)
