#!/usr/bin/env python3
"""seed.py new <id>: take /repo's uncommitted change as /verif/seeded/<id>/patch.diff (then undone).
seed.py try <id>...: apply, build, test, demo, run the property's quick check; undo; prints a table."""
import json, os, subprocess, sys, time
R, S = '/repo', '/verif/seeded'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def rebuild():
    r = sh('bash', '/opt/vp/build.sh')
    return r.returncode, r.stdout


def demo(i):
    env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF')}
    try:
        return sh('bash', '%s/%s/demo.sh' % (S, i), cwd=R, timeout=300, env=env)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 'timeout', '', '')


cmd, ids = sys.argv[1], sys.argv[2:]
if cmd == 'new':
    d = os.path.join(S, ids[0])
    os.makedirs(d, exist_ok=True)
    p = sh('git', '-C', R, 'diff').stdout
    assert p, 'no change in /repo'
    open(os.path.join(d, 'patch.diff'), 'w').write(p)
    sh('git', '-C', R, 'checkout', '--', '.')
elif cmd == 'clean':
    print(rebuild()[0])
    for i in ids:
        r = demo(i)
        print(i, 'demo on the unchanged tree:', r.returncode, r.stdout[-600:] if r.returncode else '')
elif cmd == 'try':
    for i in ids:
        assert not sh('git', '-C', R, 'status', '--porcelain').stdout
        d = os.path.join(S, i)
        meta = json.load(open(d + '/meta.json'))
        r = sh('git', '-C', R, 'apply', d + '/patch.diff')
        if r.returncode:
            print(i, 'does not apply', r.stdout)
            continue
        try:
            rc, out = rebuild()
            if rc:
                print(i, 'BUILD FAILS', out[-1500:])
                continue
            t = sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
            res = json.load(open('/tmp/seedtest.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            stable = base.get('passed') or base.get('stable') or base.get('tests')
            miss = [x for x in stable if x not in res['passed']]
            dm = demo(i)
            pids = [meta['property']] + meta.get('also', [])
            outs = []
            for pid in pids:
                t0 = time.time()
                c = sh('python3-vt', 'check.py', pid, 'quick', cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                keys = [l.strip()[:160] for l in c.stdout.split('\n') if l.startswith('   ')][:2]
                outs.append('%s rc=%d %.0fs %s' % (pid, c.returncode, time.time() - t0, keys))
            print(i, 'tests:', 'ok' if not miss else 'FAIL %s' % miss[:4], 'demo rc:', dm.returncode, '|', '; '.join(outs), flush=True)
        finally:
            sh('git', '-C', R, 'checkout', '--', '.')
