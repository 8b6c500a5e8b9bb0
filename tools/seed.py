#!/usr/bin/env python3
"""Plant a bug: make /verif/seeded/<id> from a spec and try it out.

    seed.py SPEC.py [ID ...]     make the planted bugs of a spec file
    seed.py --try ID ...         run the checks against planted bugs again

A spec file calls  bug(id, prop, [(file, old, new), ...], demo, needs, breaks).
The edits are made in /repo, one bug at a time, and undone straight afterwards.
A bug is kept only if it changes lines of the original repository, builds,
passes the stable tests, and its demo tells the two trees apart.  The result of
the check of its property is appended to /tmp/w/seed.log.
"""
import json
import os
import re
import subprocess
import sys
import time

REPO = '/repo'
SEEDED = '/verif/seeded'
BASE = 'bac6beb'
LOG = '/tmp/w/seed.log'
DEMO_SH = '''#!/bin/bash
# Exit 0 if the property holds, nonzero if it is broken.
dir="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1
exec /opt/py27/usr/bin/python2.7 -s -B "$dir/demo.py"
'''


def sh(cmd, **kw):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode(errors='replace')


def clean():
    sh(['git', '-C', REPO, 'checkout', '--', '.'])


def tests_fail():
    rc, out = sh('bash /opt/vp/build.sh')
    if rc:
        return ['build failed', out[-500:]]
    sh('bash /opt/vp/test.sh /tmp/w/seed_t.json')
    res = json.load(open('/tmp/w/seed_t.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable', base.get('passed', base))
    if isinstance(stable, dict):
        stable = list(stable)
    ok = res.get('passed', res)
    if isinstance(ok, dict):
        ok = [k for k, v in ok.items() if v in (True, 'passed', 'pass')]
    return sorted(set(stable) - set(ok))


def demo(d):
    return sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO, timeout=300)


def not_original(edits):
    """The added lines of our own commits among the lines the edits remove."""
    bad, good = [], 0
    for line in sh(['git', '-C', REPO, 'diff', '-U0'])[1].splitlines():
        if line.startswith('--- '):
            name = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            start, n = int(m.group(1)), int(m.group(2) or 1)
            for i in range(start, start + n):
                blame = sh(['git', '-C', REPO, 'blame', '-l', '-L',
                            '%d,%d' % (i, i), 'HEAD', '--', name])[1]
                sha = blame.split()[0].lstrip('^')
                rc, _ = sh(['git', '-C', REPO, 'merge-base', '--is-ancestor',
                            sha, BASE])
                if rc:
                    bad.append(blame.strip())
                else:
                    good += 1
    return bad, good


def log(text):
    print(text)
    sys.stdout.flush()
    open(LOG, 'a').write(text + '\n')


def check(prop):
    m = json.load(open('/verif/MANIFEST.json'))
    cmd = [c for c in m['checks'] if c.get('property', c.get('property_id')) == prop]
    cmd = cmd[0].get('quick_cmd', cmd[0].get('quick'))
    if isinstance(cmd, dict):
        cmd = cmd['cmd']
    t = time.time()
    rc, out = sh(cmd, cwd='/verif', env=dict(os.environ, VERIF_SEED='1',
                                             VERIF_TIER='quick'))
    found = re.findall(r'VIOLATION property=(\S+) replay=(\S+)', out)
    why = [l for l in out.splitlines() if 'VIOLATION' in l][:1]
    tail = out.splitlines()[-4:] if rc not in (0, 1) else why
    return rc, prop in [f[0] for f in found], time.time() - t, tail


def bug(name, prop, edits, demo_py, needs, breaks, files=()):
    if WANTED and name not in WANTED:
        return
    d = os.path.join(SEEDED, name)
    clean()
    try:
        for fn, old, new in edits:
            p = os.path.join(REPO, fn)
            text = open(p).read()
            if text.count(old) != 1:
                log('%s %s: BAD EDIT, %d matches' % (name, prop, text.count(old)))
                return
            open(p, 'w').write(text.replace(old, new))
        patch = sh(['git', '-C', REPO, 'diff'])[1]
        bad, good = not_original(edits)
        if bad or not good:
            log('%s %s: NOT ORIGINAL %s' % (name, prop, bad))
            return
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        open(d + '/demo.py', 'w').write(demo_py.lstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(d + '/meta.json', 'w'), indent=1)
        fail = tests_fail()
        if fail:
            log('%s %s: TESTS FAIL %s' % (name, prop, fail[:6]))
            sh(['rm', '-rf', d])
            return
        rc, out = demo(d)
        if rc == 0:
            log('%s %s: DEMO DOES NOT FAIL' % (name, prop))
            sh(['rm', '-rf', d])
            return
        last = out.strip().splitlines()[-1:]
        rc, caught, t, why = check(prop)
        log('%s %s: %s rc=%d %.0fs  demo: %s  check: %s' % (
            name, prop, 'caught' if caught else 'MISSED', rc, t, last, why))
    finally:
        clean()
        sh('bash /opt/vp/build.sh')
    if os.path.isdir(d):
        rc, out = demo(d)
        if rc:
            log('%s %s: DEMO FAILS WITHOUT THE PATCH %s' % (name, prop, out[-500:]))
            sh(['rm', '-rf', d])


def again(name):
    d = os.path.join(SEEDED, name)
    prop = json.load(open(d + '/meta.json'))['property']
    clean()
    try:
        rc, out = sh(['git', '-C', REPO, 'apply', d + '/patch.diff'])
        if rc:
            log('%s %s: DOES NOT APPLY %s' % (name, prop, out))
            return
        rc, caught, t, why = check(prop)
        log('%s %s: %s rc=%d %.0fs %s' % (
            name, prop, 'caught' if caught else 'MISSED', rc, t, why))
    finally:
        clean()


if __name__ == '__main__':
    if sys.argv[1] == '--try':
        for n in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            again(n)
    else:
        WANTED = sys.argv[2:]
        exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
