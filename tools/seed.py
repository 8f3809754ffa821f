#!/usr/bin/env python3
"""Makes and confirms a planted bug: used while writing /verif/seeded.

    add(id, property, [(file, old, new)...], needs, breaks, demo_source)

The change is applied in /repo, built, tested, demonstrated, and undone.
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

SH = '''#!/bin/bash
# exit 0 when the property holds on this example, 1 when it is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONIOENCODING=utf-8
exec timeout 120 python3 "$(dirname "$0")/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def add(id, prop, edits, needs, breaks, demo, test=True):
    d = os.path.join(ROOT, 'seeded', id)
    assert sh('git -C %s status --short' % REPO).stdout == '', 'dirty'
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'demo.py'), 'w') as fh:
        fh.write(HEAD + demo)
    with open(os.path.join(d, 'demo.sh'), 'w') as fh:
        fh.write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd=REPO)
    assert r.returncode == 0, ('demo fails unchanged', r.stdout)
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p, encoding='utf-8').read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(
            subprocess.check_output(['git', '-C', REPO, 'diff'],
                                    text=True))
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        assert r.returncode != 0, 'demo passes with the change'
        last = r.stdout.strip().splitlines()[-1:]
        if test:
            t = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh '
                   '/tmp/seedtest.json')
            res = json.load(open('/tmp/seedtest.json'))
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            passed = set(res.get('passed') or res.get('pass') or [])
            bad = sorted(stable - passed)
            assert not bad, ('tests fail', bad[:5], t.stdout[-500:])
        print(id, 'ok', last)
        return True
    except AssertionError as ex:
        print(id, 'REJECTED', ex)
        sh('rm -r %s' % d)
        return False
    finally:
        sh('git -C %s checkout -- .' % REPO)


def check(id, prop=None, tier='quick'):
    """does the property's check catch it"""
    d = os.path.join(ROOT, 'seeded', id)
    prop = prop or json.load(open(os.path.join(d, 'meta.json')))['property']
    w = '/tmp/seedcheck/%s' % id
    sh('rm -rf %s; mkdir -p %s' % (w, w))
    sh('git -C %s archive HEAD | tar x -C %s' % (REPO, w))
    r = sh('git apply --directory= %s/patch.diff' % d, cwd=w)
    if r.returncode:
        r = sh('patch -p1 < %s/patch.diff' % d, cwd=w)
        assert r.returncode == 0, r.stdout
    env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE='/tmp/seedcheck/ev')
    r = sh('python3 run.py %s %s' % (prop, tier), cwd=ROOT, env=env)
    sh('rm -rf %s' % w)
    return r.returncode, r.stdout


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    with ThreadPoolExecutor(7) as ex:
        for i, (rc, out) in zip(ids, ex.map(check, ids)):
            print(i, 'CAUGHT' if rc == 1 else 'rc=%d' % rc)
            for l in out.splitlines()[:4]:
                print('     ', l[:220])
