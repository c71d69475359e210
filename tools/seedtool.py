"""Maintains /verif/seeded: builds, confirms and runs the planted changes.

  seedtool.py make FILE.py [ID...]   FILE.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)]
  seedtool.py check [ID...]          run the property's quick check against each planted change (in a scratch copy)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv-pypy/bin/python'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8')


def copy():
    d = tempfile.mkdtemp(prefix='seed-')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % d, shell=True)
    return d


def sh(cmd, cwd, timeout=400, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def tests(d):
    out = tempfile.mkdtemp(prefix='seedout-')
    try:
        sh('%s -m pytest -q -p no:cacheprovider --disable-warnings --timeout=300 --continue-on-collection-errors '
           '-o junit_family=xunit2 --junitxml=%s/junit.xml' % (PY, out), d)
        sh('python3 /opt/vp/results.py %s/o.json junit:%s/junit.xml' % (out, out), d)
        o = json.load(open(out + '/o.json'))
        b = json.load(open('/opt/vp/BASELINE.json'))
        return sorted(set(b['stable']) - set(o['passed']))
    finally:
        shutil.rmtree(out)


def demo(sid, d):
    t = tempfile.mkdtemp(prefix='demo-')
    try:
        src = os.path.join(SEEDED, sid)
        for f in os.listdir(src):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(src, f), t)
        return sh('bash %s/demo.sh' % t, d)
    finally:
        shutil.rmtree(t)


def make(s):
    sid = s['id']
    d = copy()
    try:
        dst = os.path.join(SEEDED, sid)
        os.makedirs(dst, exist_ok=True)
        with open(dst + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n# run from the repository\'s root\nexport PYTHONDONTWRITEBYTECODE=1\n'
                    'exec /opt/venv-pypy/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        with open(dst + '/demo.py', 'w') as f:
            f.write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + s['demo'].strip() + '\n')
        with open(dst + '/meta.json', 'w') as f:
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
            f.write('\n')
        rc, o = demo(sid, d)
        if rc != 0:
            return sid, 'demo fails on the clean tree: ' + o[-600:]
        sh('git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', d)
        for fn, old, new in s['edits']:
            p = os.path.join(d, fn)
            t = open(p, newline='').read()
            if '\r\n' in t and '\r\n' not in old:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                return sid, 'edit matches %d times: %r' % (t.count(old), old)
            open(p, 'w', newline='').write(t.replace(old, new))
        rc, diff = sh('git diff', d)
        open(dst + '/patch.diff', 'w', newline='').write(diff)
        rc, o = demo(sid, d)
        if rc == 0:
            return sid, 'demo passes with the change'
        m = tests(d)
        if m:
            return sid, 'tests fail: %s' % m[:3]
        # the changed lines must be the original repository's
        for fn, old, new in s['edits']:
            base = open(os.path.join('/tmp/base', fn), newline='').read() if os.path.exists('/tmp/base') else None
            if base is not None:
                import difflib
                base = base.replace('\r\n', '\n')
                a, b = old.splitlines(), new.splitlines()
                gone = [a[i] for t, i0, i1, _, _ in difflib.SequenceMatcher(None, a, b).get_opcodes()
                        if t in ('replace', 'delete') for i in range(i0, i1)]
                bl = set(base.splitlines())
                if gone and not any(g in bl for g in gone):
                    # partial lines: compare by stripped containment
                    if not any(g.strip() in base for g in gone):
                        return sid, 'changes no original line: %r' % gone
        return sid, 'ok'
    finally:
        shutil.rmtree(d)


def check(sid, tier='quick'):
    meta = json.load(open(os.path.join(SEEDED, sid, 'meta.json')))
    d = copy()
    ev = tempfile.mkdtemp(prefix='ev-')
    try:
        rc, o = sh('git init -q . && git apply %s' % os.path.join(SEEDED, sid, 'patch.diff'), d)
        if rc:
            return sid, meta['property'], 'patch does not apply: ' + o[-300:]
        env = dict(ENV, PBT_REPO=d, PBT_EVIDENCE=ev, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        rc, o = sh('bash %s/check.sh %s %s' % (VERIF, meta['property'], tier), d, 900, env)
        return sid, meta['property'], 'CAUGHT' if rc == 1 and 'VIOLATION property=%s' % meta['property'] in o else 'MISSED rc=%d %s' % (rc, o[-300:])
    finally:
        shutil.rmtree(d)
        shutil.rmtree(ev)


def main():
    if sys.argv[1] == 'make':
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        ids = sys.argv[3:]
        todo = [s for s in ns['SEEDS'] if not ids or s['id'] in ids]
        with cf.ThreadPoolExecutor(4) as ex:
            for sid, r in ex.map(make, todo):
                print('%-40s %s' % (sid, r), flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        fn = os.path.join(VERIF, 'tools', 'seeds', 'catches.json')
        res = json.load(open(fn)) if os.path.exists(fn) else {}
        for i in ids:
            r = check(i)
            print('%-40s %s %s' % r, flush=True)
            res[i] = r[2].split()[0].lower()
            json.dump(res, open(fn, 'w'), indent=1, sort_keys=True)


main()
