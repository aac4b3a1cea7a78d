#!/usr/bin/env python3
"""plant(id, property, edits, demo, needs, breaks): write seeded/<id> and confirm it in a scratch copy.
usage: python3 tools/seed.py spec.py [ids...]     (spec.py calls plant(...))"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONLY = sys.argv[2:]
TEST = '--notest' not in sys.argv
ONLY = [x for x in ONLY if not x.startswith('--')]


def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)


def plant(id, prop, edits, demo, needs, breaks):
    if ONLY and id not in ONLY:
        return
    d = os.path.join(R, 'seeded', id)
    s = tempfile.mkdtemp(prefix='seed.')
    w = s+'/repo'
    sh('git clone -q /repo %s' % w, '/')
    for f, old, new in edits:
        p = '%s/src/cssrlib/%s' % (w, f)
        t = open(p).read()
        assert t.count(old) == 1, (id, f, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    os.makedirs(d, exist_ok=True)
    open(d+'/patch.diff', 'w').write(sh('git diff', w).stdout)
    open(d+'/demo.py', 'w').write('import sys, os, tempfile\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\ntmp = tempfile.TemporaryDirectory()\nos.chdir(tmp.name)\nsys.dont_write_bytecode = True\n'+demo.lstrip('\n'))
    open(d+'/demo.sh', 'w').write('#!/bin/bash\nset -e\n[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d+'/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, '/repo')
    b = sh('bash %s/demo.sh' % d, w)
    t = ''
    ok = a.returncode == 0 and b.returncode != 0
    print(id, prop, 'demo clean', a.returncode, 'patched', b.returncode, (b.stderr.strip().splitlines() or [''])[-1][:120])
    if a.returncode:
        print(a.stderr[-500:])
    # stable tests on /repo with the patch applied
    if ok and TEST:
        assert sh('git status --porcelain -uno', '/repo').stdout.strip() == ''
        sh('git apply %s/patch.diff' % d, '/repo')
        try:
            sh('bash /opt/vp/test.sh /tmp/seed.o.json', '/repo')
            o = json.load(open('/tmp/seed.o.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            passed = set(o.get('passed', []))
            st = set(base.get('stable', base.get('passed', [])))
            miss = st-passed
            print('   stable tests missing:', miss)
            ok = ok and not miss
        finally:
            sh('git checkout -- .', '/repo')
            for q in ('/repo/src/cssrlib/__pycache__', '/repo/src/cssrlib/test/__pycache__'):
                shutil.rmtree(q, ignore_errors=True)
    shutil.rmtree(s)
    if not ok:
        print('   NOT CONFIRMED', id)


exec(open(sys.argv[1]).read())
