#!/usr/bin/env python3
"""run the check of every planted bug in a scratch clone of /repo with the patch applied; record what catches it
usage: python3 tools/seedcheck.py [ids...]   -> tools/seed_results.json"""
import glob
import json
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = R+'/tools/seed_results.json'


def one(d):
    i = os.path.basename(d)
    p = json.load(open(d+'/meta.json'))['property']
    with tempfile.TemporaryDirectory(prefix='sc.') as t:
        w = t+'/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        subprocess.run(['git', 'apply', d+'/patch.diff'], cwd=w, check=True)
        # a copy of /verif: replays and evidence of these runs are thrown away
        subprocess.run('mkdir v && cp -r %s/vc %s/props %s/*.json v/ && mkdir v/replays v/evidence' % (R, R, R), shell=True, cwd=t, check=True)
        e = dict(os.environ, VC_REPO=w, PYTHONPATH=w+'/src:'+t+'/v')
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'vc.run', p], cwd=t+'/v', env=e, capture_output=True, text=True)
    m = re.search(r'obligation "(.*?)" of contract (\w+)', r.stdout)
    ok = r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout
    txt = 'MISSED' if not ok else '%s `%s`: %s%s' % (p, m.group(2) if m else '?', m.group(1) if m else '?', ' (no failing input)' if 'no-failing-input-found' in r.stdout else '')
    print(i, r.returncode, txt, flush=True)
    return i, txt


ids = sys.argv[1:]
ds = [d for d in sorted(glob.glob(R+'/seeded/*')) if not ids or os.path.basename(d) in ids]
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
with ThreadPoolExecutor(3) as ex:
    res.update(dict(ex.map(one, ds)))
have = {os.path.basename(d) for d in glob.glob(R+'/seeded/*')}
json.dump({k: v for k, v in sorted(res.items()) if k in have}, open(OUT, 'w'), indent=1)
