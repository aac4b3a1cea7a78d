"""Mutation campaign over the functions under contract (development aid; no check uses it).

  mutate.py [--per N] [--seed S] [--workers W] [--out FILE] [PROP…]

Samples small edits of the functions a property's contracts name, runs the
property's check on each in a scratch copy of /repo/src and lists the
survivors.  A survivor is either an equivalent edit or a weak contract.
"""
import argparse
import ast
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VC_REPO', '/repo')
PY = '/opt/venv/bin/python'
sys.path.insert(0, ROOT)


def fns_of(pid):
    from vc.run import load_props
    out = {}
    for c in load_props(pid):
        for f in c.fns:
            out.setdefault(f, []).append(c.name)
    return out


def find(tree, qual):
    body = tree.body
    node = None
    for part in qual.split('.'):
        node = next((n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part), None)
        if node is None:
            return None
        body = node.body
    return node


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.FloorDiv: '*', ast.Mod: '*'}


def mutants(src, fn):
    """(start, end, replacement, what) in character offsets"""
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1]+len(l.encode()))
    raw = src.encode()

    def pos(n):
        return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset

    def txt(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []
    doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and 'monlevel' in ast.unparse(n.test):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Call) and (getattr(n.func, 'id', '') in ('print',) or getattr(n.func, 'attr', '') in ('write', 'format')):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(fn):
        if id(n) in skip or n is doc or n is fn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n)
            l, r = txt(n.left), txt(n.comparators[0])
            o = CMP[type(n.ops[0])]
            out.append((a, b, '%s %s %s' % (l, o, r), 'cmp'))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            a, b = pos(n)
            out.append((a, b, '(%s) %s (%s)' % (txt(n.left), OPS[type(n.op)], txt(n.right)), 'op'))
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n)
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            out.append((a, b, '('+o.join('(%s)' % txt(v) for v in n.values)+')', 'bool'))
            k = random.randrange(len(n.values))
            rest = [v for i, v in enumerate(n.values) if i != k]
            o = ' and ' if isinstance(n.op, ast.And) else ' or '
            out.append((a, b, '('+o.join('(%s)' % txt(v) for v in rest)+')', 'drop-cond'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = pos(n)
            out.append((a, b, '(%s)' % txt(n.operand), 'unary'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = pos(n)
            v = n.value
            if isinstance(v, int):
                out.append((a, b, str(v+random.choice([1, 1, -1]) if v else 1), 'const'))
            else:
                out.append((a, b, repr(v*1.01 if v else 1.0), 'const'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r'([us]\d+)+', n.value):
            a, b = pos(n)
            i = random.choice([m.start() for m in re.finditer('[us]', n.value)])
            s = n.value[:i]+('s' if n.value[i] == 'u' else 'u')+n.value[i+1:]
            out.append((a, b, repr(s), 'fmt'))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = pos(n)
            out.append((a, b, repr(not n.value), 'const'))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            a, b = pos(n)
            out.append((a, b, 'pass', 'del'))
        elif isinstance(n, (ast.Continue, ast.Break)):
            a, b = pos(n)
            out.append((a, b, 'pass', 'del'))
        elif isinstance(n, ast.If):
            a, b = pos(n.test)
            out.append((a, b, random.choice(['True', 'False']), 'if'))
        elif isinstance(n, ast.Attribute) and n.attr in ('cuc', 'cus', 'crc', 'crs', 'cic', 'cis') and isinstance(n.ctx, ast.Load):
            a, b = pos(n)
            out.append((a, b, txt(n)[:-1]+('s' if n.attr[-1] == 'c' else 'c'), 'attr'))
    return [(a, b, r, w, raw) for a, b, r, w in out]


def short_loops(src, fn, n):
    """every loop stops after n rounds"""
    out = []
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1]+len(l.encode()))
    for x in ast.walk(fn):
        if isinstance(x, ast.For):
            t = ast.unparse(x.iter)
            k = re.fullmatch(r'range\((?:(\d+), )?(\d+)\)', t)
            if k and int(k.group(2))-int(k.group(1) or 0) <= n:
                continue
            a, b = [off[l-1]+c for l, c in ((x.iter.lineno, x.iter.col_offset), (x.iter.end_lineno, x.iter.end_col_offset))]
            out.append((a, b, 'list(%s)[:%d]' % (t, n), 'loop', src.encode()))
    return out


def alias(src, fn):
    """containers emptied in place instead of replaced; objects shared instead of new"""
    out = []
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1]+len(l.encode()))
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Attribute, ast.Subscript)):
            t, v = ast.unparse(x.targets[0]), ast.unparse(x.value)
            new = None
            if v in ('{}', '[]'):
                new = '%s.clear()' % t
            elif re.match(r'np\.zeros\(', v):
                new = '%s[...] = 0' % t
            elif '.copy()' in v or 'deepcopy(' in v:
                new = '%s = %s' % (t, re.sub(r'(copy\.)?deepcopy\((.*)\)$', r'\2', v.replace('.copy()', '')))
            if new:
                a, b = [off[l-1]+c for l, c in ((x.lineno, x.col_offset), (x.end_lineno, x.end_col_offset))]
                out.append((a, b, new, 'alias', src.encode()))
    return out


KEEP = '''


def _keep(f, v):
    try:
        o = f()
    except Exception:
        return v
    if o is None or type(o) in (list, dict, str) and not len(o) or type(o) in (int, float) and o in (0, -1) or o != o:
        return v
    if getattr(o, 'shape', ()) and not o.any():
        return v
    return o
'''


def sticky(src, fn):
    """what was stored before is kept instead of being replaced"""
    out = []
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1]+len(l.encode()))
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Attribute, ast.Subscript)):
            t, v = ast.unparse(x.targets[0]), ast.unparse(x.value)
            if 'monlevel' in t:
                continue
            a, b = [off[l-1]+c for l, c in ((x.lineno, x.col_offset), (x.end_lineno, x.end_col_offset))]
            out.append((a, b, '%s = _keep(lambda: %s, %s)' % (t, t, v), 'sticky', src.encode()))
    return out


def apply(m):
    a, b, r, w, raw = m
    new = raw[:a]+r.encode()+raw[b:]
    try:
        t = ast.parse(new)
    except SyntaxError:
        return None
    if ast.dump(t) == ast.dump(ast.parse(raw)):
        return None
    return new.decode()+(KEEP if w == 'sticky' else ''), w, raw[:a].count(b'\n')+1, raw[a:b].decode().replace('\n', ' ')[:80], r.replace('\n', ' ')[:80]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--per', type=int, default=15)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--out', default='/tmp/mut.txt')
    ap.add_argument('--fn')
    ap.add_argument('--loops', type=int, default=0)
    ap.add_argument('--alias', action='store_true')
    ap.add_argument('--sticky', action='store_true')
    a = ap.parse_args()
    random.seed(a.seed)
    pids = a.props or sorted({os.path.basename(f)[:3] for f in glob.glob(ROOT+'/props/[A-Z][0-9]*.py')})
    tasks = []
    for pid in pids:
        fns = fns_of(pid)
        allm = []
        for f, cs in fns.items():
            mod, q = f.split(':')
            if a.fn and a.fn not in f:
                continue
            p = '%s/src/cssrlib/%s.py' % (SRC, mod)
            src = open(p).read()
            node = find(ast.parse(src), q)
            if not isinstance(node, ast.FunctionDef):
                continue
            ms = short_loops(src, node, a.loops) if a.loops else alias(src, node) if a.alias else sticky(src, node) if a.sticky else mutants(src, node)
            random.shuffle(ms)
            allm.append((pid, f, mod, cs, ms))
        # spread over functions, proportionally to the square root of their size
        pick = []
        w = [len(m[4])**.5 for m in allm]
        if not sum(w):
            continue
        for (pid, f, mod, cs, ms), x in zip(allm, w):
            n = 999 if a.loops or a.alias else max(1, round(a.per*x/sum(w)))
            for m in ms:
                if n and (r := apply(m)):
                    pick.append((pid, f, mod, cs)+r)
                    n -= 1
        tasks += pick
    random.shuffle(tasks)
    print(len(tasks), 'mutants', flush=True)
    pool = queue.Queue()
    tmp = tempfile.mkdtemp(prefix='mut')
    for k in range(a.workers):
        d = '%s/%d' % (tmp, k)
        os.makedirs(d)
        shutil.copytree(SRC+'/src', d+'/src')
        pool.put(d)
    out = open(a.out, 'a')

    def run(t):
        pid, f, mod, cs, new, w, ln, old, rep = t
        d = pool.get()
        p = '%s/src/cssrlib/%s.py' % (d, mod)
        orig = open(p).read()
        try:
            open(p, 'w').write(new)
            env = dict(os.environ, VC_REPO=d, PYTHONPATH=d+'/src', PYTHONDONTWRITEBYTECODE='1')
            rc, txt = 0, ''
            for only in cs[:1]+[None]:
                cmd = [PY, '-m', 'vc.run', pid, '--jobs', str(a.jobs)]+(['--only', only] if only else [])
                try:
                    r = subprocess.run(cmd, cwd=ROOT, env=env, capture_output=True, text=True, timeout=900)
                    rc, txt = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, txt = -1, 'timeout'
                if rc:
                    break
        finally:
            open(p, 'w').write(orig)
            pool.put(d)
        st = 'SURVIVED' if rc == 0 else ('killed-nofail' if 'no-failing-input-found' in txt else 'killed' if rc == 1 and 'VIOLATION' in txt else 'ODD rc=%s' % rc)
        out.write('%s %s %s:%d %s  [%s] -> [%s]\n' % (st, pid, f, ln, w, old, rep))
        out.flush()
    with cf.ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(run, tasks))
    shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
