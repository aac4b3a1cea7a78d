"""Check runner:  python -m vc.run <PROPERTY> [--tier quick|thorough] [--only contract]"""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import io
import warnings

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from vc import api            # noqa: E402
from vc.api import CONTRACTS_BY_PROP, Driver, run_concrete, mine_constants, SOURCE, MODEL_USED  # noqa: E402


def load_props(pid):
    for f in sorted(glob.glob(os.path.join(ROOT, 'props', '%s*.py' % pid))):
        importlib.import_module('props.'+os.path.basename(f)[:-3])
    return CONTRACTS_BY_PROP.get(pid, [])


class _Alarm(Exception):
    pass


def worker(c, tier, seed, conn, budget):
    """verify one contract; runs in its own process"""
    res = {'contract': c.name, 'fns': c.fns}
    try:
        # output of the code under test is not ours
        devnull = open(os.devnull, 'w')
        sys.stdout = devnull
        os.chdir(os.environ.get('VC_SCRATCH', '/tmp'))
        try:
            pool = mine_constants(c.fns)
        except SyntaxError:
            pool = []
        given = []
        if c.prove:
            t0 = time.time()
            tmo = c.tmo if tier == 'quick' else c.tmo*3
            d = Driver(c, t0+tmo).run()
            if d.status == 'unsupported' and d.interp.merging:
                first = d
                d = Driver(c, time.time()+tmo, merging=False).run()
                if d.status == 'unsupported':
                    d.reason = '%s (merged: %s)' % (d.reason, first.reason)
            res['proof'] = {'status': d.status, 'reason': d.reason, 'paths': d.npaths,
                            'obligations': {k: {'instances': v[0], 'proved': v[1], 'solver_s': round(v[2], 3), 'status': v[3]} for k, v in d.obs.items()},
                            'solver_s': round(api.C.t_solver, 2), 'queries': api.C.nqueries, 'wall_s': round(d.wall, 2),
                            'functions': {'%s:%s' % k: hashlib.sha256(v.encode()).hexdigest()[:12] for k, v in SOURCE.used.items() if v},
                            'models': sorted(MODEL_USED),
                            'refuted': [(n, i, det[:3000]) for n, i, det in d.refuted]}
            given = [i for _, i, _ in d.refuted if i] + d.path_models
        else:
            res['proof'] = None
        if c.conc:
            secs = c.conc_s if tier == 'quick' else c.conc_s*6
            n = c.n if tier == 'quick' else c.n*10
            ev, rej, fail, samples = run_concrete(c, n, seed, secs, given, pool)
            if fail is None and res['proof'] and res['proof']['status'] == 'refuted':
                ev2, rej2, fail, _ = run_concrete(c, n*10, seed+77, max(secs*2, 60), [], pool)
                ev += ev2
                rej += rej2
            res['conc'] = {'evaluations': ev, 'rejected': rej, 'failure': fail, 'samples': samples}
        else:
            res['conc'] = None
    except BaseException as ex:     # noqa
        res['error'] = '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-2500:])
    def clean(o):
        if isinstance(o, dict):
            return {str(k): clean(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [clean(x) for x in o]
        if isinstance(o, (str, int, float, bool)) or o is None:
            return o if not isinstance(o, (bool,)) else bool(o)
        try:
            return o.item()
        except Exception:
            return str(o)
    conn.send(clean(res))
    conn.close()
    os._exit(0)


def run_all(cs, tier, seed, jobs=8, hard=700):
    ctx = mp.get_context('fork')
    todo = sorted(cs, key=lambda c: -c.weight*c.tmo)
    running, out = [], []
    while todo or running:
        while todo and len(running) < jobs:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(c, tier, seed, b, hard))
            p.start()
            b.close()
            running.append((c, p, a, time.time()))
        time.sleep(0.02)
        nxt = []
        for c, p, a, t in running:
            lim = (hard if tier == 'quick' else hard*3)
            if a.poll():
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append({'contract': c.name, 'fns': c.fns, 'error': 'worker died'})
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                out.append({'contract': c.name, 'fns': c.fns, 'error': 'worker exited %s' % p.exitcode})
            elif time.time()-t > lim:
                p.kill()
                out.append({'contract': c.name, 'fns': c.fns, 'error': 'worker timeout'})
            else:
                nxt.append((c, p, a, t))
        running = nxt
    return out


def findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get('status') == 'known']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix='vc_')
    os.environ['VC_SCRATCH'] = scratch
    try:
        return _main(a, tier, seed, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, tier, seed, t0):
    pid = a.prop
    try:
        cs = load_props(pid)
    except Exception:
        # the tree does not even import: every obligation of the check fails
        rp = write_replay(pid, 'import', {'error': traceback.format_exc()[-3000:]})
        print(traceback.format_exc()[-1500:])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        return 1
    if a.only:
        cs = [c for c in cs if c.name in a.only.split(',')]
    if not cs:
        print('no contracts for', pid)
        return 1
    res = run_all(cs, tier, seed, a.jobs)
    kf = [f for f in findings() if f['property'] == pid]
    viol, seen_kf = [], []
    tot = {'obligations': 0, 'discharged': 0, 'solver_s': 0.0, 'queries': 0, 'paths': 0}
    funcs, models, bounded, per = {}, set(), [], []
    evals = 0
    samples = []
    for r in sorted(res, key=lambda r: r['contract']):
        c = [x for x in cs if x.name == r['contract']][0]
        p, q = r.get('proof'), r.get('conc')
        line = {'contract': c.name, 'functions': c.fns}
        fail = (q or {}).get('failure')
        if r.get('error'):
            line['error'] = r['error']
            bounded.append({'contract': c.name, 'reason': 'worker error: '+r['error'].splitlines()[0]})
        if p:
            line['proof'] = p['status']
            line['reason'] = p['reason']
            line['paths'] = p['paths']
            line['wall_s'] = p['wall_s']
            ob = p['obligations']
            n = len(ob)
            d = sum(1 for v in ob.values() if v['status'] == 'proved') if p['status'] == 'proved' else \
                sum(1 for v in ob.values() if v['status'] == 'proved' and p['status'] == 'refuted')
            if p['status'] in ('unknown', 'unsupported'):
                bounded.append({'contract': c.name, 'reason': '%s: %s' % (p['status'], p['reason']),
                                'bound': '%d runtime evaluations' % ((q or {}).get('evaluations', 0))})
                line['bounded'] = True
            else:
                tot['obligations'] += n
                tot['discharged'] += d
                funcs.update(p['functions'])
                models.update(p['models'])
            line['obligations'] = {k: '%d/%d' % (v['proved'], v['instances']) for k, v in ob.items()}
            tot['solver_s'] += p['solver_s']
            tot['queries'] += p['queries']
            tot['paths'] += p['paths']
        elif not r.get('error'):
            bounded.append({'contract': c.name, 'reason': c.why_bounded or 'outside the verifier', 'bound': '%d runtime evaluations' % ((q or {}).get('evaluations', 0))})
            line['bounded'] = True
        if q:
            evals += q['evaluations']
            line['runtime_evaluations'] = q['evaluations']
            for s in q['samples'][:1]:
                samples.append({'contract': c.name, 'inputs': str(s)[:300]})
        # ---- verdict
        k = [f for f in kf if f['contract'] == c.name]
        if fail:
            hit = [f for f in k if f['obligation'] in (fail['obligation'],) ]
            if hit:
                seen_kf.append(hit[0])
            else:
                viol.append((c, fail, p, True))
        elif p and p['status'] == 'refuted':
            nm = p['refuted'][0]
            if [f for f in k if f['obligation'] == nm[0]]:
                seen_kf.append([f for f in k if f['obligation'] == nm[0]][0])
            else:
                viol.append((c, {'obligation': nm[0], 'detail': nm[2], 'inputs': nm[1]}, p, False))
        per.append(line)
        if a.v:
            print(json.dumps({k: v for k, v in line.items() if k != 'functions'}, indent=None)[:1800])
            if r.get('error'):
                print(r['error'])
            if fail:
                print('FAIL', fail)
            if p and p['refuted']:
                print('REFUTED', str(p['refuted'][0])[:1500])
    for f in seen_kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    for c, fail, p, confirmed in viol:
        rp = write_replay(pid, c.name, {'property': pid, 'contract': c.name, 'functions': c.fns,
                                        'obligation': fail['obligation'], 'detail': fail.get('detail'),
                                        'inputs': fail.get('inputs'), 'confirmed_on_real_code': confirmed,
                                        'verifier': (p or {}).get('refuted'),
                                        'how': 'cd /verif && /opt/venv/bin/python -m vc.replay <this file>'})
        print('%s: obligation "%s" of contract %s fails: %s' % (pid, fail['obligation'], c.name, str(fail.get('detail'))[:400]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if confirmed else ' no-failing-input-found'))
    tb = ['Python ints as mathematical integers; floats as mathematical reals with a NaN flag (rounding and overflow not modelled)',
          'z3 %s; the symbolic interpreter /verif/vc (cross-checked against CPython on %d runtime evaluations of the same contracts this run)' % ('.'.join(map(str, api.z3.get_version())), evals)]
    tb += ['library model: '+m for m in sorted(models)]
    if a.only:
        return 1 if viol else 0
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': 'proof' if tot['obligations'] else 'exploration',
          'coverage': {'obligations': tot['obligations'], 'discharged': tot['discharged'],
                       'checker_cmd': '/opt/venv/bin/python -m vc.run %s --tier %s' % (pid, tier),
                       'trusted_base': tb, 'back_end': 'z3', 'solver_s': round(tot['solver_s'], 2),
                       'queries': tot['queries'], 'paths': tot['paths'],
                       'functions_under_contract': funcs, 'contracts': per,
                       'bounded_stand_ins': bounded,
                       'evaluations': evals, 'distinct_nontrivial': evals,
                       'rule': 'runtime evaluations of the same contracts on the real code: solver models of every path, then random inputs biased to bounds and to constants of the source; non-trivial = preconditions accepted and at least one postcondition evaluated',
                       'samples': samples or ['none']},
          'assumptions': tb[:1] + ['bounded (not proved): %s — %s' % (b['contract'], b['reason'][:200]) for b in bounded],
          'wall_s': round(time.time()-t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid+'.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d contracts, %d/%d obligations discharged, %d bounded stand-ins, %d runtime evaluations, %.1fs (%d paths, solver %.1fs)' % (
        pid, tier, len(cs), tot['discharged'], tot['obligations'], len(bounded), evals, time.time()-t0, tot['paths'], tot['solver_s']))
    return 1 if viol else 0


def write_replay(pid, name, obj):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s.json' % (pid, name))
    with open(p, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
    return p


if __name__ == '__main__':
    sys.exit(main())
