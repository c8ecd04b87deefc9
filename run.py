#!/usr/bin/env python3
"""run.py --prop Cxx [--tier quick|thorough] [--case SUBSTR] | --replay FILE"""
import os
import sys
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if sys.version_info[:2] != (3, 12) or (os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv')):
    os.execv(PY, [PY, '-B'] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import argparse
import importlib
import json
import multiprocessing as mp
import time
import traceback


def load_cases(prop, tier):
    m = importlib.import_module('checks.' + prop.lower())
    return m, m.cases(tier)


def failed(name, why):
    return {'case': name, 'inconclusive': [why], 'violations': [], 'paths': 0,
            'obligations': 0, 'discharged': 0, 'queries': 0, 'solver_s': 0, 'functions': [], 'lines': 0, 'linelist': [], 'wall_s': 0,
            'decisions': 0, 'infeasible': 0, 'witnesses': 0, 'validated': 0, 'samples': [], 'unsat': 0, 'sat': 0, 'unknown': 0,
            'bounds': '', 'same_term': 0, 'max_query_s': 0}


def child(conn, args):
    import faulthandler
    import signal
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    faulthandler.dump_traceback_later(LIMITS['quick' if args[1] == 'quick' else 'thorough'][1] - 2)
    try:
        conn.send(work(args))
        conn.close()
    except BaseException:
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


# seconds: start a second attempt (other solver seeds) beside one that runs this long when a processor is idle; end an attempt; give up
LIMITS = {'quick': (40, 240, 780), 'thorough': (600, 3600, 6 * 3600)}


# once a violation is known, the rest of a quick check gets this many seconds more
AFTER_VIOLATION = 0 if os.environ.get('WIZ_FAILFAST') else 60


def schedule(prop, tier, order, jobs, known=()):
    """runs every case in a process of its own; a case whose attempt is lost (solver stuck beyond its time limit) or
    undecided gets a second attempt with other seeds"""
    from multiprocessing.connection import wait
    ctxm = mp.get_context('fork')
    hedge, limit, total = LIMITS['quick' if tier == 'quick' else 'thorough']
    t0 = time.time()
    todo = [(n, 0) for n in order]
    live, best, tried = {}, {}, {n: 0 for n in order}
    left = set(order)

    def start(n, k):
        r, w = ctxm.Pipe(False)
        p = ctxm.Process(target=child, args=(w, (prop, tier, n, k)), daemon=True)
        p.start()
        w.close()
        live[r] = (n, k, p, time.time())
        tried[n] = max(tried[n], k + 1)

    def drop(c):
        n, k, p, t = live.pop(c)
        if p.is_alive():
            p.kill()
        p.join()
        c.close()
        return n

    def running(n):
        return [c for c in live if live[c][0] == n]

    while left:
        now = time.time()
        if now - t0 > total:
            for c in list(live):
                drop(c)
            for n in list(left):
                yield best.get(n) or failed(n, '%s: not run to its end (time limit of the check, or a violation was found)' % n)
            return
        while todo and len(live) < jobs:
            n, k = todo.pop(0)
            if n in left:
                start(n, k)
        if not todo and len(live) < jobs:
            for c, (n, k, p, t) in list(live.items()):
                if len(live) < jobs and tried[n] < 2 and now - t > hedge and len(running(n)) == 1:
                    start(n, 1)
        for c in wait(list(live), timeout=2):
            n, k, p, t = live[c]
            try:
                res = c.recv()
            except (EOFError, OSError):
                res = failed(n, '%s: the process of the case ended' % n)
            drop(c)
            if n not in left:
                continue
            if not res['violations'] and res['inconclusive']:
                if n not in best or len(res['inconclusive']) < len(best[n]['inconclusive']):
                    best[n] = res
                if running(n):
                    continue
                if tried[n] < 2:
                    todo.append((n, 1))
                    continue
                res = best[n]
            left.discard(n)
            for c2 in running(n):
                drop(c2)
            if res['violations'] and n not in known and tier == 'quick':
                total = min(total, time.time() - t0 + AFTER_VIOLATION)
            yield res
        for c, (n, k, p, t) in list(live.items()):
            if time.time() - t > limit:
                drop(c)
                if n in left and not running(n):
                    if tried[n] < 2:
                        todo.insert(0, (n, 1))
                    else:
                        left.discard(n)
                        yield best.get(n) or failed(n, '%s: attempt ended after %d s' % (n, limit))


def work(args):
    prop, tier, name, attempt = args
    from symwiz import harness as H
    H.SEED += 7919 * attempt
    if attempt:
        import z3
        z3.set_param('smt.random_seed', attempt)
        z3.set_param('nlsat.seed', attempt)
    try:
        m, cs = load_cases(prop, tier)
        c = [c for c in cs if c.name == name][0]
        return H.in_big_thread(H.explore, c, tier)
    except BaseException:
        return failed(name, 'engine failure: ' + traceback.format_exc()[-1500:])


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get('property') == prop and k.get('status') == 'known':
                out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.selftest:
        import numpy, scipy, z3
        print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'scipy', scipy.__version__)
        return 0
    t0 = time.time()
    prop, tier = a.prop, a.tier
    m, cs = load_cases(prop, tier)
    names = [c.name for c in cs if not a.case or a.case in c.name]
    known = {k['case']: k for k in known_findings(prop)}
    assert len(set(names)) == len(names), 'duplicate case names'
    # longest first
    order = sorted(names, key=lambda n: -[c for c in cs if c.name == n][0].opts.get('cost', 1))
    results = []
    for r in schedule(prop, tier, order, min(a.j, max(1, len(order))), known):
        results.append(r)
        if a.v:
            print('%-46s paths=%d obl=%d/%d q=%d solver=%.1fs wall=%.1fs wit=%d/%d viol=%d inc=%d' % (
                r['case'], r['paths'], r['discharged'], r['obligations'], r['queries'], r['solver_s'], r['wall_s'],
                r['validated'], r['witnesses'], len(r['violations']), len(r['inconclusive'])), flush=True)
            for i in r['inconclusive'][:3]:
                print('      ', i[:600], flush=True)
            for i in r['violations'][:3]:
                print('      ', i['label'], i['what'], i['floats'], i['failures'][:2], flush=True)
    results.sort(key=lambda r: names.index(r['case']))
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    rc, nv = 0, 0
    lines_out = []
    inc = [i for r in results for i in r['inconclusive'] if r['case'] not in known]
    for r in results:
        for k, v in enumerate(r['violations']):
            if r['case'] in known:
                lines_out.append('KNOWN-FINDING: property=%s %s' % (prop, known[r['case']]['what']))
                continue
            nv += 1
            v['property'] = prop
            path = os.path.join(evd, 'replay', '%s_%s.json' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in r['case'])[:80]))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            lines_out.append('VIOLATION property=%s replay=%s' % (prop, path))
            lines_out.append('   case %s: %s (%s) at %s -> %s' % (r['case'], v['label'], v['what'], v['floats'], v['failures'][:2]))
    tot = lambda k: sum(r[k] for r in results)
    funcs = sorted({f for r in results for f in r['functions']})
    lines = {tuple(x) for r in results for x in r['linelist']}
    from symwiz import harness as H
    ev = {
        'property': prop, 'tier': tier, 'seed': H.SEED, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('decisions') + tot('paths'),
            'traces_validated_against_impl': tot('witnesses'),
            'encoding_equal_to_impl_at_witness': tot('validated'),
            'obligations': tot('obligations'), 'discharged': tot('discharged'),
            'identical_terms': tot('same_term'),
            'infeasible_paths': tot('infeasible'),
            'solver': 'z3 ' + __import__('z3').get_version_string(),
            'solver_queries': tot('queries'), 'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'),
            'solver_time_s': round(tot('solver_s'), 2), 'max_query_s': max([r['max_query_s'] for r in results] or [0]),
            'functions_encoded': funcs, 'source_lines_encoded': len(lines),
            'cases': [{k: r[k] for k in ('case', 'bounds', 'paths', 'obligations', 'discharged', 'queries', 'solver_s', 'wall_s')} for r in results],
            'samples': [s for r in results for s in r['samples']][:6] or ['none'],
            'undecided': inc[:20], 'undecided_cases': sorted({r['case'] for r in results if r['inconclusive']}),
            'rule': 'a state is one feasible execution path of the symbolically executed repository code; a transition is a solver-decided branch',
        },
        'assumptions': getattr(m, 'ASSUMPTIONS', []) + COMMON,
        'wall_s': round(time.time() - t0, 2), 'violations': nv,
    }
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines_out:
        print(l)
    print('%s %s: %d cases, %d paths, %d/%d obligations discharged, %d queries, %.1fs solver, %.1fs wall' % (
        prop, tier, len(results), tot('paths'), tot('discharged'), tot('obligations'), tot('queries'), tot('solver_s'), time.time() - t0))
    if nv:
        return 1
    if inc:
        bad = {r['case'] for r in results if r['inconclusive'] and r['case'] not in known}
        print('UNDECIDED in %d of %d cases:' % (len(bad), len(results)))
        for i in inc[:20]:
            print('  ' + (i if '-v' in sys.argv else i.split(chr(10))[0][:300]))
        # a few undecided cases are reported and leave the verdict of the others; beyond that there is no answer
        if len(bad) > UNDECIDED_MAX * len(results):
            return 3
    return 0


UNDECIDED_MAX = 0.2

COMMON = [
    'floating point numbers are encoded as exact reals (rounding, overflow and dtype effects are outside the claim; literals are read as their decimal value)',
    'K, E and Pi (scipy ellipk/ellipe and the Carlson routine) are uninterpreted functions with their differentiation rules, value at 0 and pole at 1',
    'array sizes, numbers of elements and quadrature points are the ones listed per case',
]


def replay(path):
    from symwiz import harness as H
    from fractions import Fraction
    v = json.load(open(path))
    m, cs = load_cases(v['property'], v['tier'])
    c = [c for c in cs if c.name == v['case']][0]
    vals = {n: Fraction(q) for n, q in v['values'].items()}
    fails, _, exc = H.concrete_run(c, vals, v['tier'], v.get('witness', False))
    print(json.dumps({'inputs': v['floats'], 'failures': fails}, indent=1, default=str))
    return 1 if fails else 0


if __name__ == '__main__':
    sys.exit(main())
