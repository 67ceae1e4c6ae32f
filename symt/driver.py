"""Runs every case of a property: symbolic run, solver verdict, replay on the real library, evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import threading
import time
import traceback
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('MKL_THREADING_LAYER', 'SEQUENTIAL')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.setrecursionlimit(20000)


class _Timeout(BaseException):
    pass


def _alarm(*a):
    raise _Timeout()


def _blank(case, why, wall=0.0):
    return {'case': case.name, 'status': 'inconclusive', 'why': why, 'cex': [], 'conds': 0, 'paths': 0, 'unknown': 1, 'samples': [], 'calls': [], 'vacuity': None,
            'queries': 0, 'solver_s': 0.0, 'instr': 0, 'wall': wall, 'bounds': case.bounds, 'order': case.order}


def _child(conn, case, budget, envs):
    from . import harness as H, bridge
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        r = H.run_symbolic(case, bridge.load(), budget, envs)
    except MemoryError:
        r = _blank(case, 'out of memory')
    except BaseException as e:
        r = _blank(case, 'harness: %s: %s' % (type(e).__name__, e))
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def schedule(ctxm, cases, modname, tier, budget, envs, jobs, hard):
    """One forked process per case, at most `jobs` at a time, ended at its time limit."""
    from multiprocessing.connection import wait
    todo = list(cases)
    run = {}
    out = []
    while todo or run:
        while todo and len(run) < jobs and time.time() < hard:
            c = todo.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(b, c, budget[c.name], envs[c.name]), daemon=True)
            p.start()
            b.close()
            run[a] = (c, p, time.time())
        if not run:
            out += [_blank(c, 'time budget of the whole check') for c in todo]
            return out
        ready = wait(list(run), timeout=0.5)
        for a in list(run):
            c, p, t = run[a]
            if a in ready:
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(_blank(c, 'the encoding process ended early', time.time() - t))
            elif time.time() > min(t + budget[c.name] * 1.25 + 10, hard):
                out.append(_blank(c, 'time budget', time.time() - t))
            else:
                continue
            p.kill()
            p.join()
            a.close()
            del run[a]
    return out


_CASES = {}


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    try:
        return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_file(a.replay))
    sys.exit(run(a.prop, a.tier, a.case, a.jobs, a.list))


def replay_file(path):
    from . import realrun
    d = json.load(open(path))
    r = realrun.Real(d.get('kind', 'release'))
    ans = r.ask(d['module'], d['tier'], d['case'], d['env'])
    r.kill()
    ans.pop('value', None)
    print(json.dumps(ans, indent=1, default=str))
    bad = ans.get('fails') or ans.get('crash') or (ans.get('exc') and not ans.get('exc_allowed'))
    return 1 if bad else 0


def bad_answer(ans):
    """Description of what a real run shows to be wrong, or None."""
    if ans.get('skip') or ans.get('timeout') or ans.get('error'):
        return None
    if ans.get('crash'):
        log = ans.get('log', '')
        i = max(log.find('ERROR: AddressSanitizer'), log.find('WARNING: ThreadSanitizer'))
        return 'the process crashed (%s) %s' % (ans['crash'], log[i:i + 160].replace('\n', ' ') if i >= 0 else '')
    if ans.get('exc'):
        return None if ans.get('exc_allowed') else 'raised ' + ans['exc']
    if ans.get('fails'):
        return ans['fails'][0]
    return None


def run(pid, tier, only=None, jobs=8, lst=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import build, bridge, realrun, harness as H, ir
    modname = 'props.%s' % pid
    m = importlib.import_module(modname)
    # an earlier evidence file must not survive a run that breaks off
    evp = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    if os.path.exists(evp):
        os.remove(evp)
    total_budget = getattr(m, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 2400)
    kind = 'release'
    build.scratch()
    os.environ['VERIF_SCRATCH'] = build.scratch()
    build_err = None
    if getattr(m, 'OMP', False):
        bridge.OMP[0] = True
        from . import omp
        omp.install()
    try:
        tp = bridge.load()
        for lib in getattr(m, 'LIBS', ('recon', 'misc', 'prep', 'gridrec')):
            bridge.CLIBS[lib].mod()
    except Exception as e:
        # the tree does not build or import: nothing can be decided
        print('INCONCLUSIVE property=%s the working tree could not be loaded: %s' % (pid, str(e)[-400:]))
        traceback.print_exc()
        write_evidence(pid, tier, seed, [], [], [], time.time() - t0, m, {}, note='working tree could not be loaded: %s' % e)
        return 2
    cases = [c for c in m.cases(tier) if only is None or only in c.name]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    if lst:
        print('\n'.join(names))
        return 0
    _CASES.update({c.name: c for c in cases})
    rng = np.random.RandomState(seed * 7919 + 13)
    envs = {}
    for c in cases:
        es = []
        for _ in range(c.samples if c.validate else 0):
            for _try in range(50):
                e = H.sample_env(c, rng)
                if c.sample_filter is None or c.sample_filter(H.conc_inputs(c, e)):
                    es.append(e)
                    break
        envs[c.name] = es
    budget = {c.name: c.timeout or max(20.0, total_budget * 0.3) for c in cases}
    results = []
    ctxm = mp.get_context('fork')
    # real runs go on beside the symbolic ones
    reals = [realrun.Real('release') for _ in range(min(3, max(1, len(cases))))]
    real_ans = {}
    todo = [(c.name, k, e) for c in cases for k, e in enumerate(envs[c.name])]
    lock = threading.Lock()

    def feeder(r):
        while True:
            with lock:
                if not todo:
                    return
                n, k, e = todo.pop(0)
            try:
                real_ans[(n, k)] = r.ask(modname, tier, n, e)
            except Exception as ex:
                real_ans[(n, k)] = {'error': str(ex), 'exc': None, 'fails': [], 'value': None}

    threads = [threading.Thread(target=feeder, args=(r,), daemon=True) for r in reals]
    for t in threads:
        t.start()
    hard = t0 + (600 if tier == 'quick' else 6 * 3600)
    results = schedule(ctxm, sorted(cases, key=lambda c: -(c.timeout or 0)), modname, tier, budget, envs, jobs, hard)
    hard += 120
    for t in threads:
        t.join(timeout=max(1.0, hard - time.time()))
    extra = {}
    violations, known, inconcl = [], [], []
    kf = known_findings(pid)
    validated = 0
    samples_run = 0
    shown = []

    def confirm(cname, env, label, mem=False):
        """Replay one counterexample; returns (what, kind, answer) if the real code shows it."""
        ans = reals[0].ask(modname, tier, cname, env)
        w = bad_answer(ans)
        if w:
            return w, 'release', ans
        for k in (('asan', 'tsan', 'watch') if bridge.OMP[0] else ('asan',)) if mem else ():
            if k not in extra:
                extra[k] = realrun.Real(k)
            ans = extra[k].ask(modname, tier, cname, env)
            w = bad_answer(ans)
            if w:
                return w, k, ans
        return None, None, ans

    for r in sorted(results, key=lambda r: names.index(r['case'])):
        c = _CASES[r['case']]
        found = None
        for cx in r['cex']:
            w, k, ans = confirm(c.name, cx['env'], cx['label'], cx.get('mem'))
            if w:
                found = (cx['label'], w, k, cx['env'])
                break
        note = r['why']
        if r['cex'] and not found:
            note = 'counterexample not reproduced on the real code: %s %s' % (r['cex'][0]['label'], r['why'])
            if os.environ.get('VERIF_DEBUG'):
                print(r['cex'][0].get('tb', ''))
        # real runs at the sample points: encoding validation, and a failing one is a failing input
        mism = []
        for k, e in enumerate(envs[c.name]):
            ans = real_ans.get((c.name, k))
            if ans is None or ans.get('error'):
                if ans is not None and os.environ.get('VERIF_DEBUG'):
                    print('real run error', c.name, ans)
                continue
            samples_run += 1
            w = bad_answer(ans)
            if w and not found:
                found = ('sample point', w, 'release', e)
            for kk, v in r['samples']:
                if kk == k and ans.get('value') is not None:
                    dv = H.compare_values(v, ans['value'])
                    if dv:
                        mism.append(dv[0])
                    else:
                        validated += 1
                        if len(shown) < 5:
                            shown.append({'case': c.name, 'input': dict(list(e.items())[:12]), 'encoding': _short(v), 'real_library': _short(ans['value'])})
        if mism and not found:
            note = (note + '; ' if note else '') + 'encoding disagrees with the real run: %s' % mism[0]
        if not found and (note or r['status'] != 'held'):
            # degraded: more concrete points where the solver gave no verdict
            for _ in range(24):
                if time.time() > hard - 60:
                    break
                e = H.sample_env(c, rng)
                if c.sample_filter is not None and not c.sample_filter(H.conc_inputs(c, e)):
                    continue
                ans = reals[0].ask(modname, tier, c.name, e)
                w = bad_answer(ans)
                if w:
                    found = ('sample point (no solver verdict for this case)', w, 'release', e)
                    break
        if found:
            k = match_known(kf, c.name, found)
            if k is not None:
                known.append((k, c.name, found))
            else:
                violations.append((c.name, found))
        elif note or r['status'] != 'held':
            inconcl.append((c.name, note or r['why']))
    for x in reals:
        x.kill()
    for x in extra.values():
        x.kill()
    rc = 0
    for k in {id(k[0]): k for k in known}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what']))
    rd = os.path.join(HERE, 'evidence', 'replays')
    for cname, (label, w, k, env) in violations:
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%s-%s.json' % (pid, hashlib.sha1(cname.encode()).hexdigest()[:10]))
        json.dump({'property': pid, 'module': modname, 'tier': tier, 'case': cname, 'label': label, 'kind': k, 'what': w, 'env': env,
                   'rerun': '/opt/venv/bin/python /verif/check.py %s --replay %s' % (pid, p)}, open(p, 'w'), indent=1, default=str)
        print('  case %s: %s\n    real code: %s' % (cname, label, w))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        rc = 1
    if os.environ.get('VERIF_TIMES'):
        for r in sorted(results, key=lambda r: -r['wall'])[:int(os.environ['VERIF_TIMES'])]:
            print('  %6.1fs %5d paths  %s' % (r['wall'], r['paths'], r['case']))
    for n, w in inconcl:
        print('INCONCLUSIVE property=%s case=%s %s' % (pid, n, w))
    held = sum(1 for r in results if r['status'] == 'held') - 0
    print('%s %s: %d cases, %d decided by the solver, %d inconclusive, %d violations, %d known; %d queries, %.1fs solver, %d paths, '
          '%d encoding points validated, %.1fs wall'
          % (pid, tier, len(cases), held, len(inconcl), len(violations), len(known), sum(r['queries'] for r in results),
             sum(r['solver_s'] for r in results), sum(r['paths'] for r in results), validated, time.time() - t0))
    enc = {lib: sorted(x.split('$')[-1] for x in bridge.CLIBS[lib].mod().defs) for lib in getattr(m, 'LIBS', ())}
    write_evidence(pid, tier, seed, results, violations, inconcl, time.time() - t0, m, {'validated': validated, 'real_runs': samples_run, 'cases': shown, 'known': [k[0]['what'] for k in known]}, enc=enc)
    return rc


def _short(v):
    t = str(np.asarray(v).ravel()[:6].tolist()) if isinstance(v, np.ndarray) else str(v)
    return t[:300]


def match_known(kf, cname, found):
    import re
    for f in kf:
        if re.search(f['case'], cname) and re.search(f['match'], found[1]):
            return f
    return None


def write_evidence(pid, tier, seed, results, violations, inconcl, wall, m, extra, note=None, enc=None):
    funcs = set()
    for c in _CASES.values():
        funcs |= set(c.funcs)
    calls = set()
    for r in results:
        calls |= set(r['calls'])
    cov = {
        'states': max(0, sum(r['paths'] for r in results)),
        'transitions': max(0, int(sum(r['instr'] for r in results))),
        'assertions': sum(r['conds'] for r in results),
        'real_runs': extra.get('real_runs', 0),
        'traces_validated_against_impl': extra.get('validated', 0),
        'samples': extra.get('cases', []),
        'functions_encoded': sorted(funcs | {'C:' + x for x in calls}),
        'bounds': getattr(m, 'BOUNDS', ''),
        'cases': [{'case': r['case'], 'status': r['status'], 'bounds': r['bounds'], 'paths': r['paths'], 'conditions': r['conds'], 'queries': r['queries'],
                   'solver_s': round(r['solver_s'], 3), 'reachable': r['vacuity'], 'why': r['why']} for r in results],
        'queries_discharged': sum(r['queries'] for r in results),
        'solver_s': round(sum(r['solver_s'] for r in results), 3),
        'inconclusive': [{'case': n, 'why': w} for n, w in inconcl],
        'outside_the_claim': getattr(m, 'OUTSIDE', ''),
        'known_findings': extra.get('known', []),
    }
    if note:
        cov['note'] = note
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(m, 'LEVEL', 'model_checking'), 'coverage': cov, 'wall_s': round(wall, 2),
          'violations': len(violations), 'assumptions': list(getattr(m, 'ASSUMPTIONS', []))}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
