"""Runs the harnesses of one property, in parallel, and writes the evidence."""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')


def child(h, cfg, tier, seed, limit, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    if os.environ.get('VERIF_DUMP'):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ['VERIF_DUMP']), exit=True)
    from .harness import JobRun
    from . import loader
    enc = set()
    mark = os.sep + 'doatools' + os.sep

    def seen(code, off):
        fn = code.co_filename
        if mark in fn and '/engine/' not in fn and fn.startswith('<sym>') and not code.co_qualname.startswith('<'):
            enc.add('%s:%s' % (fn.split(mark)[-1], code.co_qualname))
        return sys.monitoring.DISABLE
    sys.monitoring.use_tool_id(3, 'verif')
    sys.monitoring.register_callback(3, sys.monitoring.events.PY_START, seen)
    sys.monitoring.set_events(3, sys.monitoring.events.PY_START)
    t0 = time.time()
    j = JobRun(h, cfg, tier, seed, t0 + limit)
    try:
        j.go()
        r = j.result()
    except BaseException as e:
        try:
            r = j.result()
        except BaseException:
            r = {'harness': h.name, 'cfg': cfg, 'violations': j.violations, 'stats': {}, 'complete': False}
        r['crash'] = ''.join(traceback.format_exception(e))[-2000:]
        r['complete'] = False
    r['functions'] = sorted(enc)
    conn.send(r)
    conn.close()
    os._exit(0)


def load(prop):
    mod = importlib.import_module('checks.%s' % prop.lower())
    return mod


def known_findings():
    out = []
    fn = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(fn):
        with open(fn) as f:
            out = json.load(f)
    return out


def run_property(prop, tier='quick', seed=1, only=None, verbose=False, nproc=None, limit=None):
    from . import loader
    mod = load(prop)
    t0 = time.time()
    hs = [h for h in mod.HARNESSES if only is None or only in h.name]
    # warm imports in the parent so children fork fast
    loader.install()
    for m in getattr(mod, 'WARM', ()):
        try:
            loader.sym(m)
            loader.real(m)
        except ImportError:
            pass            # imported again, and reported, by the harnesses that need it
    jobs = [(h, cfg) for h in hs for cfg in h.configs('quick')]
    if tier != 'quick':
        jobs += [(h, cfg) for h in hs for cfg in h.configs(tier)[len(h.configs('quick')):]]
    total = limit or (float(os.environ.get('VERIF_BUDGET', 0)) or getattr(mod, 'BUDGET', {}).get(tier) or (240 if tier == 'quick' else 780))
    joblim = getattr(mod, 'JOBLIM', {}).get(tier) or (100 if tier == 'quick' else 1500)
    nproc = nproc or int(os.environ.get('VERIF_PROCS', 0)) or min(8, os.cpu_count() or 4)
    results = []
    running = []
    # harnesses take turns, so that one with slow jobs does not keep the others from running
    seen = {}
    queue = sorted(jobs, key=lambda j: (seen.__setitem__(j[0].name, seen.get(j[0].name, -1) + 1), seen[j[0].name])[1])
    stop = False
    killed = []
    while (queue and not stop) or running:
        # a job that takes long gives up its slot (twice as many processes at most)
        while queue and sum(time.time() - r[4] < 30 for r in running) < nproc and len(running) < 2 * nproc and not stop:
            if time.time() - t0 > total:
                break
            h, cfg = queue.pop(0)
            a, b = mp.Pipe(False)
            lim = min(joblim, max(5, total - (time.time() - t0)))
            p = mp.get_context('fork').Process(target=child, args=(h, cfg, tier, seed, lim, b))
            p.start()
            b.close()
            running.append((p, a, h, cfg, time.time(), lim))
        if not running:
            break
        mp.connection.wait([r[1] for r in running], timeout=0.5)
        for r in list(running):
            p, a, h, cfg, st, lim = r
            res = None
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = {'harness': h.name, 'cfg': cfg, 'violations': [], 'stats': {}, 'complete': False, 'crash': 'child died'}
            elif not p.is_alive():
                res = {'harness': h.name, 'cfg': cfg, 'violations': [], 'stats': {}, 'complete': False, 'crash': 'child died'}
            elif time.time() - st > lim + 45:
                p.kill()
                res = {'harness': h.name, 'cfg': cfg, 'violations': [], 'stats': {}, 'complete': False, 'crash': 'time limit'}
            if res is not None:
                p.join(5)
                running.remove(r)
                results.append(res)
                if verbose:
                    show(res)
                if res.get('violations'):
                    if not all(is_known(prop, v) for v in res['violations']):
                        stop = True
        if stop:
            for p, a, *_ in running:
                p.kill()
                p.join(5)
            running = []
    notrun = len(queue)
    return finish(prop, mod, hs, results, notrun, tier, seed, time.time() - t0)


def is_known(prop, v):
    for k in known_findings():
        if k.get('status') == 'known' and k.get('property') == prop and k.get('harness') == v['harness'] \
                and k.get('label') == v['label'] and all(v['cfg'].get(a) == b for a, b in k.get('cfg', {}).items()) \
                and all(v['choices'].get(a) == b for a, b in k.get('choices', {}).items()):
            return k
    return None


def show(r):
    s = r.get('stats', {})
    print('  %-28s %-46s %5.1fs paths=%s(%s) asserts=%s q=%s unsat=%s sat=%s unk=%s val=%s reach=%s terms=%s%s' % (
        r['harness'], json.dumps(r['cfg'], default=str)[:46], r.get('wall', 0), s.get('paths'), s.get('aborted'), r.get('asserts'),
        s.get('queries'), s.get('unsat'), s.get('sat'), s.get('unknown'), r.get('validated'), r.get('reached'), s.get('maxterms'),
        '' if r.get('complete') else ' INCOMPLETE'))
    for k in ('violations', 'unreproduced', 'unknowns', 'unsupported', 'mismatches', 'errors', 'crash'):
        if r.get(k):
            x = r[k]
            if isinstance(x, list):
                for y in x[:4]:
                    print('      %s: %s' % (k, str(y)[:900]))
            else:
                print('      %s: %s' % (k, x))
    sys.stdout.flush()


def finish(prop, mod, hs, results, notrun, tier, seed, wall):
    tot = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            tot[k] = max(tot.get(k, 0), v) if k == 'maxterms' else tot.get(k, 0) + v
    agg = lambda k: sum(r.get(k, 0) or 0 for r in results)
    viol = [v for r in results for v in r.get('violations', [])]
    unknown = [v for v in viol if not is_known(prop, v)]
    lst = lambda k: sorted({str(x)[:300] for r in results for x in (r.get(k) or [])})
    crashes = [r['crash'][-400:] for r in results if r.get('crash')]
    byh = {}
    for r in results:
        d = byh.setdefault(r['harness'], {'configs': 0, 'paths': 0, 'assertions': 0, 'proved': 0, 'queries': 0, 'solver_s': 0.0, 'complete': True, 'reached': 0, 'validated': 0})
        d['configs'] += 1
        d['paths'] += r.get('stats', {}).get('paths', 0)
        d['assertions'] += r.get('asserts', 0) or 0
        d['proved'] += r.get('proved', 0) or 0
        d['queries'] += r.get('stats', {}).get('queries', 0)
        d['solver_s'] = round(d['solver_s'] + r.get('stats', {}).get('t', 0.0), 3)
        d['complete'] = d['complete'] and bool(r.get('complete')) and not r.get('unsupported') and not r.get('unknowns') and not r.get('unreproduced')
        d['reached'] += r.get('reached', 0) or 0
        d['validated'] += r.get('validated', 0) or 0
        d['bounds'] = next(h.bounds for h in hs if h.name == r['harness'])
    wit = next((r['witness'] for r in results if r.get('witness')), None)
    full = all(d['complete'] for d in byh.values()) and not notrun and not crashes
    os.makedirs(EVID, exist_ok=True)
    samples = []
    for r in results:
        if r.get('witness') and len(samples) < 5:
            samples.append({'harness': r['harness'], 'config': r['cfg'], 'point': r['witness']['values'],
                            'assertions_reached_on_real_code': r['witness']['asserts']})
    vio_out = []
    for i, v in enumerate(viol):
        fn = os.path.join(EVID, '%s_replay_%d.json' % (prop, i))
        with open(fn, 'w') as f:
            json.dump(dict(v, property=prop, seed=seed), f, indent=1, default=str)
        v['replay'] = fn
        vio_out.append({'replay': fn, 'what': '%s: %s' % (v['label'], v['detail'])})
    cov = {
        'explanation': 'Symbolic execution of the current source of the listed functions; every listed assertion was decided by z3 over all values within the bounds of its harness (verdict unsat = no counterexample). ' + (
            'All paths of all configurations were explored and every assertion was discharged.' if full and not viol else
            'NOT complete: see the inconclusive entries; nothing is claimed for them beyond the concrete runs counted under reduced_concrete_runs.'),
        'functions_encoded': sorted({c for r in results for c in (r.get('functions') or [])}),
        'harnesses': byh,
        'infeasible_paths': tot.get('aborted', 0),
        'assertions': agg('asserts'), 'assertion_elements_equal_in_normal_form': agg('identities'),
        'solver': 'z3 %s' % z3version(), 'queries': tot.get('queries', 0),
        'unsat': tot.get('unsat', 0), 'sat': tot.get('sat', 0), 'unknown': tot.get('unknown', 0),
        'solver_time_s': round(tot.get('t', 0.0), 3),
        'largest_polynomial_terms': tot.get('maxterms', 0),
        'translator_validation': {'how': 'traces_validated_against_impl counts sampled points at which every asserted quantity was compared with the unmodified code', 'mismatches': lst('mismatches')},
        'vacuity_witness': {'paths_with_a_satisfying_input': agg('reached'), 'example': wit},
        'counterexample_replays': agg('replays'),
        'inconclusive': {'unsupported': lst('unsupported'), 'solver_unknown': lst('unknowns'),
                         'not_reproduced': lst('unreproduced'), 'crashes': crashes, 'errors': lst('errors')[:5],
                         'jobs_not_run': notrun, 'reduced_concrete_runs': agg('reduced_runs')},
        'complete': bool(full),
    }
    if mod.LEVEL == 'model_checking':
        cov.update({'states': tot.get('paths', 0), 'transitions': tot.get('branches', 0),
                    'states_meaning': 'feasible symbolic paths explored to the end; transitions are solver-decided branches taken',
                    'traces_validated_against_impl': agg('validated'), 'samples': samples})
    else:
        cov['samples'] = samples
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'violations': 0, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON, 'wall_s': round(wall, 3)}
    if vio_out:
        cov['violations_found'] = vio_out
    ev['violations'] = len(vio_out)
    tmp = os.path.join(EVID, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, '%s.json' % prop))
    for v in viol:
        k = is_known(prop, v)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what')))
    print('%s %s: %d jobs, %d paths, %d assertions, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, wall %.1fs%s' % (
        prop, tier, len(results), tot.get('paths', 0), agg('asserts'), tot.get('queries', 0), tot.get('unsat', 0), tot.get('sat', 0),
        tot.get('unknown', 0), tot.get('t', 0), wall, '' if full else ' [INCOMPLETE]'))
    inc = cov['inconclusive']
    for k in ('unsupported', 'solver_unknown', 'not_reproduced', 'crashes', 'errors'):
        for x in inc[k][:5]:
            print('  inconclusive %s: %s' % (k, x[:600]))
    for x in lst('mismatches')[:5]:
        print('  encoding mismatch: %s' % x)
    if unknown:
        v = unknown[0]
        print('  %s %s: %s: %s' % (v['harness'], json.dumps(v['cfg'], default=str), v['label'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        return 1
    return 0


COMMON = [
    'arithmetic is exact real/complex arithmetic; float literals denote the simplest rational within 4 ulp (IEEE rounding is outside the claim)',
    'numpy, scipy, cvxpy and matplotlib behave as documented (engine/snp.py, engine/stubs.py state the contracts used)',
    'denominators met by the code under test are nonzero on the values quantified over',
    'array sizes and object configurations are those enumerated by the harness bounds; everything larger is outside the claim',
]


def z3version():
    from . import path
    return path.z3.get_version_string()


def replay(prop, fn, seed=1):
    from . import harness, loader
    loader.install()
    mod = load(prop)
    with open(fn) as f:
        v = json.load(f)
    h = next(h for h in mod.HARNESSES if h.name == v['harness'])
    st, E, info = harness.run_real(h, v['cfg'], v.get('tier', 'quick'), v.get('seed', 1), v['values'], v['choices'], None, v.get('tight', False))
    print(st, info)
    if st == 'error' and v.get('crash') and len(info) > 2 and list(info[2] or ()) == v['crash']:
        return 1
    return 1 if st == 'violation' else 0
