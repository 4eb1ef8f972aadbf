"""Explores the cases of one property and writes its evidence"""
import argparse
import contextlib
import importlib
import io
import json
import multiprocessing
import os
import random
import re
import resource
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = '/repo/src'
VENV = '/opt/venv/lib/python3.12/site-packages'


def setup():
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if VENV not in sys.path:
        sys.path.append(VENV)
    from sx import instr
    instr.install({'autosar': REPO_SRC, 'cfile': VENV, 'harness': VERIF})


_watched = None


def watch_functions(stats, case=''):
    """Record every function of the code under test entered from here on (once each) in stats.functions."""
    global _watched, _case
    _case = case
    mon = sys.monitoring
    roots = [(REPO_SRC + os.sep + 'autosar' + os.sep, REPO_SRC), (VENV + os.sep + 'cfile' + os.sep, VENV)]
    if _watched is None:
        mon.use_tool_id(mon.COVERAGE_ID, 'functions')
        mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, lambda code, _offset: _watched(code))
        events = mon.events.PY_START
        if os.environ.get('VERIF_LINES'):
            # development aid: a file with the lines executed, to see what no check reaches
            events |= mon.events.LINE
            out = open(os.path.join(os.environ['VERIF_LINES'], str(os.getpid())), 'a', buffering=1)

            def line(code, number):
                if code.co_filename.startswith(REPO_SRC):
                    out.write(f'{_case}\t{os.path.relpath(code.co_filename, REPO_SRC)}:{number}\n')
                return mon.DISABLE

            mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, events)

    def record(code):
        name = code.co_qualname
        for root, base in roots:
            if code.co_filename.startswith(root):
                if not name.endswith('>'):
                    rel = os.path.relpath(code.co_filename, base)
                    stats.functions.add((os.path.splitext(rel)[0].replace(os.sep, '.'), name))
                break
        return mon.DISABLE

    _watched = record
    mon.restart_events()


def run_case(case, limits, seed):
    import z3
    from sx import core, ctx as ctxmod, state
    stats = core.Stats()
    watch_functions(stats, case.id)
    stack = [()]
    violations = []
    samples = []
    reached = {}
    counts = {}
    t0 = time.time()
    incomplete = None
    seen_msgs = {}
    rnd = random.Random(seed)
    err = None
    maxs = limits['samples']
    while stack:
        if time.time() - t0 > limits['case_s'] or time.time() > limits['deadline']:
            incomplete = 'time limit'
            break
        if stats.paths >= limits['max_paths']:
            incomplete = 'path limit'
            break
        if len(violations) >= limits['max_violations']:
            incomplete = 'stopped after violations'
            break
        prefix = stack.pop()
        st = core.State(prefix, stats, limits)
        core.set_state(st)
        state.restore()
        c = ctxmod.Ctx(limits)
        stats.paths += 1
        status = 'ok'
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    case.fn(c, **case.params)
                    c.finish()
                except core.Halt:
                    status = 'violation'
                except core.PathInfeasible:
                    status = 'infeasible'
                except core.PathBudget as e:
                    status = 'budget'
                    core.note_partial('path budget: ' + str(e))
                except RecursionError:
                    status = 'budget'
                    core.note_partial('recursion')
                except z3.Z3Exception as e:
                    status = 'budget'
                    core.note_partial('engine: ' + repr(e))
                    err = traceback.format_exc()
                except Exception as e:
                    tb = traceback.format_exc()
                    if '/sx/' in traceback.extract_tb(e.__traceback__)[-1].filename and not isinstance(
                            e, (ValueError, KeyError, IndexError, ZeroDivisionError, ArithmeticError)):
                        # a gap of the engine rather than of the code: let the replay decide
                        err = tb
                    try:
                        c._violate(f'unexpected {type(e).__name__}: {core.norm(str(e))[:200]}', None)
                    except core.Halt:
                        status = 'violation'
                        c.violation['trace'] = tb
                    except core.PathInfeasible:
                        status = 'infeasible'
        finally:
            stack.extend(st.pending)
        if status == 'infeasible':
            stats.infeasible += 1
            core.set_state(None)
            continue
        for r in c.reached:
            reached[r] = reached.get(r, 0) + 1
        for k, v in c.counts.items():
            counts[k] = counts.get(k, 0) + v
        if st.partial:
            stats.partial += 1
            for w in st.partial:
                stats.partial_why[w] = stats.partial_why.get(w, 0) + 1
        else:
            stats.complete += 1
        if status == 'violation':
            key = re.sub(r'[\U000F0000-\U000FFFFD]', '?', c.violation['msg'])[:80], c.violation['known']
            seen_msgs[key] = seen_msgs.get(key, 0) + 1
            if seen_msgs[key] <= limits.get('per_msg', 3):
                v = c.violation
                v['case'] = case.id
                v['msg'] = re.sub(r'[\U000F0000-\U000FFFFD]', '?', v['msg'])
                violations.append(v)
        elif status == 'ok':
            # reservoir sample of path models, replayed on the real code afterwards
            k = stats.complete + stats.partial
            slot = None
            if len(samples) < maxs:
                slot = len(samples)
                samples.append(None)
            else:
                j = rnd.randrange(k)
                if j < maxs:
                    slot = j
            if slot is not None:
                try:
                    m = core.model()
                    samples[slot] = {'inputs': c.inputs(m), 'case': case.id}
                except core.PathInfeasible:
                    samples[slot] = None
        core.set_state(None)
    core.set_state(None)
    return {
        'case': case.id, 'paths': stats.paths, 'complete': stats.complete, 'partial': stats.partial,
        'partial_why': stats.partial_why, 'queries': stats.queries, 'simplified': stats.simplified,
        'solver_s': stats.solver_s, 'checks': stats.checks, 'discharged': stats.discharged,
        'unknown': stats.unknown, 'infeasible': stats.infeasible, 'functions': sorted(stats.functions),
        'violations': violations, 'samples': [s for s in samples if s], 'reached': reached, 'counts': counts,
        'incomplete': incomplete, 'wall': time.time() - t0, 'seen': [(k[0], k[1], n) for k, n in seen_msgs.items()],
        'err': err, 'expect': case.limits.get('reach', ['end']),
        'left': len(stack),
    }


_G = {}


def _worker(i):
    case = _G['cases'][i]
    lim = dict(_G['limits'])
    lim.update({k: v for k, v in case.limits.items() if k != 'reach'})
    try:
        return run_case(case, lim, _G['seed'] * 1000003 + i)
    except BaseException as e:  # pylint: disable=broad-except
        return {'case': case.id, 'crash': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()}


def concrete(jobs, module, prop, tier, timeout=600):
    if not jobs:
        return []
    with tempfile.TemporaryDirectory(prefix='sx_') as d:
        jf, of = os.path.join(d, 'jobs.json'), os.path.join(d, 'out.json')
        with open(jf, 'w', encoding='utf-8') as fh:
            json.dump({'tier': tier, 'jobs': [{'module': module, 'property': prop, 'case': j['case'],
                                              'inputs': j['inputs']} for j in jobs]}, fh)
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['SX_SRC'] = REPO_SRC
        p = subprocess.run(['/opt/venv/bin/python', os.path.join(VERIF, 'sx', 'conc.py'), jf, of], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, check=False)
        if p.returncode != 0 or not os.path.exists(of):
            raise RuntimeError('concrete replay failed: ' + p.stdout.decode('utf-8', 'replace')[-2000:])
        with open(of, encoding='utf-8') as fh:
            return json.load(fh)


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fh:
            for line in fh:
                m = re.match(r'known:\s+id=(\S+)\s+property=(\S+)\s+(.*)', line)
                if m and m.group(2) == prop:
                    out[m.group(1)] = m.group(3).strip()
    return out


LIMITS = {
    'quick': {'case_s': 150, 'max_paths': 60000, 'max_violations': 12, 'samples': 3, 'query_ms': 10000,
              'max_depth': 4000, 'total_s': 660},
    'thorough': {'case_s': 1500, 'max_paths': 2000000, 'max_violations': 12, 'samples': 12, 'query_ms': 60000,
                 'max_depth': 20000, 'total_s': 7200},
}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', help='regex of case ids')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    sys.setrecursionlimit(6000)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    setup()
    prop = a.property
    index = importlib.import_module('harness.index')
    modname = index.MODULES[prop]
    mod = importlib.import_module(modname)
    meta = index.META[prop]
    cases = mod.cases(prop, a.tier)
    ids = [c.id for c in cases]
    assert len(set(ids)) == len(ids), 'duplicate case ids'
    if a.case:
        cases = [c for c in cases if re.search(a.case, c.id)]
    if a.list:
        for c in cases:
            print(c.id)
        return 0
    lim = dict(LIMITS[a.tier])
    lim['deadline'] = t0 + lim.pop('total_s')
    _G.update(cases=cases, limits=lim, seed=seed)
    results = []
    order = sorted(range(len(cases)), key=lambda i: -cases[i].limits.get('weight', 1))
    if a.jobs <= 1 or len(cases) == 1:
        for i in order:
            results.append(_worker(i))
    else:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(min(a.jobs, len(cases))) as pool:
            for r in pool.imap_unordered(_worker, order, chunksize=1):
                results.append(r)
                if a.v:
                    print(f"  {r['case']}: {r.get('paths')} paths {r.get('wall', 0):.1f}s "
                          f"{'CRASH' if 'crash' in r else ''}{r.get('incomplete') or ''}", flush=True)
    crashes = [r for r in results if 'crash' in r]
    results = sorted((r for r in results if 'crash' not in r), key=lambda r: r['case'])

    # replay of counterexamples
    jobs, owner = [], []
    for r in results:
        for v in r['violations']:
            for inp in v['inputs']:
                jobs.append({'case': r['case'], 'inputs': inp})
                owner.append(v)
    vres = concrete(jobs, modname, prop, a.tier)
    for v in [v for r in results for v in r['violations']]:
        v['confirmed'] = None
        v['replays'] = []
    for j, o, v in zip(jobs, vres, owner):
        v['replays'].append(o['status'] + (':' + o.get('msg', '') if o['status'] != 'ok' else ''))
        if v['confirmed'] is None and o['status'] == 'violation':
            v['confirmed'] = (j['inputs'], o)
    # validation of the encoding: sampled path models on the real code
    sjobs = [s for r in results for s in r['samples']]
    sres = concrete(sjobs, modname, prop, a.tier)
    mism = [(j, o) for j, o in zip(sjobs, sres) if o['status'] in ('violation',)]
    serr = [(j, o) for j, o in zip(sjobs, sres) if o['status'] == 'error']

    known = known_findings(prop)
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, fn))
    reported, known_hit, unconfirmed = [], {}, []
    n = 0
    for r in results:
        for v in r['violations']:
            if v['confirmed'] is None:
                unconfirmed.append(v)
                continue
            inp, o = v['confirmed']
            tag = o.get('known') or None
            if tag and tag in known:
                known_hit.setdefault(tag, (r['case'], o.get('msg')))
                continue
            n += 1
            path = os.path.join(rdir, f'{prop}-{n}.json')
            with open(path, 'w', encoding='utf-8') as fh:
                json.dump({'property': prop, 'module': modname, 'tier': a.tier, 'case': r['case'], 'inputs': inp,
                           'message': o.get('msg'), 'symbolic_message': v['msg'], 'trace': o.get('trace')}, fh,
                          indent=1)
            reported.append((path, r['case'], o.get('msg'), v.get('known')))
    for j, o in mism:
        tag = o.get('known')
        if tag and tag in known:
            known_hit.setdefault(tag, (j['case'], o.get('msg')))
            continue
        n += 1
        path = os.path.join(rdir, f'{prop}-{n}.json')
        with open(path, 'w', encoding='utf-8') as fh:
            json.dump({'property': prop, 'module': modname, 'tier': a.tier, 'case': j['case'], 'inputs': j['inputs'],
                       'message': o.get('msg'), 'symbolic_message': '(path model replayed during validation)',
                       'trace': o.get('trace')}, fh, indent=1)
        reported.append((path, j['case'], o.get('msg'), None))

    # reachability witnesses
    vacuous = []
    for r in results:
        if r['violations'] or r['incomplete']:
            continue
        for e in r['expect']:
            if e not in r['reached']:
                vacuous.append((r['case'], e))
    tot = lambda k: sum(r[k] for r in results)
    fns = sorted({tuple(f) for r in results for f in r['functions'] if f[0].startswith(('autosar', 'cfile'))})
    why = {}
    for r in results:
        for k, v in r['partial_why'].items():
            why[k] = why.get(k, 0) + v
    incomplete = [(r['case'], r['incomplete'], r['left']) for r in results if r['incomplete']]
    mem = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    # each sample is one solver model of an explored path, with the verdict of the real code on it
    samples = []
    for j, o in list(zip(sjobs, sres))[:6]:
        samples.append({'case': j['case'], 'inputs': j['inputs'], 'real_code': o['status']})
    counts = {}
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
    ev = {
        'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths') - tot('infeasible'),
            'transitions': tot('queries') + tot('simplified'),
            'traces_validated_against_impl': len([1 for o in sres if o['status'] == 'ok']),
            'samples': samples or ['no completed path'],
            'rule': 'a state is one feasible symbolic path of a harness over the real functions; a transition is one '
                    'solver-decided (or domain-decided) branch',
            'bounds': meta['bounds'],
            'outside_the_bounds': meta.get('outside', ''),
            'cases': len(results),
            'cases_incomplete': incomplete,
            'paths_exact': tot('complete'), 'paths_partial': tot('partial'), 'partial_reasons': why,
            'assertions_checked': tot('checks'), 'assertions_discharged': tot('discharged'),
            'assertions_discharged_by_query': counts.get('solver', 0),
            'assertions_discharged_by_term_identity': counts.get('syntactic', 0),
            'solver_queries': tot('queries'), 'solver_seconds': round(tot('solver_s'), 2),
            'solver_unknown': tot('unknown'),
            'decided_by_character_domain': tot('simplified'),
            'functions_encoded': len(fns),
            'functions': [f'{m}.{q}' for m, q in fns],
            'counterexamples_not_reproduced': [
                {'case': v['case'], 'msg': v['msg'], 'inputs': v['inputs'][:1], 'replays': v['replays'][:3],
                 'partial': v['partial'][:3]} for v in unconfirmed][:20],
            'vacuous_cases': vacuous,
            'engine_errors': [r['err'][-600:] for r in results if r['err']][:5],
            'crashed_cases': [(r['case'], r['crash'], r['trace'][-800:]) for r in crashes],
            'sample_errors': [(j['case'], o.get('msg')) for j, o in serr][:5],
            'peak_rss_mb_main': mem,
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': meta['assumptions'],
        'violations': len(reported),
    }
    ev['coverage']['violation_list'] = [{'replay': p, 'case': c, 'message': m} for p, c, m, _ in reported]
    ev['coverage']['known_findings_hit'] = {k: list(v) for k, v in known_hit.items()}
    if not a.case:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8') as fh:
            json.dump(ev, fh, indent=1)
    cov = ev['coverage']
    print(f"{prop} [{a.tier}] cases={cov['cases']} paths={cov['states']} partial={cov['paths_partial']} "
          f"checks={cov['assertions_checked']} queries={cov['solver_queries']} solver={cov['solver_seconds']}s "
          f"validated={cov['traces_validated_against_impl']} functions={cov['functions_encoded']} "
          f"wall={ev['wall_s']}s")
    if why:
        print('  partial:', dict(sorted(why.items(), key=lambda x: -x[1])[:8]))
    for c, w, left in incomplete:
        print(f'  INCOMPLETE {c}: {w} ({left} prefixes left)')
    for c, e in vacuous:
        print(f'  VACUOUS {c}: label {e} never reached')
    for v in unconfirmed[:10]:
        print(f"  INCONCLUSIVE {v['case']}: {v['msg']} inputs={json.dumps(v['inputs'][:1])[:300]} "
              f"replays={v['replays'][:2]}")
        if a.v and v.get('trace'):
            print(v['trace'][-1500:])
    for r in results:
        if r['err'] and a.v:
            print('  ENGINE', r['case'], r['err'][-1500:])
    for r in crashes:
        print('  CRASH', r['case'], r['crash'], r['trace'][-1500:])
    for j, o in serr[:5]:
        print('  SAMPLE-ERROR', j['case'], o.get('msg'), (o.get('trace') or '')[-800:])
    for tag, what in known.items():
        if tag in known_hit:
            print(f'KNOWN-FINDING: property={prop} {what}')
    for path, case, msg, _ in reported:
        print(f'  case {case}: {msg}')
        print(f'VIOLATION property={prop} replay={path}')
    if reported:
        return 1
    if crashes and not results:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
