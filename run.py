#!/usr/bin/env python
"""Decides one property on /repo's current working tree.

    run.py check <id>            the registered check (tier from VERIF_TIER, seed from VERIF_SEED)
    run.py replay <file>         re-executes a recorded violation on the real code
    run.py concrete              (internal) runs units concretely on the un-instrumented code; JSON on stdin/stdout
    run.py bounded <id> ...      (internal) one shard of a bounded stand-in
"""
import importlib
import json
import os
import random
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ION_REPO', '/repo')
PY = os.environ.get('ION_PYTHON', '/opt/venv/bin/python')
sys.path.insert(0, HERE)
sys.path.insert(1, REPO)
sys.dont_write_bytecode = True
if REPO != '/repo':
    # the virtual environment pins the namespace package amazon to /repo
    import amazon
    amazon.__path__ = [os.path.join(REPO, 'amazon')]
sys.setrecursionlimit(3000)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def load_units(pid):
    path = os.path.join(HERE, 'units', pid.lower() + '.py')
    if not os.path.exists(path):
        return []
    return importlib.import_module('units.' + pid.lower()).UNITS


def load_bounded(pid):
    path = os.path.join(HERE, 'bounded', pid.lower() + '.py')
    if not os.path.exists(path):
        return None
    return importlib.import_module('bounded.' + pid.lower())


# -- deductive part -------------------------------------------------------------------------------------------------

def prove_unit(u):
    from pyvc import engine, solver
    solver.STATS.__init__()
    t0 = time.time()
    try:
        cs, ls, missing = u.tables()
        for p in u.of:
            from pyvc.contract import resolve
            resolve(p)
        r = engine.explore(u.name, u.fn, cs, ls, u.seconds, may_raise=u.may_raise)
    except (LookupError, ImportError) as e:
        return {'unit': u.name, 'status': 'undecided', 'reasons': ['contract does not attach: %s' % e], 'models': [],
                'obligations': 0, 'discharged': 0, 'by': {}, 'paths': 0, 'time': 0, 'solver': 0, 'functions': [],
                'assumed': [], 'of': u.of, 'covers': {}, 'failed': []}
    by = {}
    failed, reasons, models = [], list(r.unsupported), []
    n = d = 0
    for name, o in r.obs.items():
        k = o.discharged + len(o.failed) + len(o.undecided)
        n += k
        d += o.discharged
        for b, v in o.by.items():
            by[b] = by.get(b, 0) + v
        for path, m in o.failed:
            failed.append({'obligation': name, 'kind': o.kind, 'path': path[:300], 'model': m})
            if m is not None:
                models.append(m)
        for x in o.undecided:
            reasons.append('%s: %s' % (name, x))
    return {'unit': u.name, 'status': r.status(), 'reasons': reasons[:20] + ['no target for contract: ' + m for m in missing],
            'models': models[:12], 'obligations': n, 'discharged': d, 'by': by, 'paths': r.paths, 'cut': r.cut,
            'time': round(time.time() - t0, 2), 'solver': round(solver.STATS.time, 2), 'queries': solver.STATS.queries,
            'functions': sorted(r.functions), 'assumed': sorted(r.assumed), 'of': u.of, 'covers': r.covers,
            'failed': failed[:12], 'named': sorted(r.obs), 'tainted': r.tainted}


def prove_worker(pid, index):
    from pyvc import instrument
    instrument.install()
    units = load_units(pid)
    sys.stdout.write(json.dumps(prove_unit(units[index])))
    return 0


def prove_server(pid):
    """Reads unit indices from stdin, one per line; answers one JSON line each."""
    from pyvc import instrument
    instrument.install()
    units = load_units(pid)
    real = sys.stdout
    sys.stdout = sys.stderr
    while True:
        line = sys.stdin.readline()
        if not line.strip():
            return 0
        i = int(line)
        real.write(json.dumps(prove_unit(units[i])) + '\n')
        real.flush()


def env():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONPATH'] = REPO
    e['PYTHONHASHSEED'] = '0'
    return e


def run_servers(pid, n, deadline):
    """Distributes the units over worker processes."""
    import threading
    todo = list(range(n))
    order = list(range(n))
    results = [None] * n
    lock = threading.Lock()
    procs = []

    def work():
        p = subprocess.Popen([PY, os.path.join(HERE, 'run.py'), 'prove-server', pid], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env())
        procs.append(p)
        while True:
            with lock:
                if not todo:
                    break
                i = todo.pop(0)
            try:
                p.stdin.write(b'%d\n' % i)
                p.stdin.flush()
                line = p.stdout.readline()
                results[i] = json.loads(line.decode())
            except Exception:
                return
        try:
            p.stdin.close()
            p.wait()
        except Exception:
            pass

    ths = [threading.Thread(target=work) for _ in range(min(JOBS, n))]
    for t in ths:
        t.daemon = True
        t.start()
    for t in ths:
        t.join(max(1, deadline - time.time()))
    for p in procs:
        try:
            p.kill()
        except Exception:
            pass
    return results


# -- concrete part --------------------------------------------------------------------------------------------------

def concrete_main():
    """Replays models and samples inputs for units, on the real code."""
    req = json.load(sys.stdin)
    from pyvc.conc import run_concrete
    units = dict((u.name, u) for u in load_units(req['property']))
    out = {}
    t0 = time.time()
    for name, models in req['units'].items():
        u = units[name]
        rng = random.Random('%s/%s' % (req['seed'], name))
        res = {'replayed': 0, 'sampled': 0, 'skipped': 0, 'failures': []}
        for m in models:
            r = guarded(run_concrete, u, m, None)
            if r is None:
                res['skipped'] += 1
                continue
            res['replayed'] += 1
            if r[0]:
                res['failures'].append({'unit': name, 'inputs': enc(r[1]), 'failed': r[0], 'from': 'solver model'})
        if u.replay:
            for i in range(req['samples'] if not models else max(req['samples'], u.samples)):
                r = guarded(run_concrete, u, None, rng)
                if r is None:
                    res['skipped'] += 1
                    continue
                res['sampled'] += 1
                if r[0]:
                    res['failures'].append({'unit': name, 'inputs': enc(r[1]), 'failed': r[0], 'from': 'sampling'})
                if len(res['failures']) > 5 or any('does not end' in x for x in r[0]) or time.time() - t0 > req.get('seconds', 60):
                    break
        out[name] = res
    json.dump(out, sys.stdout)
    return 0


def guarded(run, u, m, rng):
    try:
        return run(u.fn, m, rng, u.may_raise)
    except LookupError:
        return None


def enc(inputs):
    return dict((k, ['bytes', list(bytearray(v))] if isinstance(v, bytes) else
                 (v if isinstance(v, (int, str, list, bool, type(None))) else repr(v))) for k, v in inputs.items())


def call_concrete(pid, seed, units, samples, seconds=60):
    req = {'property': pid, 'seed': seed, 'units': units, 'samples': samples, 'seconds': seconds}
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'run.py'), 'concrete'], input=json.dumps(req).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=seconds + 60)
        return json.loads(p.stdout.decode()), None
    except subprocess.TimeoutExpired:
        return {}, 'concrete execution timed out'
    except ValueError:
        return {}, p.stderr.decode()[-800:]


# -- bounded stand-in -----------------------------------------------------------------------------------------------

def bounded_main(pid, shard, shards, seed, tier, seconds):
    mod = load_bounded(pid)
    from bounded.base import Run
    r = Run(pid, int(seed), int(shard), int(shards), tier, float(seconds))
    from pyvc import watchdog
    try:
        r.wind()
        mod.run(r)
    except r.Stop:
        pass
    except watchdog.Hang as e:
        try:
            r.fail('hang', '%s of CPU time and no answer: %s' % ('40 s', e), **interrupted(e))
        except r.Stop:
            pass
    except RecursionError as e:
        r.note('recursion limit: %s' % e)
    except Exception as e:
        import traceback
        if raised_by_the_code(e):
            try:
                r.fail('exception', 'the code raises: %s' % traceback.format_exc()[-900:], **interrupted(e))
            except r.Stop:
                pass
        else:
            r.crash = traceback.format_exc()[-1500:]
    watchdog.stop()
    json.dump(r.result(), sys.stdout)
    return 0


def raised_by_the_code(e):
    """Whether an exception that a bounded check did not expect comes from the code under test, not from the check."""
    import amazon
    roots, tb, last = [os.path.abspath(x) + os.sep for x in amazon.__path__], e.__traceback__, None
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(os.path.join(HERE, 'bounded') + os.sep):
            last = False
        elif any(f.startswith(x) for x in roots):
            last = True
        tb = tb.tb_next
    return bool(last)


def interrupted(e):
    """Local variables of the bounded check that was interrupted: its inputs."""
    tb, out = e.__traceback__, {}
    while tb is not None:
        if '/bounded/' in tb.tb_frame.f_code.co_filename:
            out = dict((k, v) for k, v in tb.tb_frame.f_locals.items() if isinstance(v, (bytes, str, int, list, tuple)))
        tb = tb.tb_next
    return out


def run_bounded(pid, seed, tier, seconds, shards):
    ps = []
    for i in range(shards):
        ps.append(subprocess.Popen([PY, os.path.join(HERE, 'run.py'), 'bounded', pid, str(i), str(shards), str(seed),
                                    tier, str(seconds)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env()))
    outs = []
    for p in ps:
        try:
            o, e = p.communicate(timeout=seconds + 120)
            outs.append(json.loads(o.decode()))
        except subprocess.TimeoutExpired:
            p.kill()
            outs.append({'crash': 'shard timed out', 'timeout': True})
        except ValueError:
            outs.append({'crash': 'shard died: ' + e.decode()[-600:]})
    return outs


# -- known findings -------------------------------------------------------------------------------------------------

def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                out.append((key, text))
    return out


# -- the check ------------------------------------------------------------------------------------------------------

def check(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    budget = 780 if thorough else 420
    deadline = t0 + budget
    man = manifest_entry(pid)
    # count the units without importing the instrumented code here
    units = []
    load_error = None
    p = subprocess.run([PY, os.path.join(HERE, 'run.py'), 'list', pid], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env())
    try:
        units = json.loads(p.stdout.decode())
    except ValueError:
        load_error = p.stderr.decode()[-1500:]

    import threading
    box = {}
    has_bounded = os.path.exists(os.path.join(HERE, 'bounded', pid.lower() + '.py'))
    bsec = 240 if thorough else 45
    results = run_servers(pid, len(units), deadline) if units else []
    for i, r in enumerate(results):
        if r is None:
            results[i] = {'unit': units[i]['name'], 'status': 'undecided', 'reasons': ['no answer in time'],
                          'models': [], 'obligations': 0, 'discharged': 0, 'by': {}, 'paths': 0, 'time': 0,
                          'solver': 0, 'functions': [], 'assumed': [], 'of': units[i]['of'], 'covers': {},
                          'failed': []}
    shards = run_bounded(pid, seed, tier, bsec, JOBS) if has_bounded else []

    # replay solver models on the real code, and cross-check every unit on sampled inputs
    conc, conc_err = ({}, None)
    if units:
        conc, conc_err = call_concrete(pid, seed, dict((r['unit'], r['models']) for r in results),
                                       400 if thorough else 60, 200 if thorough else 60)

    violations = []
    for name, res in conc.items():
        for f in res['failures'][:3]:
            violations.append({'kind': 'unit', 'property': pid, 'detail': f, 'replayed': True,
                               'key': '%s' % name,
                               'what': 'unit %s: %s' % (name, '; '.join(f['failed'])[:300])})
    for s in shards:
        for f in s.get('failures', []):
            violations.append({'kind': 'bounded', 'property': pid, 'detail': f, 'replayed': True,
                               'key': f.get('key') or f.get('case'), 'what': '%s: %s' % (f.get('case'), f.get('what'))})
    confirmed_units = set(v['detail']['unit'] for v in violations if v['kind'] == 'unit')
    if not violations:
        for r in results:
            if r['status'] == 'failed':
                violations.append({
                    'kind': 'obligation', 'property': pid, 'replayed': False, 'key': r['unit'],
                    'detail': {'unit': r['unit'], 'failed': r['failed']},
                    'what': 'refuted obligation in %s: %s' % (r['unit'], r['failed'][0]['obligation'])})

    known = known_findings(pid)
    listed, fresh = [], []
    for v in violations:
        hit = [k for k in known if k[0] == v['key']]
        (listed if hit else fresh).append(v)

    crashed = [s['crash'] for s in shards if s.get('crash')]
    ev = evidence(pid, tier, seed, man, units, results, conc, shards, fresh, t0, load_error, conc_err, crashed)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')

    for key, text in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    print('%s: %d units, %d/%d obligations discharged, bounded evaluations %d, %.0f s' % (
        pid, len(results), sum(r['discharged'] for r in results), sum(r['obligations'] for r in results),
        sum(s.get('evaluations', 0) for s in shards), time.time() - t0))
    for r in results:
        if r['status'] != 'proved':
            print('  %s %s: %s' % (r['status'], r['unit'], '; '.join(
                [x['obligation'] for x in r['failed'][:2]] + r['reasons'][:2])[:300]))
    if fresh:
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        best = sorted(fresh, key=lambda v: not v['replayed'])
        path = os.path.join(rd, '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'violations': best[:10], 'solver_output': [
                r for r in results if r['status'] != 'proved'][:5]}, f, indent=1)
            f.write('\n')
        for v in best[:5]:
            print('  ' + v['what'][:400])
        tail = '' if best[0]['replayed'] else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(path, HERE), tail))
        return 1
    if load_error or conc_err or (crashed and not any(s.get('evaluations') for s in shards)):
        sys.stderr.write('check error: %s\n' % (load_error or conc_err or crashed[0]))
        return 3
    if not results and not shards:
        sys.stderr.write('nothing was checked\n')
        return 3
    if crashed:
        sys.stderr.write('bounded stand-in crashed: %s\n' % crashed[0])
        return 3
    return 0


def manifest_entry(pid):
    m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    for c in m['checks']:
        if c['property'] == pid:
            return c
    return {'level': 'other'}


def evidence(pid, tier, seed, man, units, results, conc, shards, fresh, t0, load_error, conc_err, crashed):
    by = {}
    for r in results:
        for b, v in r['by'].items():
            by[b] = by.get(b, 0) + v
    proved = [r for r in results if r['status'] == 'proved']
    under = sorted(set(f for r in proved for f in r['of']))
    notyet = sorted(set(f for r in results if r['status'] != 'proved' for f in r['of']) - set(under))
    assumed = sorted(set(f for r in results for f in r['assumed']))
    trusted = []
    mod_assumptions = []
    if units and units[0].get('assumptions'):
        mod_assumptions = units[0]['assumptions']
    ev = sum(s.get('evaluations', 0) for s in shards)
    dn = sum(s.get('distinct', 0) for s in shards)
    cov = {
        'obligations': sum(r['obligations'] for r in results),
        'discharged': sum(r['discharged'] for r in results),
        'checker_cmd': 'python run.py check %s (z3-new incremental; z3, cvc5 and z3-new one-shot on unknown)' % pid,
        'trusted_base': [
            'PyPy 7.3.15 executing the rewritten source of /repo (pyvc/instrument.py: calls, subscripts, loops and '
            'membership tests are redirected, nothing is dropped)',
            'models of built-in functions and types in pyvc/rt.py and pyvc/proxies.py',
            'z3 5.3.2, z3 4.8.12, cvc5 1.1.2'] + ['contract assumed at call sites: ' + a for a in assumed],
        'functions_under_contract': under,
        'functions_not_discharged': notyet,
        'functions_executed_symbolically': sorted(set(f for r in results for f in r['functions'])),
        'units': [dict((k, r.get(k)) for k in ('unit', 'status', 'obligations', 'discharged', 'paths', 'cut', 'time',
                                               'solver', 'queries', 'by', 'assumed', 'of', 'named', 'covers'))
                  for r in results],
        'undischarged': [{'unit': r['unit'], 'status': r['status'], 'reasons': r['reasons'][:4],
                          'failed': [f['obligation'] for f in r['failed']]} for r in results if r['status'] != 'proved'],
        'discharged_by': by,
        'solver_seconds': round(sum(r['solver'] for r in results), 2),
        'concrete_crosscheck': dict((n, {'replayed': c['replayed'], 'sampled': c['sampled'], 'skipped': c['skipped'],
                                         'failures': len(c['failures'])}) for n, c in conc.items()),
        'bounded_standin': {
            'label': 'bounded: not counted as proved',
            'bound': next((s.get('bound') for s in shards if s.get('bound')), None),
            'evaluations': ev, 'distinct_nontrivial': dn,
            'cases': merge_counts(shards),
        },
        'evaluations': ev + sum(c['sampled'] + c['replayed'] for c in conc.values()),
        'distinct_nontrivial': dn,
        'rule': next((s.get('rule') for s in shards if s.get('rule')), 'deductive units only'),
        'samples': [x for s in shards[:2] for x in s.get('samples', [])][:8] or
                   [{'unit': r['unit'], 'obligations': r.get('named', [])[:4]} for r in results[:3]],
        'explanation': man.get('level_note', ''),
    }
    notes = [n for s in shards for n in s.get('notes', [])]
    return {
        'property': pid, 'tier': tier, 'seed': seed, 'level': man['level'], 'coverage': cov,
        'assumptions': mod_assumptions + ['integers are mathematical, as in Python'] +
        (['check error: %s' % x for x in [load_error, conc_err] + crashed if x]) + sorted(set(notes))[:10],
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }


def merge_counts(shards):
    out = {}
    for s in shards:
        for k, v in s.get('cases', {}).items():
            out[k] = out.get(k, 0) + v
    return out


def list_units(pid):
    us = load_units(pid)
    mod = sys.modules.get('units.' + pid.lower())
    json.dump([{'name': u.name, 'of': u.of, 'assumptions': getattr(mod, 'ASSUMPTIONS', [])} for u in us], sys.stdout)
    return 0


def selftest():
    """Setup: the interpreter, the solvers and the package under test are present."""
    for c in (['z3-new', '--version'], ['z3', '--version'], ['cvc5', '--version']):
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        print(p.stdout.decode().splitlines()[0])
    print(sys.version.replace('\n', ' '))
    import amazon.ion.simpleion
    print(amazon.ion.simpleion.__file__)
    return 0


def replay(path):
    data = json.load(open(path))
    bad = 0
    for v in data['violations']:
        if v['kind'] == 'unit':
            d = v['detail']
            out, err = call_concrete(data['property'], 0, {d['unit']: [d['inputs']]}, 0)
            print(json.dumps(out.get(d['unit'], err), indent=1))
            bad += bool(out.get(d['unit'], {}).get('failures'))
        elif v['kind'] == 'bounded':
            d = v['detail']
            p = subprocess.run([PY, os.path.join(HERE, 'run.py'), 'bounded', data['property'], str(d['shard']),
                                str(d['shards']), str(d['seed']), d['tier'], '600'], stdout=subprocess.PIPE, env=env())
            fs = json.loads(p.stdout.decode()).get('failures', [])
            for f in fs:
                print(json.dumps(f, indent=1))
            bad += bool(fs)
        else:
            print(json.dumps(v, indent=1))
    return 1 if bad else 0


def main(argv):
    cmd = argv[1]
    if cmd == 'check':
        return check(argv[2])
    if cmd == 'prove':
        return prove_worker(argv[2], int(argv[3]))
    if cmd == 'prove-server':
        return prove_server(argv[2])
    if cmd == 'concrete':
        return concrete_main()
    if cmd == 'bounded':
        return bounded_main(*argv[2:8])
    if cmd == 'list':
        return list_units(argv[2])
    if cmd == 'selftest':
        return selftest()
    if cmd == 'replay':
        return replay(argv[2])
    raise SystemExit(__doc__)


if __name__ == '__main__':
    sys.exit(main(sys.argv))
