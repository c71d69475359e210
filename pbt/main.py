"""Runs one property's check:  main.py PID [quick|thorough] [--replay FILE]"""
import importlib
import json
import os
import pickle
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get('PBT_EVIDENCE') or os.path.join(VERIF, 'evidence')
REPO = os.environ.get('PBT_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import engine  # noqa: E402
from engine import Data, Stats, run_once, shrink, case_rng, trim  # noqa: E402


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        return json.load(f)


def run_worker(pid, units, seed, tier, w, nw, budget_s, out, scratch):
    """cases w, w+nw, ... of every unit; stops at this worker's first failure"""
    stats = Stats()
    failure = None
    t0 = time.time()
    done = {}
    ran = []
    for ui, unit in enumerate(units):
        total = unit['n'][tier]
        ustart = time.time()
        # a share of the remaining time; running out only ends the search early
        remaining = budget_s - (ustart - t0)
        share = remaining * unit.get('weight', 1) / float(sum(u.get('weight', 1) for u in units[ui:]))
        i = w
        while i < total:
            if time.time() - ustart > share:
                break
            data = Data(rng=case_rng(seed, pid, unit['name'], i))
            res = run_once(unit['prop'], data)
            stats.add(unit['name'], data, res)
            if isinstance(res, tuple):
                failure = {'unit': unit['name'], 'index': i, 'choices': list(data.choices),
                           'res': res, 'case': trim(data.case, 20000), 'ran': ran + [(unit['name'], i)]}
                break
            ran.append((unit['name'], i))
            i += nw
        done[unit['name']] = i >= total
        if failure:
            break
    tmp = out + '.tmp'
    with open(tmp, 'wb') as f:
        pickle.dump({'stats': stats.dump(), 'failure': failure, 'done': done}, f)
    os.rename(tmp, out)


def in_child(fn):
    """the result of fn in a process of its own, which has run no case before; None if it died"""
    r, w = os.pipe()
    sys.stdout.flush()
    child = os.fork()
    if child == 0:
        code = 3
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            blob = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(blob)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        blob = f.read()
    os.waitpid(child, 0)
    return pickle.loads(blob) if blob else None


def fails(prop, choices):
    def run():
        d = Data(prefix=choices)
        res = run_once(prop, d)
        return (res if isinstance(res, tuple) else None), trim(d.case, 20000)
    return in_child(run) or (None, {})


def history_fails(pid, units, h):
    """does the last of these cases fail after the ones before it, in a process of its own?"""
    byname = dict((u['name'], u) for u in units)

    def run():
        for unit, index in h['cases']:
            data = Data(rng=case_rng(h['seed'], pid, unit, index))
            res = run_once(byname[unit]['prop'], data)
        return (res if isinstance(res, tuple) else None), trim(data.case, 20000)
    return in_child(run) or (None, {})


def shortest_history(pid, units, seed, cases):
    """a case that only fails after others: the fewest of the cases before it that it needs"""
    h = {'seed': seed, 'cases': cases}
    res, case = history_fails(pid, units, h)
    if res is None:
        return None, None, None
    deadline = time.time() + 90
    k = 1
    while k < len(cases):
        t = {'seed': seed, 'cases': cases[-1 - k:]}
        r, c = history_fails(pid, units, t)
        if r is not None:
            h, res, case = t, r, c
            break
        k *= 4
    step = len(h['cases']) // 2
    while step >= 1 and time.time() < deadline:
        i = 0
        while i + step < len(h['cases']) and time.time() < deadline:
            t = {'seed': seed, 'cases': h['cases'][:i] + h['cases'][i + step:]}
            r, c = history_fails(pid, units, t)
            if r is not None:
                h, res, case = t, r, c
            else:
                i += step
        step //= 2
    return h, res, case


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    i = 1
    only = None
    while i < len(args):
        if args[i] == '--replay':
            replay = args[i + 1]
            i += 2
        elif args[i] == '--unit':
            only = args[i + 1]
            i += 2
        else:
            tier = args[i]
            i += 1
    if tier not in ('quick', 'thorough'):
        raise SystemExit(2)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='pbt-%s-' % pid)
    os.environ['PBT_SCRATCH'] = scratch
    os.chdir(scratch)
    try:
        return _main(pid, tier, seed, replay, only, scratch, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def _main(pid, tier, seed, replay, only, scratch, t0):
    import gerber
    assert os.path.realpath(gerber.__file__).startswith(os.path.realpath(REPO) + os.sep), gerber.__file__
    mod = importlib.import_module('checks.' + pid.lower())
    units = mod.UNITS
    byname = dict((u['name'], u) for u in units)
    if only:
        units = [byname[only]]
    known = [k for k in load_known()['findings'] if k['property'] == pid]

    if replay:
        with open(replay) as f:
            r = json.load(f)
        unit = byname[r['unit']]
        if r.get('history'):
            res, case = history_fails(pid, units, r['history'])
        else:
            data = Data(prefix=r['choices'])
            res = run_once(unit['prop'], data)
            case = trim(data.case, 20000)
        print('case: %s' % json.dumps(case, indent=1))
        if isinstance(res, tuple):
            print('%s: %s\n%s' % res)
            print('VIOLATION property=%s replay=%s' % (pid, os.path.abspath(replay)))
            return 1
        print('held' if res is None else res)
        return 0

    # --- recorded findings: each is one specific input, run on its own --------
    for k in known:
        fn = mod.KNOWN[k['id']]
        try:
            what = fn()
        except engine.Violation as e:
            what = str(e)
        except Exception as e:
            what = '%s: %s' % (type(e).__name__, e)
        if what:
            print('KNOWN-FINDING: property=%s %s [%s: %s]' % (pid, k['what'], k['id'], str(what).split('\n')[0][:200]))

    nw = int(os.environ.get('PBT_WORKERS', '8' if tier == 'quick' else '8'))
    budget = float(os.environ.get('PBT_BUDGET', getattr(mod, 'BUDGET', {}).get(tier, 60 if tier == 'quick' else 600)))
    pids = {}
    for w in range(nw):
        out = os.path.join(scratch, 'w%d' % w)
        wd = os.path.join(scratch, 'cwd%d' % w)
        os.mkdir(wd)
        sys.stdout.flush()
        pidw = os.fork()
        if pidw == 0:
            code = 3
            try:
                os.chdir(wd)
                os.environ['PBT_SCRATCH'] = wd
                # the code under test may print; keep the check's output clean
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                run_worker(pid, units, seed, tier, w, nw, budget, out, wd)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids[pidw] = w
    bad = []
    while pids:
        p, st = os.wait()
        if p in pids:
            w = pids.pop(p)
            if st != 0:
                bad.append((w, st))
    if bad:
        sys.stderr.write('worker(s) failed: %r\n' % bad)
        return 2
    stats = Stats()
    failures = []
    complete = {}
    for w in range(nw):
        with open(os.path.join(scratch, 'w%d' % w), 'rb') as f:
            r = pickle.load(f)
        stats.merge(r['stats'])
        for u, d in r['done'].items():
            complete[u] = complete.get(u, True) and d
        if r['failure']:
            failures.append(r['failure'])
    violations = 0
    rc = 0
    if failures:
        names = [u['name'] for u in units]
        failures.sort(key=lambda f: (f['res'][0] == 'timeout', names.index(f['unit']), f['index']))
        f = failures[0]
        prop = byname[f['unit']]['prop']
        best, res, n = f['choices'], f['res'], 0
        if f['res'][0] != 'timeout' and not os.environ.get('PBT_NOSHRINK'):
            best, res, n = in_child(lambda: shrink(prop, f['choices'], f['res'])) or (best, res, n)
        history = None
        again, case = fails(prop, best)
        if again is None and best != f['choices']:
            best, n = f['choices'], 0
            again, case = fails(prop, best)
        res = again or res
        if again is None and f['res'][0] == 'timeout':
            failures = []       # the machine was busy
        elif again is None:
            history, r, c = shortest_history(pid, units, seed, f['ran'])
            if history is None:
                sys.stderr.write('failure did not reproduce: %r\n' % (f['res'],))
                return 2
            best, res, case = f['choices'], r, c
    if failures:
        rdir = os.path.join(EVIDENCE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (pid, f['unit']))
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'unit': f['unit'], 'seed': seed, 'index': f['index'],
                       'choices': best, 'history': history, 'kind': res[0], 'message': res[1], 'traceback': res[2],
                       'case': case, 'shrink_runs': n}, fh, indent=1)
        violations = 1
        print('unit %s, case %d: %s\n%s' % (f['unit'], f['index'], res[1][:3000], res[2][-1500:]))
        if history:
            print('fails only after %d other case(s), see "history" in the replay file' % (len(history['cases']) - 1))
        print('minimal case: %s' % json.dumps(trim(case, 4000), indent=1))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': stats.evaluations,
                       'distinct_nontrivial': len(stats.keys),
                       'rule': mod.RULE,
                       'samples': stats.samples,
                       'per_unit': stats.per_unit,
                       'labels': dict(sorted(stats.labels.items())),
                       'discarded': stats.discards,
                       'choices_drawn': stats.choices,
                       'planned_cases_completed': complete},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 2), 'violations': violations}
    edir = EVIDENCE
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d discarded, %.1f s%s' % (
        pid, tier, seed, stats.evaluations, len(stats.keys), stats.discards, wall,
        '' if all(complete.values()) or rc else ' (time budget ended the search early)'))
    if rc == 0 and len(stats.keys) == 0:
        sys.stderr.write('no non-trivial case was generated\n')
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
