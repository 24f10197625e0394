"""run.py <property> [--tier quick|thorough] [--seed N] [--jobs N] [--cases N]
   run.py --replay out/<file>.json
Exit 0: held on everything observed; 1: violated (with a VIOLATION line); 2: inconclusive."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import zlib  # noqa

import numpy as np  # noqa

from tamon import mon as M  # noqa

SOFT = {'quick': 420, 'thorough': 840}


class CaseTimeout(Exception):
    pass


def _alarm(*a):
    raise CaseTimeout()


def rng_for(pid, seed, tier, index):
    return np.random.default_rng([int(seed) & 0xffffffff, zlib.crc32(pid.encode()), index])


def one(check, mon, index):
    mon.index = index
    mon.ctx = {}
    mon.cur = None
    mon.cases += 1
    rng = rng_for(mon.pid, mon.seed, mon.tier, index)
    signal.alarm(180)
    try:
        check.case(index, rng, mon)
    except M.Abort:
        pass
    finally:
        signal.alarm(0)


def work(k, jobs, pid, seed, tier, total, deadline, q):
    try:
        signal.signal(signal.SIGALRM, _alarm)
        check = importlib.import_module('tamon.checks.' + pid.lower())
        mon = M.Mon(pid, seed, tier)
        M.start_coverage()
        for index in range(k, total, jobs):
            if time.time() > deadline:
                mon.skipped += 1
                continue
            one(check, mon, index)
        q.put((k, dict(events=dict(mon.events), per=dict(mon.per), rows=mon.rows, evals=mon.evals,
                       distinct=mon.distinct, samples=mon.samples, viol=mon.viol, known=dict(mon.known),
                       cases=mon.cases, skipped=mon.skipped, cov={f: sorted(s) for f, s in M.COV.items()}), None))
    except CaseTimeout:
        q.put((k, None, f'case {mon.index} did not finish within 180 s'))
    except BaseException:
        q.put((k, None, f'case {getattr(mon, "index", None) if "mon" in dir() else None}: ' + traceback.format_exc()))


def inconclusive(msg):
    print('INCONCLUSIVE ' + msg)
    sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--selfcheck', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    M.load_known(os.path.join(HERE, 'KNOWN_FINDINGS.txt'))
    try:
        M.load()
    except M.Inconclusive as e:
        inconclusive(str(e))
    if a.selfcheck:
        for f in sorted(os.listdir(os.path.join(HERE, 'tamon', 'checks'))):
            if f[0] == 'p' and f[1:3].isdigit():
                importlib.import_module('tamon.checks.' + f[:-3])
        print('numpy %s pandas %s' % (np.__version__, M.pd.__version__))
        return
    if a.replay:
        r = json.load(open(a.replay))
        check = importlib.import_module('tamon.checks.' + r['property'].lower())
        signal.signal(signal.SIGALRM, _alarm)
        mon = M.Mon(r['property'], r['seed'], r['tier'])
        one(check, mon, r['index'])
        for v in mon.viol:
            print(json.dumps({k: x for k, x in v.items() if k != 'history'}))
        print('replayed: %d violation(s)' % mon.events['violations'])
        sys.exit(1 if mon.viol else 0)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    check = importlib.import_module('tamon.checks.' + a.pid.lower())
    total = a.cases or check.CASES[tier]
    deadline = t0 + SOFT[tier]
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    ps = [ctx.Process(target=work, args=(k, a.jobs, a.pid, a.seed, tier, total, deadline, q), daemon=False)
          for k in range(a.jobs)]
    for p in ps:
        p.start()
    got = {}
    errors = []
    limit = deadline + 60
    while len(got) < len(ps) and time.time() < limit:
        try:
            k, r, err = q.get(timeout=2)
            got[k] = r
            if err:
                errors.append(err)
        except Exception:
            dead = [i for i, p in enumerate(ps) if not p.is_alive() and i not in got]
            if dead:
                time.sleep(1)
                try:
                    while True:
                        k, r, err = q.get(timeout=1)
                        got[k] = r
                        if err:
                            errors.append(err)
                except Exception:
                    pass
                for i in dead:
                    if i not in got:
                        got[i] = None
                        errors.append(f'worker {i} died with exit code {ps[i].exitcode}')
    for i, p in enumerate(ps):
        if i not in got:
            errors.append(f'worker {i} did not finish')
        if p.is_alive():
            p.join(0.2)
            if p.is_alive():
                p.terminate()
    res = [r for r in got.values() if r]
    tot = lambda f: sum(r[f] for r in res)  # noqa
    add = lambda f: {k: sum(r[f].get(k, 0) for r in res) for k in sorted({k for r in res for k in r[f]})}  # noqa
    events, per = add('events'), add('per')
    distinct = len(set().union(*[r['distinct'] for r in res])) if res else 0
    samples = [s for r in res for s in r['samples']][:6]
    known = {}
    for r in res:
        known.update({k: v for k, v in r['known'].items() if k not in known})
    viol = sorted((v for r in res for v in r['viol']), key=lambda v: v['index'])
    cov = {}
    exe = M.executable_lines()
    for r in res:
        for f, ls in r['cov'].items():
            cov.setdefault(f, set()).update(ls)
    reach = {f: f'{len(cov.get(f, set()) & ls)}/{len(ls)} function lines' for f, ls in exe.items() if ls}
    ev = dict(property=a.pid, tier=tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=tot('evals'), distinct_nontrivial=distinct, rule=check.RULE,
                            samples=samples, cases=tot('cases'), cases_skipped=tot('skipped'), rows_judged=tot('rows'),
                            events=events, evaluations_per_topic=per, library_lines_reached=reach),
              assumptions=getattr(check, 'ASSUMPTIONS', []) + [
                  'inputs satisfy low <= open, close <= high, positive prices, volume >= 0, one common index, >= 1 row'],
              wall_s=round(time.time() - t0, 2), violations=events.get('violations', 0))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.no_evidence:
        json.dump(ev, open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w'), indent=1)
    for k, what in M.KNOWN.get(a.pid, {}).items():
        if k in known:
            print(f'KNOWN-FINDING: property={a.pid} {what}')
    print(f"{a.pid} {tier} seed={a.seed}: {tot('cases')} cases, {tot('evals')} evaluations ({distinct} distinct non-trivial), "
          f"{tot('rows')} rows judged, events {events}, {ev['wall_s']} s")
    if viol:
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        path = os.path.join('out', f"{a.pid}_{tier}_{a.seed}_{viol[0]['index']}.json")
        json.dump(viol[0], open(os.path.join(HERE, path), 'w'), indent=1)
        for v in viol[:6]:
            print('  ' + json.dumps({k: x for k, x in v.items() if k not in ('history', 'property', 'seed', 'tier')})[:700])
        print(f'VIOLATION property={a.pid} replay={path}')
        sys.exit(1)
    if errors:
        for e in errors[:3]:
            print(e)
        inconclusive('a worker failed')
    if tot('cases') < 0.25 * min(total, check.CASES['quick']) or tot('evals') == 0 or distinct == 0:
        inconclusive('too little was observed')
    sys.exit(0)


if __name__ == '__main__':
    main()
