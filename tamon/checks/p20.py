"""results are a function of the inputs alone"""
import decimal
import gc
import importlib
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

from .common import *

CASES = dict(quick=4000, thorough=100000)
RULE = ('One evaluation = one output obtained after a particular history of calls (getters repeated and reordered, other instances in '
        'between, inputs updated in place and recomputed, threads running at the same time, changed numpy / pandas settings) compared '
        'with a fresh isolated computation on the same data. Distinct by (case, scenario, output, parameters, fillna); non-trivial when '
        'the output holds at least two different defined values.')
ASSUMPTIONS = ['threads only read: nobody writes to inputs or results while they run']
SCEN = ['repeat', 'interleave', 'update', 'settings', 'threads', 'reuse', 'twin', 'variants', 'variants', 'shared']


def iso(mon, spec, data, p, fill):
    """every output from its own fresh instance, deep copies of the inputs"""
    out = {}
    n = len(data['close'])
    for o in spec.outs:
        d = {k: s.copy(deep=True) for k, s in data.items()}
        out[o.getter] = mon.arrays(spec, d, p, fill, [o])[o.getter].copy()
    return out


def check(mon, spec, o, want, got, scen, p, fill, mkt):
    mon.per[f'{scen}'] += 1
    mon.note((scen, o.id, pkey(p), fill), nontrivial(want), len(want), scenario=scen, output=o.id, params=p, fillna=fill, rows=len(want))
    bad = differ(want, got, 1e-12)
    if len(bad):          # tolerate rounding only
        bad = excuse(bad, want, got, ref.model(spec, mkt, p, fill)[o.getter])
    if len(bad):
        i = int(bad[0])
        mon.violation(o.id, f'{scen}: row {i} is {fmt(got[i])}, an isolated computation gives {fmt(want[i])}', params=p, fillna=fill,
                      scenario=scen)


def belongs(mon, spec, p, fill, want, mkt):
    x = ref.model(spec, mkt, p, fill)
    for o in spec.outs:
        bad, _ = ref.compare(want[o.getter], x[o.getter])
        if len(bad):
            i = int(bad[0])
            mon.violation(o.id, f'row {i} is {fmt(want[o.getter][i])}, these inputs give {fmt(x[o.getter].v[i])}', params=p, fillna=fill)


def env():
    pd = MODS['pd']
    return {'numpy error state': tuple(sorted(np.geterr().items())), 'numpy print options': repr(np.get_printoptions()),
            'warning filters': tuple(map(repr, warnings.filters)), 'pandas options': repr(pd._config.config._global_config),
            'numpy random state': np.random.get_state()[1].tobytes() + bytes(str(np.random.get_state()[2:]), 'ascii'),
            'random state': hash(random.getstate()), 'environment variables': tuple(sorted(os.environ.items())), 'directory': os.getcwd(),
            'recursion limit': sys.getrecursionlimit(), 'garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_freeze_count(), gc.get_debug()),
            'switch interval': sys.getswitchinterval(), 'log level': logging.root.level, 'log handlers': len(logging.root.handlers),
            'locale': locale.setlocale(locale.LC_ALL), 'decimal context': repr(decimal.getcontext()), 'threads': threading.active_count(),
            'signal handlers': tuple(map(str, map(signal.getsignal, (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)))),
            'module search path': tuple(sys.path), 'trace': (sys.gettrace() is None, sys.getprofile() is None),
            'exception hook': sys.excepthook, 'pandas methods': tuple((k, id(v)) for t in (pd.Series, pd.DataFrame) for k, v in sorted(vars(t).items()) if callable(v))}


def unchanged(mon, e0, where):
    e1 = env()
    for k in e0:
        if e0[k] != e1[k]:
            mon.violation('process state', f'{k} changed {where}: {str(e0[k])[:80]} -> {str(e1[k])[:80]}')
            return
    mon.per['process state'] += 1


def case(index, rng, mon):
    scen = SCEN[index % len(SCEN)]
    mkt, st, data = setup(rng, mon, dtypes=True, big=scen not in ('threads', 'shared'))
    n = mkt.n
    mon.ctx['scenario'] = scen
    e0 = env()
    jobs = list(run_all(mon, data, n, rng, 5))
    try:
        base = [iso(mon, s, data, p, f) for s, p, f in jobs]
        for (s, p, f), want in zip(jobs, base):      # and the reference itself belongs to these inputs
            belongs(mon, s, p, f, want, mkt)
    except Abort:
        return
    unchanged(mon, e0, 'while the indicators were computed')
    try:
        globals()['s_' + scen](rng, mon, mkt, st, data, jobs, base)
        if scen not in ('settings', 'threads', 'shared', 'variants'):
            unchanged(mon, e0, f'({scen})')
    except Abort:
        pass


def s_repeat(rng, mon, mkt, st, data, jobs, base):
    n = mkt.n
    for (spec, p, fill), want in zip(jobs, base):
        obj = mon.new(spec, data, p, fill)
        k = len(spec.outs)
        seq = list(rng.permutation(k)) + list(rng.integers(0, k, k + 2))
        for j in seq:
            o = spec.outs[int(j)]
            r = mon.get(obj, spec, o, p, fill)
            check(mon, spec, o, want[o.getter], mon.arr(r, n, o.id, p, fill).copy(), 'repeat', p, fill, mkt)
            if rng.random() < .4:        # the caller edits the result it was given
                r.iloc[int(rng.integers(0, n)):] = 0
                mon.events['edited result'] += 1


def s_interleave(rng, mon, mkt, st, data, jobs, base):
    n = mkt.n
    live = []
    for (spec, p, fill), want in zip(jobs, base):
        live.append((mon.new(spec, data, p, fill), spec, p, fill, want, mkt))
        # a sibling: same class, other parameters or other data of the same shape
        q = gen.params(rng, spec, n)
        if 'dropnans' in q:
            q['dropnans'] = False
        m2 = gen.market(rng, n)
        d2 = gen.build(m2, st, rng, idx=data['close'].index)
        if rng.random() < .5:
            d2 = data
        else:
            q = p
        f2 = bool(rng.random() < .5)
        live.append((mon.new(spec, d2, q, f2), spec, q, f2, iso(mon, spec, d2, q, f2), mkt if d2 is data else m2))
    todo = [(i, o) for i, e in enumerate(live) for o in e[1].outs]
    for k in rng.permutation(len(todo)):
        i, o = todo[int(k)]
        obj, spec, p, fill, want, m = live[i]
        check(mon, spec, o, want[o.getter], mon.arr(mon.get(obj, spec, o, p, fill), n, o.id, p, fill), 'interleave', p, fill, m)


def s_update(rng, mon, mkt, st, data, jobs, base):
    """the caller updates its columns in place and computes again, through the same Series objects"""
    pd = MODS['pd']
    n = mkt.n
    idx = data['close'].index
    d = {c: pd.Series(np.asarray(s, float).copy(), index=idx, name=c) for c, s in data.items()}
    for (spec, p, fill), _ in zip(jobs, base):
        mon.arrays(spec, d, p, fill)
        m2 = gen.market(rng, n)
        k = int(rng.integers(0, n))
        for c in d:
            v = np.asarray(d[c], float).copy()
            if rng.random() < .5:
                v = m2.c[c]
            else:
                v[k:] = m2.c[c][k:] * (v[k] / m2.c[c][k] if m2.c[c][k] and v[k] else 1.0)
            d[c].iloc[:] = v
        h = np.maximum.reduce([np.asarray(d[c]) for c in ('open', 'high', 'low', 'close')])
        l = np.minimum.reduce([np.asarray(d[c]) for c in ('open', 'high', 'low', 'close')])
        d['high'].iloc[:], d['low'].iloc[:] = h, l
        want = iso(mon, spec, d, p, fill)
        got = mon.arrays(spec, d, p, fill)
        now = gen.Market({c: np.asarray(d[c], float).copy() for c in d}, None, None, 'updated')
        belongs(mon, spec, p, fill, got, now)
        for o in spec.outs:
            check(mon, spec, o, want[o.getter], got[o.getter], 'update', p, fill, now)


def s_reuse(rng, mon, mkt, st, data, jobs, base):
    """short-lived inputs whose memory and identity get reused"""
    n = mkt.n
    idx = data['close'].index
    for (spec, p, fill), want in zip(jobs, base):
        for r in range(3):
            m2 = gen.market(rng, n)
            d2 = gen.build(m2, st, rng, idx=idx)
            mon.arrays(spec, d2, p, fill)
            del d2
            if r == 1:
                gc.collect()
        got = mon.arrays(spec, data, p, fill)
        for o in spec.outs:
            check(mon, spec, o, want[o.getter], got[o.getter], 'reuse', p, fill, mkt)


def s_twin(rng, mon, mkt, st, data, jobs, base):
    """histories that agree except for one corrected bar, one label or one type, computed just before"""
    pd = MODS['pd']
    n = mkt.n
    idx = data['close'].index
    for (spec, p, fill), want in zip(jobs, base):
        for r in range(2):
            m2 = mkt.copy()
            j = int(rng.integers(0, n))
            f = float(rng.choice([1.5, 2.0, 0.5]))
            for c in m2.c:
                m2.c[c][j] *= f
            d2 = gen.build(m2, st, rng, idx=idx if r else gen.index(rng, n, 'range_off'))
            twin = mon.arrays(spec, d2, p, fill)
            belongs(mon, spec, p, fill, twin, m2)
            mon.arrays(spec, data, p, not fill)
        s = mon.run(spec, data, p, fill)
        for o in spec.outs:
            check(mon, spec, o, want[o.getter], mon.arr(s[o.getter], n, o.id, p, fill), 'twin', p, fill, mkt)
            if not s[o.getter].index.equals(idx):
                mon.violation(o.id, 'twin: the result carries the index of another history', params=p, fillna=fill)
    del pd


class Pristine:
    """the library imported again, with the module state of a process that has not used it yet"""

    def __enter__(self):
        self.mods = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'ta' or k.startswith('ta.')}
        self.old = dict(MODS)
        for m in ('momentum', 'trend', 'volatility', 'volume', 'others', 'utils', 'wrapper'):
            MODS[m] = importlib.import_module('ta.' + m)
        MODS['ta'] = sys.modules['ta']

    def __exit__(self, *exc):
        for k in list(sys.modules):
            if k == 'ta' or k.startswith('ta.'):
                del sys.modules[k]
        sys.modules.update(self.mods)
        MODS.update(self.old)


def vary(rng, spec, p, n):
    """p with one parameter changed"""
    q = dict(p)
    for _ in range(6):
        alt = gen.params(rng, spec, n, default_rate=0)
        if 'dropnans' in alt:
            alt['dropnans'] = False
        k = [k for k in q if alt[k] != q[k]]
        if k:
            k = k[rng.integers(len(k))]
            q[k] = alt[k]
            if rng.random() < .5 and type(p[k]) is int and p[k] > 9:        # a neighbouring window
                q[k] = p[k] + int(rng.integers(1, 10)) * (1 if rng.random() < .6 else -1)
                q[k] = max(1, q[k])
            if k in ('step', 'max_step'):
                q['max_step'] = max(q['step'], q['max_step'])
            if q != p:
                break
    return q


def s_variants(rng, mon, mkt, st, data, jobs, base):
    """one class used with neighbouring parameter sets, from pristine module state, then again with the first of them"""
    n = mkt.n
    with Pristine():
        for spec, p, fill in jobs:
            for k in p:
                if type(p[k]) is int and 1 < p[k] < 12 and 'window' in k and rng.random() < .3:
                    p[k] += 10 * int(rng.integers(1, 4))
            q = vary(rng, spec, p, n)
            tries = [(p, fill), (q, fill), (p, not fill), (vary(rng, spec, q, n), fill)]
            first = None
            for k in [0] + list(rng.permutation(4)) + [0]:
                pp, ff = tries[int(k)]
                got = mon.arrays(spec, data, pp, ff)
                belongs(mon, spec, pp, ff, got, mkt)
                if k == 0:
                    first = first or got
                    for o in spec.outs:
                        check(mon, spec, o, first[o.getter], got[o.getter], 'variants', pp, ff, mkt)
    mon.events['pristine imports'] += 1


def s_settings(rng, mon, mkt, st, data, jobs, base):
    pd = MODS['pd']
    n = mkt.n
    which = ['cow', 'warn', 'bottleneck', 'seed', 'chained'][rng.integers(5)]
    old = {}
    opts = {'cow': [('mode.copy_on_write', True)], 'bottleneck': [('compute.use_bottleneck', False), ('compute.use_numexpr', False)],
            'chained': [('mode.chained_assignment', 'raise')]}.get(which, [])
    try:
        for k, v in opts:
            old[k] = pd.get_option(k)
            pd.set_option(k, v)
        if which == 'seed':
            np.random.seed(int(rng.integers(1 << 30)))
        with np.errstate(all='warn'), warnings.catch_warnings():
            if which == 'warn':
                warnings.simplefilter('always')
                warnings.showwarning = lambda *a, **k: None
            for (spec, p, fill), want in zip(jobs, base):
                got = mon.arrays(spec, data, p, fill)
                for o in spec.outs:
                    check(mon, spec, o, want[o.getter], got[o.getter], 'settings', p, fill, mkt)
    finally:
        for k, v in old.items():
            pd.set_option(k, v)


def s_threads(rng, mon, mkt, st, data, jobs, base):
    n = mkt.n
    res, errs = {}, []
    old = sys.getswitchinterval()
    reps = 3
    start = threading.Barrier(len(jobs) * reps)
    plans = {(i, r): list(rng.permutation(len(jobs[i][0].outs))) for i in range(len(jobs)) for r in range(reps)}

    def go(i, r):
        spec, p, fill = jobs[i]
        try:
            start.wait(20)
            kw = {c: data[c] for c in spec.inputs}
            obj = getattr(MODS[spec.module], spec.cls)(**kw, **p, fillna=fill)
            out = {}
            for j in plans[i, r]:
                o = spec.outs[int(j)]
                out[o.getter] = np.asarray(getattr(obj, o.getter)(), float).copy()
            res[i, r] = out
        except Exception as e:
            errs.append((jobs[i], e))
    ts = [threading.Thread(target=go, args=k, daemon=True) for k in plans]
    sys.setswitchinterval(1e-5)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    mon.events['thread'] += len(ts)
    for (spec, p, fill), e in errs:
        mon.violation(spec.cls, f'threads: raised {type(e).__name__}: {str(e)[:200]}', params=p, fillna=fill)
    for (i, r), out in res.items():
        spec, p, fill = jobs[i]
        for o in spec.outs:
            a = out[o.getter]
            if len(a) != n:
                mon.violation(o.id, f'threads: {len(a)} rows for a history of {n}', params=p, fillna=fill)
                continue
            check(mon, spec, o, base[i][o.getter], a, 'threads', p, fill, mkt)


def s_shared(rng, mon, mkt, st, data, jobs, base):
    """several threads read the outputs of the same indicator objects"""
    n = mkt.n
    res, errs = [], []
    objs = [mon.new(spec, data, p, fill) for spec, p, fill in jobs]
    k = 4
    start = threading.Barrier(k)
    reads = [(i, o) for i, (spec, _, _) in enumerate(jobs) for o in spec.outs]
    same_order = rng.random() < .5
    orders = [rng.permutation(len(reads)) for _ in range(k)]

    def go(r):
        i = o = None
        try:
            start.wait(20)
            for j in orders[0 if same_order else r]:
                i, o = reads[int(j)]
                res.append((i, o, np.asarray(getattr(objs[i], o.getter)(), float).copy()))
        except Exception as e:
            errs.append((i, o, e))
    ts = [threading.Thread(target=go, args=(r,), daemon=True) for r in range(k)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if rng.random() < .5 else 1e-4)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    mon.events['thread'] += k
    for i, o, e in errs:
        if o is not None:
            mon.violation(o.id, f'read by several threads: raised {type(e).__name__}: {str(e)[:200]}', params=jobs[i][1], fillna=jobs[i][2])
    for i, o, a in res:
        spec, p, fill = jobs[i]
        if len(a) != n:
            mon.violation(o.id, f'read by several threads: {len(a)} rows for a history of {n}', params=p, fillna=fill)
            continue
        check(mon, spec, o, base[i][o.getter], a, 'shared', p, fill, mkt)
