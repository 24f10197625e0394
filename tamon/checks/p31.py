"""nothing outlives the caller's references"""
import gc
import tracemalloc
import weakref

from .common import *
from .wrapspec import GROUPS

CASES = dict(quick=4100, thorough=72000)
RULE = ('One evaluation = one indicator (all outputs read), convenience function, wrapper or dropna call after which the caller let go of everything; '
        'weak references tell whether inputs, their memory, the indicator object or the results are still alive, and on every eighth case the allocator '
        'tells whether repeating the call on new data keeps memory. Distinct by (case, call, parameters, fillna); non-trivial when the history has '
        'more than one row.')
STATE = {}
WR = {'volume': 'high low close volume', 'volatility': 'high low close', 'trend': 'high low close', 'momentum': 'high low close volume', 'others': 'close'}


def act(mon, kind, what, mkt, idx, p, fill, name):
    """one use of the library on data of its own; returns weak references to all of it"""
    pd = MODS['pd']
    refs = []

    def watch(label, x):
        refs.append((label, weakref.ref(x)))

    arr = {c: np.array(mkt.c[c], float) for c in gen.COLS}
    for c, a in arr.items():
        watch('the memory of ' + c, a)
    ix = idx()
    watch('the index', ix)
    ser = {c: pd.Series(a, index=ix, name=c, copy=False) for c, a in arr.items()}
    if kind in ('class', 'function'):
        for c, s in ser.items():
            watch('the input ' + c, s)
    if kind == 'class':
        obj = mon.new(what, ser, p, fill)
        watch('the indicator object', obj)
        for o in what.outs:
            for _ in range(2):
                r = mon.get(obj, what, o, p, fill)
                watch('the result ' + o.getter, r)
    elif kind == 'function':
        kw = {k: v for k, v in p.items() if k not in what.drop}
        mon.events['call'] += 1
        try:
            r = getattr(MODS[what.cls.module], what.func)(**{i: ser[i] for i in what.cls.inputs}, **kw, fillna=fill)
        except Exception as e:
            mon.raised(what.func, p, fill, 'function', e)
        watch('the result', r)
    else:
        df = pd.DataFrame(ser)
        watch('the frame', df)
        mon.events['wrapper'] += 1
        try:
            if kind == 'dropna':
                out = MODS['utils'].dropna(df)
            elif what == 'all':
                out = MODS['ta'].add_all_ta_features(df, 'open', 'high', 'low', 'close', 'volume', fillna=fill, vectorized=True)
            else:
                kw = {} if what == 'others' else dict(vectorized=True)
                out = getattr(MODS['ta'], f'add_{what}_ta')(df, *WR[what].split(), fillna=fill, **kw)
        except Exception as e:
            mon.raised(name, p, fill, 'call', e)
        watch('the result', out)
    return refs


def case(index, rng, mon):
    if not STATE:
        gc.collect()
        gc.freeze()
        STATE['on'] = True
    pd = MODS['pd']
    kind = ['class', 'class', 'function', 'class', 'wrapper', 'class', 'function', 'dropna'][index % 8]
    measure = (index // 8) % 8 == 0
    n = int(rng.integers(1500, 2500)) if measure else int(rng.integers(1, 120))
    hist = [gen.market(rng, n, mode='grid') for _ in range(2 if measure else 1)]
    mkt = hist[0]
    mon.cur = None
    fill = bool(rng.random() < .5)
    p = {}
    if kind == 'class':
        what = CLASSES[int(rng.integers(len(CLASSES)))]
        p, name = gen.params(rng, what, min(n, 60)), what.cls
    elif kind == 'function':
        what = [o for c in CLASSES for o in c.outs if o.func][int(rng.integers(80))]
        p, name = gen.params(rng, what.cls, min(n, 60)), what.func
    else:
        what = ['all', *GROUPS][int(rng.integers(1 + len(GROUPS)))]
        name = 'dropna' if kind == 'dropna' else what
    mon.ctx = dict(rows=n, kind=mkt.kind, call=kind, of=name)
    dates = bool(rng.random() < .5)

    def idx():
        return pd.date_range('2020-01-01', periods=n, freq='h') if dates else pd.Index(np.arange(n) * 3)
    refs = act(mon, kind, what, mkt, idx, p, fill, name)
    mon.per[name] += 1
    mon.note((kind, name, pkey(p), fill, measure), n > 1, n, call=kind, of=name, params=p, fillna=fill, watched=len(refs))
    mon.events['watched objects'] += len(refs)
    alive = [k for k, r in refs if r() is not None]
    if alive:
        gc.collect()
        alive = [k for k, r in refs if r() is not None]
    if alive:
        mon.violation(name, f'after the caller let go of everything, {alive[0]} is still alive ({len(alive)} of {len(refs)} watched objects)', params=p, fillna=fill)
        return
    if measure:
        mon.events['memory measurements'] += 1
        slow = name in ('KAMAIndicator', 'kama', 'PSARIndicator', 'ADXIndicator') or name.startswith(('psar', 'adx'))
        k = 4 if slow or kind == 'wrapper' else 8

        def grown(k):
            gc.collect()
            a = tracemalloc.get_traced_memory()[0]
            for j in range(k):
                act(mon, kind, what, hist[j % 2].scaled(1.0 + 2.0 ** -(j + 3), 1.0), idx, p, fill, name)
            gc.collect()
            return tracemalloc.get_traced_memory()[0] - a
        tracemalloc.start()
        try:
            grown(1)
            g = grown(k)
            if g > k * n * 4:                 # half a column per call
                g = min(g, grown(k), grown(k))
        finally:
            tracemalloc.stop()
        if g > k * n * 4:
            mon.violation(name, f'{k} calls on new data of {n} rows keep {g} bytes', params=p, fillna=fill)
