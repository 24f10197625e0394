"""whole-number columns give the same results as the same numbers stored as floats"""
from .common import *

CASES = dict(quick=5200, thorough=120000)
RULE = ('One evaluation = one output computed on the same whole numbers stored as 64-bit floats and as integers of some width (each '
        'column its own type); values must agree and be numbers. Distinct by (case, output, parameters, fillna, column types); '
        'non-trivial when the output holds at least two different defined values.')
KINDS_P = ['i8', 'i4', 'i8', 'f8']
KINDS_V = ['i8', 'i4', 'u8', 'u4', 'f8']


def case(index, rng, mon):
    pd = MODS['pd']
    wrap = index % 15 == 0
    n = gen.length(rng, mon.tier, big=not wrap)
    mkt = gen.market(rng, n, mode='int')
    if rng.random() < .25:            # prices in a very small unit: many digits
        f = 1 + 2 * int(rng.integers(1, 2 ** int(rng.integers(4, 24))))
        if max(m.max() for m in mkt.c.values()) * f < 2 ** 46:
            mkt = mkt.copy()
            for c in ('open', 'high', 'low', 'close'):
                mkt.c[c] = mkt.c[c] * f
            mkt.kind += '/digits'
    mon.cur = mkt
    idx = gen.index(rng, n, str(rng.choice(['range', 'range', 'date', 'str'])))
    kinds = {c: str(rng.choice(KINDS_V if c == 'volume' else KINDS_P)) for c in gen.COLS}
    if rng.random() < .4:
        k = str(rng.choice(KINDS_P[:2]))
        kinds.update({c: k for c in gen.COLS if c != 'volume'})
    mon.ctx = dict(rows=n, kind=mkt.kind, types=kinds)
    A = {c: pd.Series(mkt.c[c], index=idx, name=c) for c in gen.COLS}
    Bd = {c: pd.Series(gen._cast(mkt.c[c], kinds[c], 1.0, c == 'volume'), index=idx, name=c) for c in gen.COLS}
    kt = tuple(sorted((c, str(s.dtype)) for c, s in Bd.items()))
    rel = ref.inputs(mkt)
    if wrap:
        fill = bool(rng.random() < .5)
        from .wrapspec import COLUMNS
        try:
            fr = [MODS['ta'].add_all_ta_features(pd.DataFrame(d), 'open', 'high', 'low', 'close', 'volume', fillna=fill) for d in (A, Bd)]
        except Exception as e:
            mon.violation('add_all_ta_features', f'raised {type(e).__name__}: {str(e)[:200]}', fillna=fill)
            return
        ms = {}
        for name, (cls, p, g) in COLUMNS.items():
            x, y = (np.asarray(f[name], float) for f in fr)
            bad = differ(x, y)
            if len(bad):
                k = (cls, pkey(p))
                ms[k] = ms.get(k) or ref.model(BY[cls], mkt, p, fill)
                bad = excuse(bad, x, y, ms[k][g])
            mon.per['wrapper'] += 1
            mon.note(('wrap', name, fill, kt), nontrivial(x), n)
            if len(bad):
                i = int(bad[0])
                mon.violation('add_all_ta_features:' + name, f'row {i}: {fmt(x[i])} on floats, {fmt(y[i])} on {dict(kt)}', fillna=fill)
        return
    for spec, p, fill in run_all(mon, A, n, rng, 9):
        try:
            a = mon.arrays(spec, A, p, fill)
            b = mon.run(spec, Bd, p, fill)
            for o in spec.outs:
                s = b[o.getter]
                if getattr(s.dtype, 'kind', 'O') not in 'fiu':
                    mon.violation(o.id, f'output has type {s.dtype}', params=p, fillna=fill)
                same(mon, o, a[o.getter], mon.arr(s, n, o.id, p, fill), f'on integer columns {dict(kt)}', p, fill,
                     lambda: ref.model(spec, mkt, p, fill, rel), key=(kt,))
        except Abort:
            continue
