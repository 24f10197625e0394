"""feature frames: every promised column, equal to its indicator"""
from .common import *
from .wrapspec import COLUMNS, GROUPS, SLOW

CASES = dict(quick=2400, thorough=42000)
RULE = ('One evaluation = one column of a wrapper result compared with its indicator class run on the same columns (plus the column set, '
        'order, prefix and untouched originals per call). Distinct by (case, wrapper, column, fillna, vectorized); non-trivial when the '
        'column holds at least two different defined values.')
WR = {'volume': ('add_volume_ta', 'high low close volume'), 'volatility': ('add_volatility_ta', 'high low close'),
      'trend': ('add_trend_ta', 'high low close'), 'momentum': ('add_momentum_ta', 'high low close volume'),
      'others': ('add_others_ta', 'close')}


ALSO = ['Adj Close', 'adj_close', 'Adjusted', 'close', 'Close', 'CLOSE', 'open', 'Open', 'high', 'High', 'low', 'Low', 'volume', 'Volume',
        'date', 'Date', 'Timestamp', 'symbol', 'Weighted_Price', 'VWAP', 'typical_price', 'Volume_BTC', 'Volume_(Currency)', 'amount', 'turnover',
        'index', 'level_0', 'c', 'o', 'h', 'l', 'v', 'price', 'adj', 'factor', 'Dividends', 'Stock Splits', 'tr', 'atr', 'rsi']


def case(index, rng, mon):
    pd = MODS['pd']
    mkt, st, data = setup(rng, mon, plain=.4, dtypes=True, big=False, n=None if rng.random() < .97 else int(rng.integers(260, 900)))
    n = mkt.n
    which = ['all', 'volume', 'all', 'volatility', 'trend', 'momentum', 'all', 'others'][index % 8]
    fill, vec = bool(rng.random() < .5), bool(rng.random() < .35)
    prefix = str(rng.choice(['', '', 'x_', 'A', 'volume_', '1 ']))
    cols = {c: c for c in gen.COLS}
    r = rng.random()
    if r < .35:
        cols = {c: c.capitalize() for c in gen.COLS}
    elif r < .6:                       # names that do not tell what they hold
        k = list(rng.permutation(list(gen.COLS)))
        cols = dict(zip(gen.COLS, [str(x) + '_x' for x in k]))
    elif r < .7:                       # one column in several roles
        cols = {c: c for c in gen.COLS}
        cols['open'] = 'close'
        if rng.random() < .5:
            cols['high'] = cols['low'] = 'close'
    elif r < .8:
        cols = dict(zip(gen.COLS, [int(x) for x in rng.permutation(5)]))
    df = pd.DataFrame({cols[c]: np.asarray(data[c]) for c in gen.COLS}, index=data['close'].index)
    if cols['high'] == 'close':
        mkt = mkt.copy()
        mkt.c['high'] = mkt.c['low'] = mkt.c['open'] = mkt.c['close']
        mon.cur = mkt
    df['note'] = 'n'
    df['Extra'] = np.arange(n) * 1.0
    for c in rng.permutation(ALSO)[:int(rng.integers(0, 6))]:      # columns that are not the named ones
        if c not in df:
            df[c] = np.asarray(data['close'], float)[::-1] * float(rng.choice([.5, 1, 3]))
    df = df[[df.columns[i] for i in rng.permutation(len(df.columns))]]
    src = {c: df[cols[c]].copy(deep=True) for c in gen.COLS}
    before = df.copy(deep=True)
    groups = list(GROUPS) if which == 'all' else [which]
    promised = [c for g in groups for c, _ in GROUPS[g] if not (vec and c in SLOW)]
    if which == 'others':
        vec = False
        promised = [c for c, _ in GROUPS['others']]
    kw = dict(fillna=fill, colprefix=prefix)
    if which != 'others':
        kw['vectorized'] = vec
    if rng.random() < .15:
        kw.pop('colprefix')
        prefix = ''
    if not fill and rng.random() < .3:
        kw.pop('fillna')
    if not vec and which != 'others' and rng.random() < .3:
        kw.pop('vectorized')
    if which == 'all':
        fn, names = 'add_all_ta_features', 'open high low close volume'.split()
    else:
        fn, names = WR[which][0], WR[which][1].split()
    mon.ctx.update(wrapper=fn, fillna=fill, vectorized=vec, colprefix=prefix)
    out = call(rng, mon, mkt, df, before, src, fn, cols, names, kw, promised, prefix, fill, vec)
    if out is not None and rng.random() < .25:      # a second set of features on the same frame, under the same or another prefix
        f2 = bool(rng.random() < .5)
        kw['fillna'] = f2
        if rng.random() < .5:
            kw['colprefix'] = prefix = 'z_'
        mon.ctx.update(fillna=f2, colprefix=prefix, again=True)
        if rng.random() < .6:                       # the features in the frame are stale: rows came in, or prices were corrected
            out = out.copy()
            old = [c for c in out.columns if c not in before.columns]
            i = int(rng.integers(0, n))
            for c in old:
                out[c] = out[c].where(np.arange(n) < i)
            size = np.abs([mkt.c[c] for c in ('low', 'high')])
            if len(set(cols.values())) == 5 and 1e-100 < size.min() and size.max() < 1e100 and all(s.dtype == 'float64' for s in src.values()):
                f = float(rng.choice([.5, 2.0, 4.0]))
                new = mkt.copy()
                new.tick = None
                for c in ('open', 'high', 'low', 'close'):
                    new.c[c] = mkt.c[c] * f
                    out[cols[c]] = src[c] = src[c] * f
                mkt = mon.cur = new
        call(rng, mon, mkt, out, out.copy(deep=True), src, fn, cols, names, kw, promised, prefix, f2, vec)


def call(rng, mon, mkt, df, before, src, fn, cols, names, kw, promised, prefix, fill, vec):
    ta, n = MODS['ta'], mkt.n
    mon.events['wrapper'] += 1
    try:
        if rng.random() < .5:
            out = getattr(ta, fn)(df, *[cols[c] for c in names], **kw)
        else:
            out = getattr(ta, fn)(df=df, **{c: cols[c] for c in names}, **kw)
    except Exception as e:
        mon.violation(fn, f'raised {type(e).__name__}: {str(e)[:200]}')
        return
    got = list(out.columns)
    new = [prefix + c for c in promised]
    want = list(before.columns) + [c for c in new if c not in before.columns]
    if sorted(map(str, got)) != sorted(map(str, want)):
        miss, extra = sorted(map(str, set(want) - set(got))), sorted(map(str, set(got) - set(want)))
        mon.violation(fn, f'columns missing: {miss[:6]}, not promised: {extra[:6]}')
        return
    if not out.index.equals(before.index) or len(out) != n:
        mon.violation(fn, 'rows or labels changed')
        return
    for c in before.columns:
        if c not in new and not out[c].equals(before[c]):
            mon.violation(fn, f'original column {c} changed')
            return
    objs = {}
    for c in promised:
        cls, p, g = COLUMNS[c]
        spec = BY[cls]
        k = (cls, pkey(p))
        try:
            if k not in objs:
                objs[k] = mon.new(spec, src, p, fill)
            a = mon.arr(getattr(objs[k], g)(), n, f'{cls}.{g}', p, fill)
        except Abort:
            return
        b = np.asarray(out[prefix + c], float)
        mon.per[c] += 1
        mon.note((fn, c, fill, vec, prefix), nontrivial(a), n, column=c, wrapper=fn, fillna=fill, rows=n)
        bad = differ(a, b, 1e-12)
        if len(bad):
            bad = excuse(bad, a, b, ref.model(spec, mkt, p, fill)[g])
        if len(bad):
            i = int(bad[0])
            mon.violation(f'{fn}:{c}', f'row {i} is {fmt(b[i])}, {cls}.{g} gives {fmt(a[i])}')
    return out
