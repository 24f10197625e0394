"""any history length works"""
from .common import *

CASES = dict(quick=2500, thorough=57000)
RULE = ('One evaluation = one output on one history length (short histories, lengths around every window, windows far longer than the '
        'history): no exception, one row per input row, finite with fillna on, and the same values that the longer history gave for '
        'these rows. Distinct by (case, output, parameters, fillna, length); non-trivial when the history is shorter than a window in use.')


def case(index, rng, mon):
    wrap = index % 26 == 0
    n = int(rng.integers(1, 90))
    long = rng.random() < .07 and not wrap
    if long:
        n = int(rng.integers(90, 700 if rng.random() < .9 else 2500))
    mkt = gen.market(rng, n, mode='int' if rng.random() < .5 else None)
    if rng.random() < .1:            # nothing ever moves
        for c in ('open', 'high', 'low'):
            mkt.c[c][:] = mkt.c['close'][0]
        mkt.c['close'][:] = mkt.c['close'][0]
    mon.cur = mkt
    st = gen.style(rng, plain=.6, dtypes=True)
    mon.ctx = dict(rows=n, kind=mkt.kind, style=st)
    data = gen.build(mkt, st, rng)
    if wrap:
        return wrapper(rng, mon, mkt, data)
    rel = ref.inputs(mkt)
    for spec, p, fill in run_all(mon, data, n, rng, 2 if long else 5, drop_ok=True):
        if rng.random() < .4:
            p = spec.defaults()
            p.update({k: False for k in p if k == 'dropnans'})
        drop = p.get('dropnans')
        try:
            full = None if drop else mon.arrays(spec, data, p, fill)
            ws = sorted({int(v) for (k, kind, _), v in ((t, p[t[0]]) for t in spec.params) if kind in ('window', 'smoothing') and v})
            lens = {1, 2, 3, n} | {w + d for w in ws for d in (-1, 0, 1)} | {int(x) for x in rng.integers(1, n + 1, 2)}
            for m in sorted(x for x in lens if 1 <= x <= n):
                part = {c: s.iloc[:m] for c, s in data.items()}
                res = mon.run(spec, part, p, fill)
                for o in spec.outs:
                    s = res[o.getter]
                    mon.per[o.id] += 1
                    mon.note((o.id, pkey(p), fill, m), not ws or m < max(ws), m, output=o.id, params=p, fillna=fill, rows=m)
                    if drop:
                        if len(s) > m:
                            mon.violation(o.id, f'{len(s)} rows for a history of {m}', params=p, fillna=fill)
                        continue
                    a = mon.arr(s, m, o.id, p, fill)
                    if not s.index.equals(part['close'].index):
                        mon.violation(o.id, f'labels changed on a history of {m} rows', params=p, fillna=fill)
                    und = ~np.isfinite(a)
                    if fill and und.any() and not (und.all() and (o.getter in ('psar_up', 'psar_down') or (
                            spec.cls == 'DonchianChannel' and abs(p['offset']) >= m))):
                        mon.violation(o.id, f'row {int(np.nonzero(und)[0][0])} of {m} undefined with fillna=True', params=p, fillna=fill)
                    lo = 0
                    if fill and o.neutral == P:
                        lo = first_defined(ref.R[spec.cls](rel, p, True)[o.getter])
                    if m > lo:
                        bad = differ(full[o.getter][lo:m], a[lo:]) + lo
                        if len(bad):
                            bad = excuse(bad, full[o.getter], a, ref.model(spec, mkt, p, fill, rel)[o.getter])
                        if len(bad):
                            i = int(bad[0])
                            mon.violation(o.id, f'row {i} is {fmt(a[i])} on the first {m} rows and {fmt(full[o.getter][i])} on {n} rows',
                                          params=p, fillna=fill)
        except Abort:
            continue


def wrapper(rng, mon, mkt, data):
    pd = MODS['pd']
    from .wrapspec import COLUMNS
    n = mkt.n
    for m in sorted({1, min(2, n), n} | {int(x) for x in rng.integers(1, n + 1, 3)}):
        fill = bool(rng.random() < .6)
        df = pd.DataFrame({c: s.iloc[:m] for c, s in data.items()})
        mon.events['wrapper'] += 1
        try:
            r = MODS['ta'].add_all_ta_features(df, 'open', 'high', 'low', 'close', 'volume', fillna=fill)
        except Exception as e:
            mon.violation('add_all_ta_features', f'raised {type(e).__name__} on {m} rows: {str(e)[:200]}', fillna=fill)
            return
        mon.per['wrapper'] += 1
        mon.note(('wrap', m, fill), m < 60, m * len(r.columns), wrapper='add_all_ta_features', rows=m, fillna=fill)
        if len(r) != m or not set(COLUMNS) <= set(r.columns):
            mon.violation('add_all_ta_features', f'wrong shape {r.shape} for {m} rows', fillna=fill)
            return
        for c in COLUMNS:
            a = np.asarray(r[c], float)
            und = ~np.isfinite(a)
            if fill and und.any() and not (und.all() and c in ('trend_psar_up', 'trend_psar_down')):
                mon.violation('add_all_ta_features:' + c, f'row {int(np.nonzero(und)[0][0])} of {m} undefined with fillna=True')
                return
