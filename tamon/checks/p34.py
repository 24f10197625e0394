"""starting later: smoothed lines converge, cumulative lines keep a constant distance"""
from .common import *

CASES = dict(quick=18000, thorough=270000)
RULE = ('One evaluation = one recursive or cumulative output on a history and on the same history started later. Smoothed lines must meet at the rate of '
        'their smoothing, cumulative lines must keep a constant distance (constant ratio for the indices), EMA must differ by exactly the decayed seed. Distinct by '
        '(case, output, parameters, cut); non-trivial when the compared rows hold at least two different defined values.')
SMOOTH = [BY[c] for c in ('RSIIndicator TSIIndicator KAMAIndicator StochRSIIndicator PercentagePriceOscillator PercentageVolumeOscillator EMAIndicator MACD TRIXIndicator '
                          'MassIndex ADXIndicator STCIndicator AverageTrueRange KeltnerChannel ForceIndexIndicator').split()]
CUM = [BY[c] for c in 'AccDistIndexIndicator OnBalanceVolumeIndicator VolumePriceTrendIndicator NegativeVolumeIndexIndicator CumulativeReturnIndicator'.split()]


def settle(spec, p):
    """rows after which the start is forgotten to about 1e-17"""
    w = lambda *k: sum(int(p[i]) for i in k)  # noqa
    c = spec.cls
    if c == 'KAMAIndicator':
        s = (2.0 / (max(int(p['pow2']), int(p['pow1'])) + 1)) ** 2
        return int(p['window']) + int(42 / -np.log1p(-min(s, .999999)))
    if c in ('RSIIndicator', 'ADXIndicator', 'AverageTrueRange'):
        return 95 * w('window') if c == 'ADXIndicator' else 45 * w('window')
    if c == 'StochRSIIndicator':
        return 45 * w('window') + w('window', 'smooth1', 'smooth2')
    if c == 'KeltnerChannel':
        return 45 * w('window') + 45 * w('window_atr')
    if c == 'STCIndicator':
        return 24 * w('window_slow', 'window_fast') + 2 * w('cycle') + 24 * w('smooth1', 'smooth2')
    if c == 'TRIXIndicator':
        return 80 * w('window')
    return 24 * sum(int(p[k]) for k, kind, _ in spec.params if kind == 'window') + 60


def lively(rng, n, level):
    """a history in which every bar moves"""
    step = rng.integers(1, 9, n) * rng.choice([-1, 1], n)
    c = np.cumsum(step)
    c = c - c.min() + level
    o = c + rng.integers(-3, 4, n)
    return dict(open=o * 1.0, close=c * 1.0, high=np.maximum(o, c) + rng.integers(1, 6, n) * 1.0, low=np.minimum(o, c) - rng.integers(1, 6, n) * 1.0,
                volume=rng.integers(1, 3000, n) * 1.0)


def case(index, rng, mon):
    if index % 3 == 0:
        return cumulative(rng, mon)
    if index % 3 == 1 and rng.random() < .4:
        return decay(rng, mon)
    spec = SMOOTH[int(rng.integers(len(SMOOTH)))]
    p = gen.params(rng, spec, 40)
    for k, kind, _ in spec.params:
        if kind == 'window':
            p[k] = int(rng.integers(1, 7 if mon.tier == 'quick' else 14))
    if 'pow1' in p:
        p['pow1'], p['pow2'] = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    if spec.cls == 'KeltnerChannel':
        p['original_version'] = False
    k = settle(spec, p)
    old = int(rng.integers(1, 200))
    n = old + k + int(rng.integers(5, 60))
    late = lively(rng, n - old, int(rng.integers(30, 4000)))
    mkt = gen.market(rng, old, mode='int')            # the past: anything, at most about 2^20 times as large
    f = 2.0 ** np.round(np.log2(np.median(late['close']) / np.median(mkt.c['close'])) + int(rng.integers(-6, 7)))
    cols = {c: np.concatenate([mkt.c[c] * (f if c != 'volume' else 1.0), late[c]]) for c in late}
    full = gen.Market(cols, None, None, mkt.kind + '+lively')
    mon.cur = full
    st = {**gen.style(rng, plain=.7), 'pdt': 'f8', 'vdt': 'f8'}
    fill = bool(rng.random() < .5)
    mon.ctx = dict(rows=n, kind=full.kind, dropped=old)
    data = gen.build(full, st, rng)
    d2 = {c: s.iloc[old:] for c, s in data.items()}
    size = max(1.0, max(np.abs(cols[c]).max() for c in ('high', 'close')))
    try:
        a = mon.arrays(spec, data, p, fill)
        b = mon.arrays(spec, d2, p, fill)
    except Abort:
        return
    for o in spec.outs:
        x, y = a[o.getter][old + k:], b[o.getter][k:]
        m = None
        bad = differ(x, y, 1e-9)
        if len(bad):
            m = m or (ref.model(spec, full, p, fill)[o.getter].e[old + k:] + ref.model(spec, full.sub(old, n), p, fill)[o.getter].e[k:])
            bad = excuse(bad, x, y, ref.E(x, np.nan_to_num(m, nan=np.inf)), 600.0)
            vol = 1.0 if spec.cls != 'ForceIndexIndicator' else cols['volume'].max()
            scale = size * vol if spec.cls in ('ForceIndexIndicator', 'EMAIndicator', 'MACD', 'KeltnerChannel', 'AverageTrueRange', 'KAMAIndicator') else 100.0
            bad = np.array([i for i in bad if not abs(x[i] - y[i]) <= 1e-11 * scale], int)
        mon.per[o.id] += 1
        mon.note((o.id, pkey(p), old, fill), nontrivial(x), len(x), output=o.id, params=p, fillna=fill, rows=n, dropped=old)
        if len(bad):
            i = int(bad[0])
            mon.violation(o.id, f'row {old + k + i} is {fmt(x[i])}, with the first {old} of {n} rows left out it is {fmt(y[i])}; {k + i} rows later the start must be forgotten',
                          params=p, fillna=fill)
    if spec.cls == 'EMAIndicator':
        seed(mon, spec, full, data, d2, old, n, rng)


def fade(rows, q, start, D, source=0.0):
    """bound on the difference of one EMA stage fed with a difference of at most `source`, both inside a band of width D when it starts"""
    out, d = np.full(rows, float(D)), float(D)
    source = np.broadcast_to(source, rows)
    for i in range(start + 1, rows):
        d = min(q * d + (1 - q) * source[i], float(D))
        out[i] = d
    return out


def decay(rng, mon):
    """chains of EMAs: at every row the two starts differ by no more than what is left of the band of the prices"""
    n = int(rng.integers(40, 400))
    old = int(rng.integers(1, max(n // 2, 2)))
    full = gen.Market(lively(rng, n, int(rng.integers(200, 4000))), None, None, 'lively')
    mon.cur = full
    name = ['TRIXIndicator', 'MACD', 'PercentagePriceOscillator', 'PercentageVolumeOscillator'][rng.integers(4)]
    spec = BY[name]
    p = gen.params(rng, spec, 40)
    for k, kind, _ in spec.params:
        if kind == 'window':
            p[k] = int(rng.integers(1, 12))
    st = {**gen.style(rng, plain=.7), 'pdt': 'f8', 'vdt': 'f8'}
    fill = bool(rng.random() < .5)
    mon.ctx = dict(rows=n, kind=full.kind, dropped=old)
    data = gen.build(full, st, rng)
    try:
        a = mon.arrays(spec, data, p, fill)
        b = mon.arrays(spec, {c: s.iloc[old:] for c, s in data.items()}, p, fill)
    except Abort:
        return
    c = full.c['volume' if name == 'PercentageVolumeOscillator' else 'close']
    D, low, top, m = c.max() - c.min(), c.min(), c.max(), n - old
    q = lambda k: 1 - 2.0 / (p[k] + 1)  # noqa
    at = (lambda *k: 0) if fill else (lambda *k: sum(p[i] for i in k))     # where a stage has its first value
    if name == 'TRIXIndicator':
        w = 'window'
        d = fade(m, q(w), at(w), D, fade(m, q(w), 0, D)) if not fill else fade(m, q(w), 0, D, fade(m, q(w), 0, D))
        d = fade(m, q(w), at(w, w), D, d)
        prev = np.concatenate([[D], d[:-1]])
        tol = {'trix': 100 * (d + prev * top / low) / low}
    else:
        f, s = fade(m, q('window_fast'), 0, D), fade(m, q('window_slow'), 0, D)
        line, width = (f + s, 2 * D) if name == 'MACD' else (100 * (f + s + s * D / low) / low, 200 * D / low)
        if not fill:
            line[:at('window_slow') + at('window_fast')] = width
        sig = fade(m, q('window_sign'), at('window_slow', 'window_fast'), 2 * width, line)
        g = [o.getter for o in spec.outs]
        tol = {x: {'signal': sig, 'hist': line + sig, 'diff': line + sig}.get(x.split('_')[-1], line) for x in g}
    for o in spec.outs:
        x, y, t = a[o.getter][old:], b[o.getter], tol[o.getter]
        scale = top if name == 'MACD' else 100 * top / low
        bad = np.nonzero(np.isfinite(x) & np.isfinite(y) & ~(np.abs(x - y) <= 1.01 * t + 1e-10 * scale))[0]
        if name == 'TRIXIndicator' and fill:
            bad = bad[bad > 0]                         # the first row of the line has no row before it
        mon.per['fading start'] += 1
        mon.note((o.id, pkey(p), old, fill, 'fade'), nontrivial(x), m, output=o.id, params=p, fillna=fill, rows=n, dropped=old)
        if len(bad):
            i = int(bad[0])
            mon.violation(o.id, f'{i} rows after the cut the two starts differ by {fmt(abs(x[i] - y[i]))}, at most {fmt(t[i])} of them can be left', params=p, fillna=fill)


def seed(mon, spec, full, data, d2, old, n, rng):
    """EMA: the distance decays exactly by 1 - 2/(window+1) per row"""
    w = int(rng.integers(1, 120))
    p = dict(window=w)
    try:
        a = mon.arrays(spec, data, p, True)['ema_indicator'][old:]
        b = mon.arrays(spec, d2, p, True)['ema_indicator']
    except Abort:
        return
    q = 1 - 2.0 / (w + 1)
    want = (a[0] - b[0]) * q ** np.arange(len(a))
    size = max(np.abs(full.c['close']).max(), 1.0)
    bad = np.nonzero(~(np.abs(a - b - want) <= 1e-11 * size))[0]
    mon.per['seed decay'] += 1
    mon.note(('seed', w, old), nontrivial(a), len(a))
    if len(bad):
        i = int(bad[0])
        mon.violation('EMAIndicator.ema_indicator', f'{i} rows after the cut the distance is {fmt(a[i] - b[i])}, the decayed seed is {fmt(want[i])}', params=p, fillna=True)


def cumulative(rng, mon):
    mkt, st, data = setup(rng, mon, lo=3, plain=.6, dtypes=False)
    n = mkt.n
    s = int(rng.integers(1, n - 1))
    d2 = {c: v.iloc[s:] for c, v in data.items()}
    late = mkt.sub(s, n)
    mon.ctx['dropped'] = s
    for spec in sample_classes(rng, 3, CUM):
        p = dict(smoothing_factor=None, dropnans=False) if 'dropnans' in spec.defaults() else {}
        fill = bool(rng.random() < .5)
        o = spec.outs[0]
        try:
            x = mon.arrays(spec, data, p, fill)[o.getter][s:]
            y = mon.arrays(spec, d2, p, fill)[o.getter]
        except Abort:
            continue
        ex = np.nan_to_num(ref.model(spec, mkt, p, fill)[o.getter].e[s:], nan=np.inf)
        ey = np.nan_to_num(ref.model(spec, late, p, fill)[o.getter].e, nan=np.inf)
        lo = 1 if spec.cls == 'VolumePriceTrendIndicator' else 0
        c = mkt.c['close']
        with np.errstate(all='ignore'):
            if spec.cls == 'NegativeVolumeIndexIndicator':
                want, e = y * (x[0] / 1000.0), ey * np.abs(x[0] / 1000.0) + np.abs(y / 1000.0) * ex[0]
            elif spec.cls == 'CumulativeReturnIndicator':
                want = ((1 + y / 100) * (c[s] / c[0]) - 1) * 100
                e = (ey + 1e-15 * (100 + np.abs(y))) * (c[s] / c[0]) + 1e-14
            else:
                want, e = y + (x[lo] - y[lo]), ey + ex[lo] + ey[lo]
            bad = np.nonzero(~(np.abs(x - want) <= 1e-9 * np.abs(x) + 600 * (ex + e)) & np.isfinite(x) & np.isfinite(want) | (np.isfinite(x) != np.isfinite(y)))[0]
        bad = bad[(bad >= lo) & ~np.isinf((ex + e)[bad])]
        mon.per[o.id] += 1
        mon.note((o.id, s, fill), nontrivial(x), n - s, output=o.id, fillna=fill, rows=n, dropped=s)
        if len(bad):
            i = int(bad[0])
            mon.violation(o.id, f'row {s + i} is {fmt(x[i])}; the history started at row {s} gives {fmt(y[i])}, which continues to {fmt(want[i])}', params=p, fillna=fill)
