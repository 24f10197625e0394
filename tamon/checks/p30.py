"""superposition: linear indicators of a combined history are the combination of the indicators"""
from .common import *

CASES = dict(quick=9500, thorough=170000)
RULE = ('One evaluation = one linear output on two histories and on their weighted sum (a spread, a basket, or two venues whose volumes add); the '
        'output of the sum must be the same weighted sum of the outputs. Distinct by (case, output, parameters, fillna, weights); non-trivial when '
        'the output holds at least two different defined values.')
# what the output is linear in, the rest of the history being the same
CLOSE = {'EMAIndicator': 'ema_indicator', 'SMAIndicator': 'sma_indicator', 'WMAIndicator': 'wma', 'MACD': 'macd macd_signal macd_diff', 'DPOIndicator': 'dpo',
         'BollingerBands': 'bollinger_mavg'}
BARS = {'AwesomeOscillatorIndicator': 'awesome_oscillator', 'KeltnerChannel': 'keltner_channel_mband keltner_channel_hband keltner_channel_lband',
        'ForceIndexIndicator': 'force_index', 'VolumeWeightedAveragePrice': 'volume_weighted_average_price', **CLOSE}
VOLS = {'AccDistIndexIndicator': 'acc_dist_index', 'OnBalanceVolumeIndicator': 'on_balance_volume', 'VolumePriceTrendIndicator': 'volume_price_trend',
        'ForceIndexIndicator': 'force_index'}


def case(index, rng, mon):
    kind = ['close', 'bars', 'volume'][index % 3]
    n = gen.length(rng, mon.tier, lo=2)
    A, B = (gen.market(rng, n, mode=["int", "int", "grid", "grid", "scaled", None][rng.integers(6)]) for _ in range(2))
    al, be = (2.0 ** int(rng.integers(-3, 4)) if rng.random() < .5 else float(rng.integers(1, 10)) for _ in range(2))
    cols = ('volume',) if kind == 'volume' else ('open', 'high', 'low', 'close')
    # bring the second history to a comparable level
    f = 2.0 ** np.round(np.log2(max(np.median(A.c['close']), 1e-300) / max(np.median(B.c['close']), 1e-300)) + int(rng.integers(-3, 4)))
    if kind == 'close' and rng.random() < .6:
        be = -be
    if kind == 'volume':
        m = max(np.median(B.c['volume']), 1e-300)
        f = 2.0 ** np.round(np.log2(max(np.median(A.c['volume']), 1e-300) / m))
    if not 1e-200 < f < 1e200:
        return
    if n > 3 and rng.random() < .3:        # most of the history far below its largest values
        A, B = A.copy(), B.copy()
        i = int(rng.integers(1, max(n // 2, 2)))
        g = 2.0 ** int(rng.integers(8, 30))
        for c in cols:
            A.c[c] = np.concatenate([A.c[c][:i] * g, A.c[c][i:]])
            B.c[c] = np.concatenate([B.c[c][:i] * g, B.c[c][i:]])
        A.tick = A.vtick = None
    X, Y, Z = A.copy(), A.copy(), A.copy()
    for c in cols:
        Y.c[c] = B.c[c] * f
        Z.c[c] = al * A.c[c] + be * Y.c[c]
        if not np.isfinite(Z.c[c]).all():
            return
    for m in (Y, Z):
        m.tick = m.vtick = None
    mon.cur = Z
    st = gen.style(rng, plain=.7)
    st = {**st, 'pdt': 'f8', 'vdt': 'f8'}
    mon.ctx = dict(rows=n, kind=A.kind, linear_in=kind, weights=[al, be])
    dx = gen.build(X, st, rng)
    dy, dz = (gen.build(m, st, rng, idx=dx['close'].index) for m in (Y, Z))
    R = [ref.inputs(m) for m in (X, Y, Z)]
    table = dict(close=CLOSE, bars=BARS, volume=VOLS)[kind]
    for spec, p, fill in run_all(mon, dx, n, rng, 4, pool=[BY[c] for c in table]):
        try:
            x, y, z = (mon.arrays(spec, d, p, fill) for d in (dx, dy, dz))
        except Abort:
            continue
        mods = None
        for g in table[spec.cls].split():
            if spec.cls == 'KeltnerChannel' and not p['original_version'] and not g.endswith('mband'):
                continue
            oid = f'{spec.cls}.{g}'
            with np.errstate(all='ignore'):
                want = al * x[g] + be * y[g]
                size = abs(al) * np.abs(x[g]) + abs(be) * np.abs(y[g])
            both = np.isfinite(x[g]) & np.isfinite(y[g])
            bad = np.zeros(n, bool)
            bad[differ(np.where(both, want, np.nan), z[g], 1e-9, np.where(both, 1e-12 * size, 0.0))] = True
            rows = np.nonzero(bad)[0]
            if len(rows):
                mods = mods or [ref.model(spec, m, p, fill, r) for m, r in zip((X, Y, Z), R)]
                e = sum(w * np.nan_to_num(m[g].e, nan=np.inf) for w, m in zip((abs(al), abs(be), 1.0), mods))
                rows = excuse(rows, want, z[g], ref.E(want, e), 600.0)
            mon.per[oid] += 1
            mon.note((oid, pkey(p), fill, kind, al, be), nontrivial(z[g]), both.sum(), output=oid, params=p, fillna=fill, rows=n, linear_in=kind, weights=[al, be])
            if len(rows):
                i = int(rows[0])
                mon.violation(oid, f'row {i} of {n}: {fmt(z[g][i])} for the combined history, {fmt(want[i])} from its parts ({len(rows)} rows differ)',
                              params=p, fillna=fill)
