"""bounded outputs stay within their bounds"""
from .common import *

CASES = dict(quick=11000, thorough=195000)
RULE = ('One evaluation = one output of bounded range, all rows tested against its bounds (fixed bounds of oscillators and flags; '
        'for averages and price levels the range of the data they summarise so far). Distinct by (case, output, parameters, '
        'fillna); non-trivial when the output holds at least two different defined values.')
FIX = {'VortexIndicator.vortex_indicator_pos': (0, None), 'VortexIndicator.vortex_indicator_neg': (0, None),
       'NegativeVolumeIndexIndicator.negative_volume_index': (0, None), 'ROCIndicator.roc': (-100, None),
       'CumulativeReturnIndicator.cumulative_return': (-100, None), 'DailyReturnIndicator.daily_return': (-100, None),
       'BollingerBands.bollinger_wband': (0, None), 'KeltnerChannel.keltner_channel_wband': (0, None),
       'DonchianChannel.donchian_channel_wband': (0, None), 'DonchianChannel.donchian_channel_pband': (0, 1),
       'MassIndex.mass_index': (0, None)}
# outputs that summarise prices: (lower source, upper source, window or None for the whole history)
LEVEL = {'SMAIndicator.sma_indicator': ('close', 'close', 'window'), 'EMAIndicator.ema_indicator': ('close', 'close', None),
         'WMAIndicator.wma': ('close', 'close', 'window'), 'KAMAIndicator.kama': ('close', 'close', None),
         'BollingerBands.bollinger_mavg': ('close', 'close', 'window'),
         'VolumeWeightedAveragePrice.volume_weighted_average_price': ('low', 'high', 'window'),
         'IchimokuIndicator.ichimoku_conversion_line': ('low', 'high', 'window1'),
         'IchimokuIndicator.ichimoku_base_line': ('low', 'high', 'window2'),
         'IchimokuIndicator.ichimoku_a': ('low', 'high', None), 'IchimokuIndicator.ichimoku_b': ('low', 'high', None),
         'DonchianChannel.donchian_channel_mband': ('low', 'high', None),
         'DonchianChannel.donchian_channel_hband': ('low', 'high', None),
         'DonchianChannel.donchian_channel_lband': ('low', 'high', None),
         'KeltnerChannel.keltner_channel_mband': ('low', 'high', None), 'PSARIndicator.psar': ('low', 'high', None),
         'PSARIndicator.psar_up': ('low', 'high', None), 'PSARIndicator.psar_down': ('low', 'high', None),
         'AverageTrueRange.average_true_range': None}
POOL = [c for c in CLASSES if any(o.bounds or o.id in FIX or o.id in LEVEL for o in c.outs)]


def case(index, rng, mon):
    mkt, st, data = setup(rng, mon, dtypes=True)
    n = mkt.n
    rel = ref.inputs(mkt)
    for spec, p, fill in run_all(mon, data, n, rng, 8, pool=POOL):
        try:
            a = mon.arrays(spec, data, p, fill)
        except Abort:
            continue
        x = None
        for o in spec.outs:
            v = a[o.getter]
            lo, hi = o.bounds or FIX.get(o.id, (None, None))
            src = LEVEL.get(o.id)
            if lo is None and hi is None and src is None:
                continue
            L = np.full(n, -np.inf if lo is None else float(lo))
            H = np.full(n, np.inf if hi is None else float(hi))
            if src:
                a0, b0, wn = src
                w = int(p[wn]) if wn and not fill else n
                f = lambda s, g: np.array([g(s[max(0, i - w + 1):i + 1]) for i in range(n)]) if w < n else getattr(  # noqa
                    np, 'minimum' if g is np.min else 'maximum').accumulate(s)
                L, H = f(mkt.c[a0], np.min), f(mkt.c[b0], np.max)
                if fill:
                    L, H = np.full(n, mkt.c[a0].min()), np.full(n, mkt.c[b0].max())
                    if o.neutral == 0:        # filled up with zeros before the first value
                        L = np.minimum(L, 0)
            with np.errstate(all='ignore'):
                tol = 1e-9 * np.maximum(np.where(np.isfinite(L), np.abs(L), 0), np.where(np.isfinite(H), np.abs(H), 0))
                out = np.isfinite(v) & ((v < L - tol) | (v > H + tol))
                if o.bounds is not None and o.neutral is not None:
                    out |= np.isinf(v)
            bad = np.nonzero(out)[0]
            if len(bad):
                x = x or ref.model(spec, mkt, {**p, 'dropnans': False}, fill, rel)
                m = x[o.getter]
                bad = [i for i in bad if not (np.isinf(m.e[i]) or L[i] - tol[i] - 600 * m.e[i] <= v[i] <= H[i] + tol[i] + 600 * m.e[i])]
            flag = o.bounds == (0, 1) and o.getter.endswith('_indicator')
            if flag:
                odd = np.nonzero(~np.isin(v, (0.0, 1.0)))[0]
                if len(odd):
                    mon.violation(o.id, f'row {int(odd[0])} of a 0/1 flag is {fmt(v[odd[0]])}', params=p, fillna=fill)
            mon.per[o.id] += 1
            mon.note((o.id, pkey(p), fill), nontrivial(v), n, output=o.id, params=p, fillna=fill, rows=n)
            if len(bad):
                i = int(bad[0])
                mon.violation(o.id, f'row {i} is {fmt(v[i])}, outside [{L[i]}, {H[i]}]', params=p, fillna=fill)
