"""direction: higher prices never pull a result the wrong way"""
from .common import *

CASES = dict(quick=10200, thorough=180000)
RULE = ('One evaluation = one output on a history and on a history that is nowhere lower (averages, channel lines: every row compared) or whose bar differs only by a '
        'higher close or a higher high (oscillators, returns, volume lines, ranges: that bar compared). Distinct by (case, output, parameters, variant); '
        'non-trivial when the two compared values differ somewhere.')
ABOVE = {'EMAIndicator': 'ema_indicator', 'SMAIndicator': 'sma_indicator', 'WMAIndicator': 'wma', 'BollingerBands': 'bollinger_mavg',
         'IchimokuIndicator': 'ichimoku_conversion_line ichimoku_base_line ichimoku_a ichimoku_b', 'KeltnerChannel': 'keltner_channel_mband',
         'DonchianChannel': 'donchian_channel_hband donchian_channel_lband donchian_channel_mband', 'VolumeWeightedAveragePrice': 'volume_weighted_average_price'}
CLOSE = {'RSIIndicator': 'rsi', 'TSIIndicator': 'tsi', 'UltimateOscillator': 'ultimate_oscillator', 'StochasticOscillator': 'stoch stoch_signal',
         'WilliamsRIndicator': 'williams_r', 'ROCIndicator': 'roc', 'StochRSIIndicator': 'stochrsi stochrsi_k stochrsi_d', 'MACD': 'macd macd_diff',
         'EMAIndicator': 'ema_indicator', 'SMAIndicator': 'sma_indicator', 'WMAIndicator': 'wma', 'TRIXIndicator': 'trix', 'KSTIndicator': 'kst', 'CCIIndicator': 'cci',
         'BollingerBands': 'bollinger_mavg bollinger_hband_indicator', 'DonchianChannel': 'donchian_channel_pband', 'VolumeWeightedAveragePrice': 'volume_weighted_average_price',
         'AccDistIndexIndicator': 'acc_dist_index', 'OnBalanceVolumeIndicator': 'on_balance_volume', 'ChaikinMoneyFlowIndicator': 'chaikin_money_flow',
         'ForceIndexIndicator': 'force_index', 'VolumePriceTrendIndicator': 'volume_price_trend', 'NegativeVolumeIndexIndicator': 'negative_volume_index',
         'DailyReturnIndicator': 'daily_return', 'DailyLogReturnIndicator': 'daily_log_return', 'CumulativeReturnIndicator': 'cumulative_return'}
HIGH = {'AverageTrueRange': 'average_true_range', 'AroonIndicator': 'aroon_up aroon_indicator', 'AwesomeOscillatorIndicator': 'awesome_oscillator',
        'IchimokuIndicator': 'ichimoku_conversion_line ichimoku_base_line', 'DonchianChannel': 'donchian_channel_hband donchian_channel_mband',
        'KeltnerChannel': 'keltner_channel_mband keltner_channel_hband'}


def case(index, rng, mon):
    kind = ['above', 'close', 'close', 'high'][index % 4]
    n = gen.length(rng, mon.tier, lo=2, big=kind == 'above')
    mkt = gen.market(rng, n, mode=['int', 'grid', 'grid', 'scaled'][rng.integers(4)])
    alt = mkt.copy()
    row = None
    t = mkt.tick
    if kind == 'above':
        add = rng.integers(0, 6, n) * t * (rng.random(n) < rng.choice([.02, .3, 1]))
        if rng.random() < .3:
            add = np.cumsum(rng.integers(0, 3, n)) * t
        for c in ('open', 'high', 'low', 'close'):
            alt.c[c] = mkt.c[c] + add
        if rng.random() < .4:
            alt.c['high'] = alt.c['high'] + rng.integers(0, 4, n) * t
    else:
        row = int(rng.integers(1, n)) if rng.random() < .7 else n - 1
        if kind == 'close':
            lo, hi = mkt.c['low'][row], mkt.c['high'][row]
            if rng.random() < .2 and hi / t < 2 ** 40:          # a bar with a very wide range
                hi = mkt.c['high'][row] = alt.c['high'][row] = hi + t * np.round(hi / t) * int(rng.integers(1, 12))
            k = int(min(round((hi - lo) / t), 2 ** 50))
            if k < 1:
                hi = mkt.c['high'][row] = alt.c['high'][row] = hi + t * int(rng.integers(1, 9))
                k = int(round((hi - lo) / t))
            a, b = sorted(int(x) for x in rng.integers(0, k + 1, 2))
            if a == b:
                a, b = (a, a + 1) if a < k else (a - 1, a)
            q = rng.random()
            if q < .3:                       # up to the very high, or up from the very low, by a little or a lot
                b = k
                a = max(0, k - int(rng.choice([1, 1, 2, k])))
            elif q < .45:
                a, b = 0, int(rng.choice([1, 1, k]))
            mkt.c['close'][row], alt.c['close'][row] = lo + a * t, lo + b * t
            if rng.random() < .15:           # from barely below the high
                mkt.c['close'][row], alt.c['close'][row] = max(lo, hi * (1 - 2.0 ** -int(rng.integers(4, 30)))), hi
            mkt.c['open'][row] = alt.c['open'][row] = lo
            if rng.random() < .2 and mkt.c['low'][row - 1] <= hi:          # the bar before closed on the same high
                for m in (mkt, alt):
                    m.c['high'][row - 1] = m.c['close'][row - 1] = hi
        else:
            alt.c['high'][row] += float(rng.integers(1, 12)) * t * (2.0 ** int(rng.integers(0, 6)))
    mon.cur = mkt
    st = {**gen.style(rng, plain=.7), 'pdt': 'f8', 'vdt': 'f8'}
    mon.ctx = dict(rows=n, kind=mkt.kind, raised=kind, row=row)
    data = gen.build(mkt, st, rng)
    d2 = gen.build(alt, st, rng, idx=data['close'].index)
    table = dict(above=ABOVE, close=CLOSE, high=HIGH)[kind]
    rel, rel2 = ref.inputs(mkt), ref.inputs(alt)
    for spec, p, fill in run_all(mon, data, n, rng, 5 if kind == 'above' else 9, pool=[BY[c] for c in table]):
        if spec.cls == 'MACD' and int(p['window_fast']) > int(p['window_slow']):
            p['window_fast'], p['window_slow'] = p['window_slow'], p['window_fast']
        if row is not None and rng.random() < .5:        # short enough that the row is defined
            for k, knd, _ in spec.params:
                if knd == 'window':
                    p[k] = int(rng.integers(1, max(2, min(40, row // 2))))
            if spec.cls == 'MACD':
                p['window_fast'], p['window_slow'] = sorted((p['window_fast'], p['window_slow']))
        if spec.cls == 'AwesomeOscillatorIndicator':
            p['window1'], p['window2'] = sorted((p['window1'], p['window2']))
        try:
            a = mon.arrays(spec, data, p, fill)
            b = mon.arrays(spec, d2, p, fill)
        except Abort:
            continue
        x = y = None
        for g in table[spec.cls].split():
            oid = f'{spec.cls}.{g}'
            u, v = a[g], b[g]
            at = slice(0, n) if row is None else slice(row, row + 1)
            with np.errstate(all='ignore'):
                both = np.isfinite(u[at]) & np.isfinite(v[at])
                low = both & (v[at] < u[at] - 1e-9 * np.maximum(np.abs(u[at]), np.abs(v[at])))
            rows = np.nonzero(low)[0] + (row or 0)
            if len(rows):
                if x is None:
                    x, y = ref.model(spec, mkt, p, fill, rel), ref.model(spec, alt, p, fill, rel2)
                rows = excuse(rows, u, v, ref.E(u, np.nan_to_num(x[g].e, nan=np.inf) + np.nan_to_num(y[g].e, nan=np.inf)), 600.0)
            mon.per[oid] += 1
            mon.note((oid, pkey(p), fill, kind, row), bool((both & (u[at] != v[at])).any()), both.sum(), output=oid, params=p, fillna=fill, rows=n, raised=kind)
            if len(rows):
                i = int(rows[0])
                mon.violation(oid, f'row {i} of {n} falls from {fmt(u[i])} to {fmt(v[i])} although prices only rose ({kind}; {len(rows)} rows)', params=p, fillna=fill)
