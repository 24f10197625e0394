"""price level: adding a constant to every price"""
from .common import *

CASES = dict(quick=8500, thorough=150000)
RULE = ('One evaluation = one output on a history and on the same history with a constant added to every price; lines on the price axis must move '
        'by that constant, everything made of price differences must not change. Distinct by (case, output, parameters, fillna, constant); '
        'non-trivial when the output holds at least two different defined values.')
LEVEL, SAME = 'moved', 'unchanged'
HOW = {}


def _m(cls, how, gets):
    for g in gets.split():
        HOW[f'{cls}.{g}'] = how


for c, g in (('KAMAIndicator', 'kama'), ('EMAIndicator', 'ema_indicator'), ('SMAIndicator', 'sma_indicator'), ('WMAIndicator', 'wma'),
             ('IchimokuIndicator', 'ichimoku_conversion_line ichimoku_base_line ichimoku_a ichimoku_b'), ('PSARIndicator', 'psar psar_up psar_down'),
             ('BollingerBands', 'bollinger_mavg bollinger_hband bollinger_lband'),
             ('KeltnerChannel', 'keltner_channel_mband keltner_channel_hband keltner_channel_lband'),
             ('DonchianChannel', 'donchian_channel_hband donchian_channel_lband donchian_channel_mband'),
             ('VolumeWeightedAveragePrice', 'volume_weighted_average_price')):
    _m(c, LEVEL, g)
for c, g in (('RSIIndicator', 'rsi'), ('TSIIndicator', 'tsi'), ('UltimateOscillator', 'ultimate_oscillator'), ('StochasticOscillator', 'stoch stoch_signal'),
             ('WilliamsRIndicator', 'williams_r'), ('AwesomeOscillatorIndicator', 'awesome_oscillator'), ('StochRSIIndicator', 'stochrsi stochrsi_k stochrsi_d'),
             ('AroonIndicator', 'aroon_up aroon_down aroon_indicator'), ('MACD', 'macd macd_signal macd_diff'), ('MassIndex', 'mass_index'), ('DPOIndicator', 'dpo'),
             ('CCIIndicator', 'cci'), ('ADXIndicator', 'adx adx_pos adx_neg'),
             ('VortexIndicator', 'vortex_indicator_pos vortex_indicator_neg vortex_indicator_diff'),
             ('PSARIndicator', 'psar_up_indicator psar_down_indicator'), ('STCIndicator', 'stc'), ('AverageTrueRange', 'average_true_range'),
             ('BollingerBands', 'bollinger_pband bollinger_hband_indicator bollinger_lband_indicator'),
             ('KeltnerChannel', 'keltner_channel_pband keltner_channel_hband_indicator keltner_channel_lband_indicator'),
             ('DonchianChannel', 'donchian_channel_pband'), ('AccDistIndexIndicator', 'acc_dist_index'), ('OnBalanceVolumeIndicator', 'on_balance_volume'),
             ('ChaikinMoneyFlowIndicator', 'chaikin_money_flow'), ('ForceIndexIndicator', 'force_index'),
             ('EaseOfMovementIndicator', 'ease_of_movement sma_ease_of_movement')):
    _m(c, SAME, g)
for k in HOW:
    assert k in OUTS, k
POOL = [c for c in CLASSES if any(o.id in HOW for o in c.outs)]


def case(index, rng, mon):
    n = gen.length(rng, mon.tier, lo=2)
    mkt = gen.market(rng, n, mode=str(rng.choice(['int', 'grid', 'grid', 'scaled'])))
    mon.cur = mkt
    st = gen.style(rng, plain=.7)
    top, bottom = mkt.c['high'].max() / mkt.tick, mkt.c['low'].min() / mkt.tick
    r = rng.random()
    if r < .35 and bottom > 2:           # down, prices stay positive
        K = -float(rng.integers(1, int(min(bottom - 1, 2 ** 40)) + 1)) * mkt.tick
    elif r < .8:
        K = float(rng.integers(1, 400)) * mkt.tick
    else:                                # far up: the moves become tiny against the level
        K = np.ceil(top) * 2.0 ** int(rng.integers(1, 13)) * mkt.tick
    alt = mkt.copy()
    for c in ('open', 'high', 'low', 'close'):
        alt.c[c] = mkt.c[c] + K
        if not (alt.c[c] - K == mkt.c[c]).all():
            return
    mon.ctx = dict(rows=n, kind=mkt.kind, added=K)
    data = gen.build(mkt, st, rng)
    d2 = gen.build(alt, {**st, 'pdt': 'f8', 'vdt': 'f8'}, rng, idx=data['close'].index)
    rel, rel2 = ref.inputs(mkt), ref.inputs(alt)
    for spec, p, fill in run_all(mon, data, n, rng, 8, pool=POOL):
        try:
            a = mon.arrays(spec, data, p, fill)
            b = mon.arrays(spec, d2, p, fill)
        except Abort:
            continue
        x = y = None
        for o in spec.outs:
            if o.id not in HOW:
                continue
            u, v = a[o.getter], b[o.getter]
            skip = np.zeros(n, bool)
            if HOW[o.id] == LEVEL:
                v = v - K
                if fill and o.neutral not in (P, 'close'):
                    skip = v == -K            # filled with the neutral level 0
            bad = ~skip
            bad[:] = False
            bad[differ(u, v, 1e-9, 4e-15 * (abs(K) + 2 * top * mkt.tick) if HOW[o.id] == LEVEL else 0.0)] = True
            rows = np.nonzero(bad & ~skip)[0]
            if len(rows):
                if x is None:
                    x, y = ref.model(spec, mkt, p, fill, rel), ref.model(spec, alt, p, fill, rel2)
                rows = excuse(rows, u, v, ref.E(x[o.getter].v, np.nan_to_num(x[o.getter].e, nan=np.inf) + np.nan_to_num(y[o.getter].e, nan=np.inf)), 600.0)
            mon.per[o.id] += 1
            mon.note((o.id, pkey(p), fill, K), nontrivial(u), (~skip).sum(), output=o.id, params=p, fillna=fill, rows=n, added=K)
            if len(rows):
                i = int(rows[0])
                mon.violation(o.id, f'row {i} of {n} is {fmt(u[i])}; with {K} added to all prices it is {fmt(b[o.getter][i])} ({HOW[o.id]} expected, '
                              f'{len(rows)} rows differ)', params=p, fillna=fill)
