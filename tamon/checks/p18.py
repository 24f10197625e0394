"""units: prices in another currency or volumes in another lot size"""
from .common import *

CASES = dict(quick=7800, thorough=138000)
RULE = ('One evaluation = one output on a history and on the same history with all prices and/or all volumes multiplied by a constant; '
        'price-level outputs must scale with the price unit, volume lines with the volume unit, ratios not at all. Distinct by (case, '
        'output, parameters, fillna, factors); non-trivial when the output holds at least two different defined values.')
DEG = {}
for o in ('KAMAIndicator.kama AwesomeOscillatorIndicator.awesome_oscillator MACD.macd MACD.macd_signal MACD.macd_diff '
          'EMAIndicator.ema_indicator SMAIndicator.sma_indicator WMAIndicator.wma IchimokuIndicator.ichimoku_conversion_line '
          'IchimokuIndicator.ichimoku_base_line IchimokuIndicator.ichimoku_a IchimokuIndicator.ichimoku_b DPOIndicator.dpo '
          'PSARIndicator.psar PSARIndicator.psar_up PSARIndicator.psar_down AverageTrueRange.average_true_range '
          'BollingerBands.bollinger_mavg BollingerBands.bollinger_hband BollingerBands.bollinger_lband '
          'KeltnerChannel.keltner_channel_mband KeltnerChannel.keltner_channel_hband KeltnerChannel.keltner_channel_lband '
          'DonchianChannel.donchian_channel_hband DonchianChannel.donchian_channel_lband DonchianChannel.donchian_channel_mband '
          'VolumeWeightedAveragePrice.volume_weighted_average_price').split():
    DEG[o] = (1, 0)
for o in ('AccDistIndexIndicator.acc_dist_index OnBalanceVolumeIndicator.on_balance_volume '
          'VolumePriceTrendIndicator.volume_price_trend').split():
    DEG[o] = (0, 1)
DEG['ForceIndexIndicator.force_index'] = (1, 1)
DEG['EaseOfMovementIndicator.ease_of_movement'] = DEG['EaseOfMovementIndicator.sma_ease_of_movement'] = (2, -1)
for o in DEG:
    assert o in OUTS, o


def case(index, rng, mon):
    mkt, st, data = setup(rng, mon, lo=2, plain=.7)
    n = mkt.n
    if rng.random() < .6 or mkt.tick is None or mkt.vtick is None:      # other factors only where the products are exact
        pf = 2.0 ** int(rng.choice([-20, -10, -7, -3, -1, 1, 2, 5, 10, 20]))
        vf = 2.0 ** int(rng.choice([-12, -6, -3, 3, 10, 20]))
    else:
        pf, vf = float(rng.choice([3, 5, 7, 10, 12, 100])), float(rng.choice([3, 7, 10, 1000]))
    r = rng.random()
    if r < .45:
        vf = 1.0
    elif r < .6:
        pf = 1.0
    alt = mkt.scaled(pf, vf)
    exact = pf in (2.0 ** np.arange(-30, 31)) and vf in (2.0 ** np.arange(-30, 31))
    d2 = gen.build(alt, {**st, 'pdt': 'f8', 'vdt': 'f8'}, rng, idx=data['close'].index)
    mon.ctx.update(price_factor=pf, volume_factor=vf)
    rel = ref.inputs(mkt)
    for spec, p, fill in run_all(mon, data, n, rng, 9):
        try:
            a = mon.arrays(spec, data, p, fill)
            b = mon.arrays(spec, d2, p, fill)
        except Abort:
            continue
        mm = {}

        def model():
            if not mm:
                mm.update(ref.model(spec, mkt, p, fill, rel))
                if not exact:      # a factor that is not a power of two rounds differently
                    m2 = ref.model(spec, alt, p, fill)
                    for g in m2:
                        dp, dv = DEG.get(f'{spec.cls}.{g}', (0, 0))
                        mm[g] = ref.E(mm[g].v, mm[g].e + m2[g].e / (pf ** dp * vf ** dv))
            return mm
        for o in spec.outs:
            dp, dv = DEG.get(o.id, (0, 0))
            f = pf ** dp * vf ** dv
            x, y = a[o.getter], b[o.getter]
            if fill and o.neutral in (0, 1, 20, 50, 1000, -50) or o.neutral is None:
                pass
            same(mon, o, x, y / f, f'after scaling prices by {pf} and volumes by {vf} (expected factor {f})', p, fill, model,
                 key=(pf, vf), price_factor=pf, volume_factor=vf)
