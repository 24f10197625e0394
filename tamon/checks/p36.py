"""an output depends on nothing but its own parameters and inputs"""
from .common import *

CASES = dict(quick=10400, thorough=156000)
RULE = ('One evaluation = one output before and after something it must not depend on was changed: a parameter of a sibling output, an input column its formula does not '
        'use, or the size (not the order) of values of which only the order counts. Distinct by (case, output, parameters, fillna, change); non-trivial when the '
        'output holds at least two different defined values.')
PAR = {}        # output -> parameters without influence


def _p(oid, names, when=None):
    PAR.setdefault(oid, []).append((names.split(), when))


for a, b in (('MACD.macd', 'window_sign'), ('PercentagePriceOscillator.ppo', 'window_sign'), ('PercentageVolumeOscillator.pvo', 'window_sign'),
             ('StochasticOscillator.stoch', 'smooth_window'), ('StochRSIIndicator.stochrsi', 'smooth1 smooth2'), ('StochRSIIndicator.stochrsi_k', 'smooth2'),
             ('KSTIndicator.kst', 'nsig'), ('IchimokuIndicator.ichimoku_conversion_line', 'window2 window3 visual'),
             ('IchimokuIndicator.ichimoku_base_line', 'window1 window3 visual'), ('IchimokuIndicator.ichimoku_a', 'window3'), ('IchimokuIndicator.ichimoku_b', 'window1'),
             ('BollingerBands.bollinger_mavg', 'window_dev'), ('KeltnerChannel.keltner_channel_mband', 'window_atr multiplier'),
             ('EaseOfMovementIndicator.ease_of_movement', 'window')):
    _p(a, b)
_p('IchimokuIndicator.ichimoku_b', 'window2', lambda p: not p['visual'])
for g in 'hband lband wband pband hband_indicator lband_indicator'.split():
    _p('KeltnerChannel.keltner_channel_' + g, 'window_atr multiplier', lambda p: p['original_version'])
D = 'DonchianChannel.donchian_channel_'
INP = {D + 'hband': 'low close', D + 'lband': 'high close', D + 'mband': 'close', 'AroonIndicator.aroon_up': 'low', 'AroonIndicator.aroon_down': 'high',
       'KeltnerChannel.keltner_channel_mband': 'high low', 'KeltnerChannel.keltner_channel_lband_indicator': 'high low'}
ORD = {'OnBalanceVolumeIndicator.on_balance_volume': 'close', 'NegativeVolumeIndexIndicator.negative_volume_index': 'volume', 'AroonIndicator.aroon_up': 'high',
       'AroonIndicator.aroon_down': 'low', 'AroonIndicator.aroon_indicator': 'high low'}
INP.pop('KeltnerChannel.keltner_channel_lband_indicator')
for k in (*PAR, *INP, *ORD):
    assert k in OUTS, k


def monotone(rng, v):
    """other numbers in exactly the same order, ties included"""
    u, inv = np.unique(v, return_inverse=True)
    g = np.cumsum(rng.integers(1, 9, len(u)) * 2.0 ** rng.integers(0, 12, len(u)))
    return g[inv]


def case(index, rng, mon):
    mkt, st, data = setup(rng, mon, plain=.6, dtypes=False)
    n = mkt.n
    kind = ['parameter', 'parameter', 'input', 'order'][index % 4]
    table = dict(parameter=PAR, input=INP, order=ORD)[kind]
    ids = list(table)
    for j in rng.choice(len(ids), min(6, len(ids)), replace=False):
        o = OUTS[ids[int(j)]]
        spec = o.cls
        p = gen.params(rng, spec, n, neg_offset=True)
        if 'dropnans' in p:
            p['dropnans'] = False
        fill = bool(rng.random() < .5)
        q, d2, alt = dict(p), data, mkt
        if kind == 'parameter':
            names, when = table[o.id][int(rng.integers(len(table[o.id])))]
            if when and not when(p):
                continue
            new = gen.params(rng, spec, n)
            ch = [x for x in names if rng.random() < .7] or names
            for x in ch:
                q[x] = (not p[x]) if x == 'visual' else new[x]
        else:
            alt = mkt.copy()
            ch = table[o.id].split()
            if kind == 'input':
                if spec.cls == 'KeltnerChannel':
                    p['original_version'] = q['original_version'] = False
                for c in ch:
                    k = int(rng.integers(0, 3))
                    alt.c[c] = alt.c[c] * 2.0 if k == 0 else rng.permutation(alt.c[c]) if k == 1 else alt.c[c] + mkt.c['close'].max() * rng.integers(0, 5, n)
            else:
                for c in ch:
                    alt.c[c] = monotone(rng, alt.c[c])
            d2 = gen.build(alt, {**st, 'pdt': 'f8', 'vdt': 'f8'}, rng, cols=gen.COLS, idx=data['close'].index)
        try:
            a = mon.arr(mon.get(mon.new(spec, data, p, fill), spec, o, p, fill), n, o.id, p, fill)
            b = mon.arr(mon.get(mon.new(spec, d2, q, fill), spec, o, q, fill), n, o.id, q, fill)
        except Abort:
            continue
        bad = differ(a, b, 1e-12)
        if len(bad):
            x, y = ref.model(spec, mkt, p, fill), ref.model(spec, alt, q, fill)
            bad = excuse(bad, a, b, ref.E(a, np.nan_to_num(x[o.getter].e, nan=np.inf) + np.nan_to_num(y[o.getter].e, nan=np.inf)))
        mon.per[o.id] += 1
        mon.note((o.id, pkey(p), pkey(q), fill, kind), nontrivial(a), n, output=o.id, params=p, fillna=fill, changed=ch, rows=n)
        if len(bad):
            i = int(bad[0])
            mon.violation(o.id, f'row {i} of {n} changes from {fmt(a[i])} to {fmt(b[i])} when only {", ".join(ch)} ({kind}) changes, on which it does not depend '
                          f'({len(bad)} rows differ)', params=p, changed=q, fillna=fill)
