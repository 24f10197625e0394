"""mirror symmetry: turning every price p into K - p swaps the bullish and the bearish side"""
from .common import *

CASES = dict(quick=7000, thorough=162000)
RULE = ('One evaluation = one output on a history and on its mirror image (prices p replaced by K - p, so highs become lows); the two must '
        'be related as the indicator\'s definition demands. Distinct by (case, output, parameters); non-trivial when the output holds '
        'at least two different defined values.')
# output -> (how the mirrored value follows, output of the mirrored run to compare with)
N, S, H, W_, K1, ONE = 'negated', 'unchanged', 'hundred', 'wr', 'price', 'one'
MIRROR = {}


def _m(cls, spec):
    for part in spec.split():
        g, how, *other = part.split(':')
        MIRROR[f'{cls}.{g}'] = (how, other[0] if other else g)


_m('RSIIndicator', 'rsi:hundred')
_m('TSIIndicator', 'tsi:negated')
_m('UltimateOscillator', 'ultimate_oscillator:hundred')
_m('StochasticOscillator', 'stoch:hundred stoch_signal:hundred')
_m('WilliamsRIndicator', 'williams_r:wr')
_m('KAMAIndicator', 'kama:price')
_m('AwesomeOscillatorIndicator', 'awesome_oscillator:negated')
_m('StochRSIIndicator', 'stochrsi:one stochrsi_k:one stochrsi_d:one')
_m('AroonIndicator', 'aroon_up:unchanged:aroon_down aroon_down:unchanged:aroon_up aroon_indicator:negated')
_m('MACD', 'macd:negated macd_signal:negated macd_diff:negated')
_m('EMAIndicator', 'ema_indicator:price')
_m('SMAIndicator', 'sma_indicator:price')
_m('WMAIndicator', 'wma:price')
_m('MassIndex', 'mass_index:unchanged')
_m('IchimokuIndicator', 'ichimoku_conversion_line:price ichimoku_base_line:price ichimoku_a:price ichimoku_b:price')
_m('DPOIndicator', 'dpo:negated')
_m('CCIIndicator', 'cci:negated')
_m('ADXIndicator', 'adx:unchanged adx_pos:unchanged:adx_neg adx_neg:unchanged:adx_pos')
_m('VortexIndicator', 'vortex_indicator_pos:unchanged:vortex_indicator_neg vortex_indicator_neg:unchanged:vortex_indicator_pos '
   'vortex_indicator_diff:negated')
_m('STCIndicator', 'stc:hundred')
_m('AverageTrueRange', 'average_true_range:unchanged')
for c, pre, mid in (('BollingerBands', 'bollinger_', 'mavg'), ('KeltnerChannel', 'keltner_channel_', 'mband'), ('DonchianChannel', 'donchian_channel_', 'mband')):
    _m(c, f'{pre}{mid}:price {pre}hband:price:{pre}lband {pre}lband:price:{pre}hband {pre}pband:one')
    if c[0] != 'D':
        _m(c, f'{pre}hband_indicator:unchanged:{pre}lband_indicator {pre}lband_indicator:unchanged:{pre}hband_indicator')
_m('AccDistIndexIndicator', 'acc_dist_index:negated')
_m('ChaikinMoneyFlowIndicator', 'chaikin_money_flow:negated')
_m('ForceIndexIndicator', 'force_index:negated')
_m('EaseOfMovementIndicator', 'ease_of_movement:negated sma_ease_of_movement:negated')
_m('OnBalanceVolumeIndicator', 'on_balance_volume:obv')
POOL = [c for c in CLASSES if any(o.id in MIRROR for o in c.outs)]
for k in MIRROR:
    assert k in OUTS, k


def case(index, rng, mon):
    n = gen.length(rng, mon.tier, lo=2)
    mkt = gen.market(rng, n, mode=str(rng.choice(['int', 'grid', 'grid', 'scaled'])))
    mon.cur = mkt
    st = gen.style(rng, plain=.7)
    mon.ctx = dict(rows=n, kind=mkt.kind)
    top = max(mkt.c['high'].max() / mkt.tick, 1)
    K = (2 * np.ceil(top) if rng.random() < .5 else np.ceil(top) + 8 + float(rng.integers(0, 200))) * mkt.tick
    alt = mkt.copy()
    alt.c['open'], alt.c['close'] = K - mkt.c['open'], K - mkt.c['close']
    alt.c['high'], alt.c['low'] = K - mkt.c['low'], K - mkt.c['high']
    data = gen.build(mkt, st, rng)
    d2 = gen.build(alt, {**st, 'pdt': 'f8', 'vdt': 'f8'}, rng, idx=data['close'].index)
    rel, rel2 = ref.inputs(mkt), ref.inputs(alt)
    c = mkt.c['close']
    for spec, p, _ in run_all(mon, data, n, rng, 8, fills=(False,), pool=POOL):
        fill = False
        try:
            a = mon.arrays(spec, data, p, fill)
            b = mon.arrays(spec, d2, p, fill)
        except Abort:
            continue
        x = ref.R[spec.cls](rel, p, fill)
        y = ref.R[spec.cls](rel2, p, fill)
        for o in spec.outs:
            if o.id not in MIRROR:
                continue
            how, g = MIRROR[o.id]
            u, v = a[o.getter], b[g].copy()
            e = np.nan_to_num(x[o.getter].e, nan=np.inf) + np.nan_to_num(y[g].e, nan=np.inf)
            skip = np.isinf(e)
            top_ = 0.0
            with np.errstate(all='ignore'):
                if how == 'negated':
                    v = -v
                elif how == 'hundred':
                    v, top_ = 100 - v, 1e-11
                elif how == 'one':
                    v, top_ = 1 - v, 1e-12
                elif how == 'wr':
                    v, top_ = -100 - v, 1e-11
                elif how == 'price':
                    v, top_ = K - v, 1e-13 * K
                elif how == 'obv':
                    tie = np.concatenate([[False], c[1:] == c[:-1]])
                    v = 2 * mkt.c['volume'][0] - v
                    if tie.any():
                        skip = skip | (np.cumsum(tie) > 0)
                    top_ = 1e-12 * np.cumsum(mkt.c['volume'])
                if o.id == 'RSIIndicator.rsi':     # no movement so far counts as 100 on both sides
                    still = np.concatenate([[True], c[1:] == c[:-1]]).cumprod().astype(bool)
                    if int(p['window']) == 1:
                        still |= np.concatenate([[True], c[1:] == c[:-1]])
                    skip = skip | still
                if spec.cls == 'StochRSIIndicator':
                    still = np.concatenate([[True], c[1:] == c[:-1]]).cumprod().astype(bool)
                    t = int(np.argmin(still)) if not still.all() else n
                    if int(p['window']) == 1:
                        skip = np.ones(n, bool)
                    skip = skip.copy()
                    skip[:t + int(p['window']) + int(p['smooth1']) + int(p['smooth2'])] = True
                uu, vu = ~np.isfinite(u), ~np.isfinite(v)
                bad = ~skip & ((uu != vu) | (~uu & ~vu & (np.abs(u - v) > 1e-9 * np.abs(u) + 600 * e + top_ + 1e-300)))
            mon.per[o.id] += 1
            mon.note((o.id, pkey(p)), nontrivial(u), (~skip).sum(), output=o.id, params=p, rows=n, relation=how)
            rows = np.nonzero(bad)[0]
            if len(rows):
                i = int(rows[0])
                mon.violation(o.id, f'row {i}: {fmt(u[i])}, the mirrored history gives {fmt(b[g][i])} for {g} ({how}); {len(rows)} rows differ',
                              params=p, mirror=K)
