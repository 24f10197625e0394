"""parameters act as documented: runs with different parameters fit together"""
from .common import *
from .p25 import lab, sh, mean

CASES = dict(quick=6000, thorough=180000)
RULE = ('One evaluation = one relation between runs of the same indicator with different parameters on the same history (exchanged windows, windows that add up, '
        'multiples of a deviation, weights, smoothing 1 ...), tested on every row. Distinct by (case, relation, parameters); non-trivial when the left side holds '
        'at least two different defined values.')
RELS = {}


def rel(f):
    RELS[f.__name__] = f
    return f


def case(index, rng, mon):
    ctx = lab(rng, mon)
    names = list(RELS)
    for k in rng.choice(len(names), 10, replace=False):
        try:
            RELS[names[int(k)]](**ctx)
        except Abort:
            continue


def _lines(cls, outs):
    def f(get, hold, w, rng, mkt, n, **_):
        """fast and slow exchanged, signal window 1, windows in a chain"""
        a, b, c, s = w(), w(), w(), w(15)
        x = {g: get(cls, g, window_fast=a, window_slow=b, window_sign=s) for g in outs}
        y = {g: get(cls, g, window_fast=b, window_slow=a, window_sign=s) for g in outs}
        one = {g: get(cls, g, window_fast=a, window_slow=b, window_sign=1) for g in outs}
        p = dict(fast=a, slow=b, sign=s)
        L, S, H = outs
        bars = mkt.c['volume' if cls == 'PercentageVolumeOscillator' else 'close']
        gone = ~np.isfinite(one[L].a) & (np.arange(n) >= max(a, b) - 1 if (bars == 0).any() else False)       # no value of the line (division by 0): the average carries over
        lin = np.where(gone, one[S].a, one[L].a)
        hold(f'{S} with signal window 1 = {L}', one[S].a, lin, one[S].e + one[L].e, p)
        hold(f'{H} with signal window 1 = 0', one[H].a, 0 * one[L].a, one[H].e + one[L].e + 1e-15 * np.abs(one[L].a), p)
        u, v = get(cls, L, window_fast=b, window_slow=c, window_sign=s), get(cls, L, window_fast=a, window_slow=c, window_sign=s)
        lo = max(a, b, c) - 1
        if cls == 'MACD':
            for g in outs:
                hold(f'{g} with fast and slow exchanged = - {g}', y[g].a, -x[g].a, x[g].e + y[g].e, p)
            hold('macd(a, b) + macd(b, c) = macd(a, c)', x[L].a + u.a, v.a, x[L].e + u.e + v.e + 2e-16 * (np.abs(x[L].a) + np.abs(u.a)), dict(a=a, b=b, c=c), lo=lo)
        else:
            with np.errstate(all='ignore'):
                q = lambda z: 1 + z.a / 100  # noqa
                e = (x[L].e * np.abs(q(y[L])) + y[L].e * np.abs(q(x[L]))) / 100 + 1e-15 * (1 + np.abs(q(x[L]))) * (1 + np.abs(q(y[L])))
                hold(f'{L}(a, b) and {L}(b, a) are reciprocal', q(x[L]) * q(y[L]), np.where(np.isfinite(x[L].a + y[L].a), 1.0, np.nan), np.where(np.isfinite(e), e, np.inf), p)
                e = (x[L].e * np.abs(q(u)) + u.e * np.abs(q(x[L])) + v.e) / 100 + 1e-15 * (1 + np.abs(q(x[L]))) * (1 + np.abs(q(u)))
                hold(f'{L}(a, b) compounded with {L}(b, c) = {L}(a, c)', q(x[L]) * q(u), q(v), np.where(np.isfinite(e), e, np.inf), dict(a=a, b=b, c=c), lo=lo)
    RELS['lines_' + cls] = f


_lines('MACD', ('macd', 'macd_signal', 'macd_diff'))
_lines('PercentagePriceOscillator', ('ppo', 'ppo_signal', 'ppo_hist'))
_lines('PercentageVolumeOscillator', ('pvo', 'pvo_signal', 'pvo_hist'))


@rel
def awesome(get, hold, w, **_):
    a, b, c = w(), w(), w()
    f = lambda x, y: get('AwesomeOscillatorIndicator', 'awesome_oscillator', window1=x, window2=y)  # noqa
    x, y, u, v = f(a, b), f(b, a), f(b, c), f(a, c)
    hold('ao(a, b) = - ao(b, a)', x.a, -y.a, x.e + y.e, dict(a=a, b=b))
    hold('ao(a, b) + ao(b, c) = ao(a, c)', x.a + u.a, v.a, x.e + u.e + v.e + 2e-16 * (np.abs(x.a) + np.abs(u.a)), dict(a=a, b=b, c=c), lo=max(a, b, c) - 1)


@rel
def roc_chain(get, hold, w, **_):
    a, b = w(), w()
    x, y, z = (get('ROCIndicator', 'roc', window=k) for k in (a, b, a + b))
    u, v = 1 + x.a / 100, sh(1 + y.a / 100, a)
    e = (x.e * np.abs(v) + np.nan_to_num(sh(y.e, a)) * np.abs(u) + z.e) / 100 + 1e-15 * (1 + np.abs(u)) * (1 + np.abs(v))
    hold('roc(a) compounded with the roc(b) before it = roc(a + b)', u * v, 1 + z.a / 100, np.nan_to_num(e), dict(a=a, b=b), lo=a + b)


@rel
def ultimate(get, hold, w, rng, **_):
    ws, wt = [w(), w(), w()], [float(rng.choice([.5, 1, 2, 3, 4, 7.5])) for _ in range(3)]
    f = lambda o, k: get('UltimateOscillator', 'ultimate_oscillator', **{f'window{i + 1}': ws[j] for i, j in enumerate(o)},  # noqa
                         **{f'weight{i + 1}': wt[j] * k for i, j in enumerate(o)})
    x, y, z = f((0, 1, 2), 1.0), f((0, 1, 2), float(rng.choice([2, 10, .25, 1 / 7]))), f(tuple(int(i) for i in rng.permutation(3)), 1.0)
    p = dict(windows=ws, weights=wt)
    hold('only the proportions of the weights count', y.a, x.a, x.e + y.e + 1e-13, p)
    hold('the order of the (window, weight) pairs does not count', z.a, x.a, x.e + z.e + 1e-13, p)


@rel
def cci_constant(get, hold, w, rng, **_):
    win, k, f = w(), float(rng.choice([.015, .01, .02, 1.0, .3])), float(rng.choice([2.0, 3.0, .1, 10.0]))
    x, y = get('CCIIndicator', 'cci', window=win, constant=k), get('CCIIndicator', 'cci', window=win, constant=k * f)
    hold('cci is inversely proportional to the constant', y.a * f, x.a, x.e + y.e * f, dict(window=win, constant=k, factor=f))


@rel
def bollinger_dev(get, hold, w, rng, **_):
    win = w()
    d, f = float(rng.choice([.5, 1, 1.5, 2, 3])), float(rng.choice([2, 3, .5, 5]))
    g = lambda k, dev: get('BollingerBands', 'bollinger_' + k, window=win, window_dev=dev)  # noqa
    m = g('mavg', d)
    p = dict(window=win, dev=d, factor=f)
    for k in ('hband', 'lband'):
        x, y, z = g(k, d), g(k, d * f), g(k, 0)
        hold(f'bollinger {k} moves away in proportion to the deviations', y.a - m.a, f * (x.a - m.a), y.e + f * x.e + (1 + f) * (m.e + 4e-16 * np.abs(m.a)), p)
        hold(f'bollinger {k} with 0 deviations = middle', z.a, m.a, z.e + m.e, p)
    x, y = g('wband', d), g('wband', d * f)
    hold('bollinger width is proportional to the deviations', y.a, f * x.a, y.e + f * x.e, p)
    x, y = g('pband', d), g('pband', d * f)
    hold('bollinger position shrinks in proportion to the deviations', f * (y.a - .5), x.a - .5, f * y.e + x.e + 1e-15 * f, p)


@rel
def keltner_mult(get, hold, w, rng, **_):
    win, wa = w(), w(20)
    d, f = float(rng.choice([.5, 1, 1.5, 2, 3])), float(rng.choice([2, 3, .5, 5]))
    g = lambda k, c: get('KeltnerChannel', 'keltner_channel_' + k, window=win, window_atr=wa, original_version=False, multiplier=c)  # noqa
    m = g('mband', d)
    p = dict(window=win, window_atr=wa, multiplier=d, factor=f)
    for k in ('hband', 'lband'):
        x, y, z = g(k, d), g(k, d * f), g(k, 0)
        hold(f'keltner {k} moves away in proportion to the multiplier', y.a - m.a, f * (x.a - m.a), y.e + f * x.e + (1 + f) * (m.e + 4e-16 * np.abs(m.a)), p)
        hold(f'keltner {k} with multiplier 0 = middle', z.a, m.a, z.e + m.e, p)
    x, y = g('wband', d), g('wband', d * f)
    hold('keltner width is proportional to the multiplier', y.a, f * x.a, y.e + f * x.e, p)


@rel
def donchian_windows(get, hold, w, rng, n, **_):
    a, b = w(), w()
    for k, op in (('hband', np.maximum), ('lband', np.minimum)):
        x, y, z = (get('DonchianChannel', 'donchian_channel_' + k, window=v, offset=0) for v in (a, b, a + b))
        hold(f'donchian {k}(a + b) joins {k}(a) and the {k}(b) before it', z.a, op(x.a, sh(y.a, a)), np.zeros(n), dict(a=a, b=b), lo=a + b - 1)
    o, q = int(rng.integers(0, 12)), int(rng.integers(0, 12))
    for k in ('hband', 'lband', 'mband'):
        x, y = (get('DonchianChannel', 'donchian_channel_' + k, window=a, offset=v) for v in (o, o + q))
        hold(f'donchian {k}: offsets add up', y.a, sh(x.a, q), y.e + np.nan_to_num(sh(x.e, q)), dict(window=a, offset=o, more=q))


@rel
def ichimoku_windows(get, hold, w, n, **_):
    a, b, c = w(), w(), w(60)
    f = lambda g, x, y: get('IchimokuIndicator', g, window1=x, window2=y, window3=c, visual=False)  # noqa
    p = dict(window1=a, window2=b, window3=c)
    u, v = f('ichimoku_conversion_line', a, b), f('ichimoku_base_line', b, a)
    hold('conversion and base line follow the same rule', u.a, v.a, u.e + v.e, p)
    u, v = f('ichimoku_a', a, b), f('ichimoku_a', b, a)
    hold('span a does not distinguish its two windows', u.a, v.a, u.e + v.e, p)
    u = get('IchimokuIndicator', 'ichimoku_b', window1=b, window2=c, window3=a, visual=False)
    v = f('ichimoku_conversion_line', a, b)
    hold('span b follows the rule of the conversion line', u.a, v.a, u.e + v.e, p)


@rel
def sums(get, hold, w, rng, mkt, **_):
    """averages over windows that add up"""
    a, b = w(), w()
    for cls, g, k, more in (('SMAIndicator', 'sma_indicator', 'window', {}), ('BollingerBands', 'bollinger_mavg', 'window', dict(window_dev=2)),
                            ('EaseOfMovementIndicator', 'sma_ease_of_movement', 'window', {}), ('KeltnerChannel', 'keltner_channel_mband', 'window', dict(original_version=True)),
                            ('VolumePriceTrendIndicator', 'volume_price_trend', 'smoothing_factor', {})):
        if rng.random() < .5:
            continue
        x, y, z = (get(cls, g, **{k: v}, **more) for v in (a, b, a + b))
        e = a * x.e + b * np.nan_to_num(sh(y.e, a)) + (a + b) * z.e + 4e-16 * (a * np.abs(x.a) + b * np.nan_to_num(np.abs(sh(y.a, a))))
        lo = a + b + (1 if cls in ('EaseOfMovementIndicator', 'VolumePriceTrendIndicator') else 0)
        hold(f'{g}(a + b) is made of {g}(a) and the {g}(b) before it', (a + b) * z.a, a * x.a + b * sh(y.a, a), np.nan_to_num(e), dict(a=a, b=b), lo=lo)
    x, y, z = (get('MassIndex', 'mass_index', window_fast=7, window_slow=v) for v in (a, b, a + b))
    hold('mass_index(a + b) is made of mass_index(a) and the mass_index(b) before it', z.a, x.a + sh(y.a, a), x.e + np.nan_to_num(sh(y.e, a)) + z.e + 1e-15 * (a + b), dict(a=a, b=b),
         lo=a + b + 12)


@rel
def weighted(get, hold, w, mkt, **_):
    """volume-weighted averages over windows that add up"""
    a, b = w(), w()
    v = mkt.c['volume']
    va, vb = (ref.roll(ref.E(v, None, mkt.vtick), k, k, 'sum') for k in (a, b))
    pa, pb = va.v, sh(vb.v, a)
    for cls, g in (('VolumeWeightedAveragePrice', 'volume_weighted_average_price'), ('ChaikinMoneyFlowIndicator', 'chaikin_money_flow')):
        x, y, z = (get(cls, g, window=k) for k in (a, b, a + b))
        with np.errstate(all='ignore'):
            right = pa * np.where(pa == 0, 0, x.a) + pb * np.where(pb == 0, 0, sh(y.a, a))
            e = pa * np.where(pa == 0, 0, x.e) + pb * np.where(pb == 0, 0, sh(y.e, a)) + (pa + pb) * z.e + np.where(pa == 0, 0, np.abs(x.a) * va.e) + \
                np.nan_to_num(np.where(pb == 0, 0, np.abs(sh(y.a, a)) * sh(vb.e, a))) + 4e-16 * (pa + pb) * np.nan_to_num(np.abs(z.a))
            left = (pa + pb) * z.a
            ok = pa + pb > 0
        hold(f'{g}(a + b) is made of {g}(a) and the {g}(b) before it', np.where(ok, left, 0), np.where(ok, right, 0), np.where(ok, np.nan_to_num(e), np.inf), dict(a=a, b=b), lo=a + b - 1)


@rel
def wma_steps(get, hold, w, **_):
    a = w()
    x, y, s = get('WMAIndicator', 'wma', window=a), get('WMAIndicator', 'wma', window=a + 1), get('SMAIndicator', 'sma_indicator', window=a + 1)
    k, m = a * (a + 1) / 2, (a + 1) * (a + 2) / 2
    hold('wma(a + 1) is made of wma(a) and sma(a + 1)', m * y.a, k * x.a + (a + 1) * s.a, m * y.e + k * x.e + (a + 1) * s.e + 4e-16 * m * np.abs(y.a), dict(a=a), lo=a)


@rel
def unsmooth(get, hold, w, mkt, n, **_):
    """taking the smoothing back gives the same series for every window"""
    a = w(25)
    x = get('EMAIndicator', 'ema_indicator', window=a)
    al = 2 / (a + 1)
    hold('ema(a) unsmoothed = close', (x.a - (1 - al) * sh(x.a)) / al, mkt.c['close'], (x.e + np.nan_to_num(sh(x.e)) + 8e-16 * np.abs(x.a)) / al, dict(a=a), lo=a)
    x, y = get('ForceIndexIndicator', 'force_index', window=a), get('ForceIndexIndicator', 'force_index', window=1)
    hold('force_index(a) unsmoothed = force_index(1)', (x.a - (1 - al) * sh(x.a)) / al, y.a, (x.e + np.nan_to_num(sh(x.e)) + 8e-16 * (np.abs(x.a) + np.nan_to_num(np.abs(sh(x.a))))) / al + y.e,
         dict(a=a), lo=a + 1)
    x, y = get('AverageTrueRange', 'average_true_range', window=a), get('AverageTrueRange', 'average_true_range', window=1)
    hold('atr(a) unsmoothed = atr(1)', a * x.a - (a - 1) * sh(x.a), y.a, a * (x.e + np.nan_to_num(sh(x.e)) + 8e-16 * (x.a + np.nan_to_num(sh(x.a)))) + y.e, dict(a=a), lo=a)


@rel
def kama_constant(get, hold, w, rng, mkt, **_):
    win, k = w(), int(rng.integers(1, 30))
    x = get('KAMAIndicator', 'kama', window=win, pow1=k, pow2=k)
    al = (2 / (k + 1)) ** 2
    hold('kama with equal constants smooths at one rate', x.a - sh(x.a), al * (mkt.c['close'] - sh(x.a)), x.e + np.nan_to_num(sh(x.e)) + 1e-14 * np.abs(x.a), dict(window=win, pow=k), lo=win)


@rel
def smooth_one(get, hold, w, rng, **_):
    win = w()
    fill = bool(rng.random() < .3)
    p = dict(window=win)
    x, y = (get('StochasticOscillator', g, fill, window=win, smooth_window=1) for g in ('stoch', 'stoch_signal'))
    hold('stoch_signal smoothed over 1 row = stoch', y.a, x.a, x.e + y.e + 1e-13, p)
    s, k, d = (get('StochRSIIndicator', g, fill, window=win, smooth1=1, smooth2=1) for g in ('stochrsi', 'stochrsi_k', 'stochrsi_d'))
    hold('stochrsi_k smoothed over 1 row = stochrsi', k.a, s.a, s.e + k.e + 1e-14, p)
    hold('stochrsi_d smoothed over 1 row = stochrsi_k', d.a, k.a, d.e + k.e + 1e-14, p)
    q = dict(roc1=w(12), roc2=w(15), roc3=w(20), roc4=w(25), window1=w(8), window2=w(8), window3=w(8), window4=w(8))
    x, y = (get('KSTIndicator', g, fill, nsig=1, **q) for g in ('kst', 'kst_sig'))
    hold('kst_sig over 1 row = kst', y.a, x.a, x.e + y.e, q)
    x, y = (get('EaseOfMovementIndicator', g, fill, window=1) for g in ('ease_of_movement', 'sma_ease_of_movement'))
    hold('sma_ease_of_movement over 1 row = ease_of_movement', y.a, x.a, x.e + y.e, {})
    x, y = (get('VolumePriceTrendIndicator', 'volume_price_trend', fill, smoothing_factor=k) for k in (None, 1))
    hold('vpt smoothed over 1 row = vpt', y.a, x.a, x.e + y.e, {})


@rel
def aroon_windows(get, hold, w, n, **_):
    a, b = sorted((w(), w()))
    for g in ('aroon_up', 'aroon_down'):
        x, y = (get('AroonIndicator', g, window=v) for v in (a, b))
        lag = np.round(b * (1 - y.a / 100))
        inside = lag <= a
        hold(f'{g}: an extreme inside the shorter window counts for both', np.where(inside, x.a, 0), np.where(inside, 100 * (1 - lag / a), 0), np.full(n, 1e-13), dict(a=a, b=b), lo=b)
        hold(f'{g}(b) counts whole rows', np.nan_to_num(y.a) * b / 100, np.round(np.nan_to_num(y.a) * b / 100), np.full(n, 1e-12), dict(a=a, b=b))


@rel
def psar_cap(get, hold, rng, n, **_):
    s = float(rng.choice([.01, .02, .05]))
    cap = s * (n + 2)
    for g in ('psar', 'psar_up', 'psar_down', 'psar_up_indicator', 'psar_down_indicator'):
        x, y = (get('PSARIndicator', g, step=s, max_step=c) for c in (cap, 4 * cap))
        hold(f'{g}: a maximum step that is never reached has no effect', y.a, x.a, np.zeros(n), dict(step=s, max_step=cap))


@rel
def stc_exchange(get, hold, w, rng, n, **_):
    a, b, c = w(), w(), w(20)
    p = dict(cycle=c, smooth1=w(6), smooth2=w(6))
    x, y = get('STCIndicator', 'stc', window_fast=a, window_slow=b, **p), get('STCIndicator', 'stc', window_fast=b, window_slow=a, **p)
    hold('stc with fast and slow exchanged = 100 - stc', y.a, 100 - x.a, x.e + y.e + 1e-12, dict(fast=a, slow=b, **p))


@rel
def kst_parts(get, hold, w, rng, **_):
    """the four parts of KST, each read from a run in which all four are the same"""
    fill = bool(rng.random() < .3)
    rs, ws = [w(12) for _ in range(4)], [w(10) for _ in range(4)]
    if rng.random() < .3:
        rs = rs[:1] * 4
    if rng.random() < .3:
        ws = ws[:1] * 4
    run = lambda r, k: get('KSTIndicator', 'kst', fill, **{f'roc{i + 1}': r[i] for i in range(4)}, **{f'window{i + 1}': k[i] for i in range(4)})  # noqa
    x = run(rs, ws)
    parts = [run([r] * 4, [k] * 4) for r, k in zip(rs, ws)]
    want = sum((i + 1) / 10 * p.a for i, p in enumerate(parts))
    e = sum((i + 1) / 10 * (p.e + 4e-16 * np.abs(np.nan_to_num(p.a))) for i, p in enumerate(parts))
    lo = max(r + k for r, k in zip(rs, ws)) - 1
    hold('kst = (K1 + 2 K2 + 3 K3 + 4 K4) / 10', x.a, want, x.e + e + 1e-13, dict(roc=rs, window=ws), **(dict(lo=lo) if fill else {}))
