"""outputs of related indicators fit together"""
from .common import *

CASES = dict(quick=6200, thorough=186000)
RULE = ('One evaluation = one identity between outputs the library itself produced (line minus signal, average of another output, '
        'compounded returns, lines of two indicators that must coincide ...), tested on every row. Distinct by (case, identity, '
        'parameters); non-trivial when the left side holds at least two different defined values.')


class V:
    """an output together with its model bound"""

    def __init__(self, a, e):
        self.a, self.e = a, e


def case(index, rng, mon):
    ctx = lab(rng, mon)
    names = list(IDS)
    for k in rng.choice(len(names), 9, replace=False):
        try:
            IDS[names[int(k)]](**ctx)
        except Abort:
            continue


def lab(rng, mon):
    """what the identities work with: get (an output), hold (the judge), w (a window) ... on one history"""
    pd = MODS['pd']
    mkt, st, data = setup(rng, mon, plain=.7)
    n = mkt.n
    rel = ref.inputs(mkt)
    cache = {}

    def get(cls, g, fill=False, over=None, series=None, **p):
        """output g of an indicator; over: another Series as its close / first input"""
        spec = BY[cls]
        full = {**spec.defaults(), **p}
        if 'dropnans' in full and 'dropnans' not in p:
            full['dropnans'] = False
        if over is not None:
            d = {spec.inputs[0]: over.s, 'close': over.s}
            obj = mon.new(spec, d, full, fill)
            o = [o for o in spec.outs if o.getter == g][0]
            s = mon.get(obj, spec, o, full, fill)
            x = ref.R[cls]({'close': ref.E(over.a, over.e)}, full, fill)[g]
        else:
            k = (cls, pkey(full), fill)
            if k not in cache:
                obj = mon.new(spec, data, full, fill)
                cache[k] = (obj, {}, ref.R[cls](rel, full, fill))
            obj, got, m = cache[k]
            o = [o for o in spec.outs if o.getter == g][0]
            if g not in got:
                got[g] = mon.get(obj, spec, o, full, fill)
            s, x = got[g], m[g]
        v = V(mon.arr(s, n, f'{cls}.{g}', full, fill), np.where(np.isnan(x.e), 0, x.e))
        v.s = pd.Series(v.a, index=data['close'].index, name='x')
        return v

    def hold(name, left, right, bound, params, lo=0, rel_tol=1e-9):
        """left == right within the rounding bound"""
        with np.errstate(all='ignore'):
            b = 600 * bound + rel_tol * np.maximum(np.abs(left), np.abs(right)) + 1e-300
            lu, ru = ~np.isfinite(left), ~np.isfinite(right)
            bad = ~np.isinf(bound) & ~np.isnan(bound) & ((lu != ru) | (~lu & ~ru & (np.abs(left - right) > b)))
        bad[:lo] = False
        mon.per[name] += 1
        mon.note((name, pkey(params)), nontrivial(left), n - lo, identity=name, params=params, rows=n)
        rows = np.nonzero(bad)[0]
        if len(rows):
            i = int(rows[0])
            mon.violation(name, f'row {i}: {fmt(left[i])} against {fmt(right[i])} ({len(rows)} rows differ)', params=params)
    w = lambda hi=40: int(rng.integers(1, hi)) if rng.random() < .9 else int(rng.integers(1, 120))  # noqa
    return dict(get=get, hold=hold, w=w, rng=rng, mkt=mkt, n=n, rel=rel)


def sh(a, k=1):
    out = np.full(len(a), np.nan)
    if k < len(a):
        out[k:] = a[:len(a) - k] if k else a
    return out


def mean(a, e, w):
    """mean over the last w rows, undefined when any is"""
    x = ref.roll(ref.E(a, e), w, w, 'mean')
    return x.v, x.e


IDS = {}


def ident(f):
    IDS[f.__name__] = f
    return f


def _hist(cls, a, b, h):
    def f(get, hold, w, rng, **_):
        fill = bool(rng.random() < .4)
        p = dict(window_slow=w(), window_fast=w(), window_sign=w(20))
        x, y, z = get(cls, a, fill, **p), get(cls, b, fill, **p), get(cls, h, fill, **p)
        if fill:       # filled lines: only rows where both lines have a value
            p0 = np.arange(len(x.a)) >= 0
            e = np.where(p0, x.e + y.e + z.e, 0)
            ok = ~np.isinf(e)
            hold(f'{cls}.{h} = {a} - {b}', np.where(ok, z.a, 0), np.where(ok, x.a - y.a, 0), np.where(ok, e + 1e-13 * (np.abs(x.a) + np.abs(y.a)), np.inf), p)
            return
        hold(f'{cls}.{h} = {a} - {b}', z.a, x.a - y.a, x.e + y.e + z.e + 4e-16 * (np.abs(x.a) + np.abs(y.a)), p)
    f.__name__ = f'hist_{cls}'
    IDS[f.__name__] = f


_hist('MACD', 'macd', 'macd_signal', 'macd_diff')
_hist('PercentagePriceOscillator', 'ppo', 'ppo_signal', 'ppo_hist')
_hist('PercentageVolumeOscillator', 'pvo', 'pvo_signal', 'pvo_hist')
_hist('KSTIndicator', 'kst', 'kst_sig', 'kst_diff') if False else None


@ident
def macd_ema(get, hold, w, rng, **_):
    p = dict(window_slow=w(), window_fast=w(), window_sign=w(20))
    f, s = get('EMAIndicator', 'ema_indicator', window=p['window_fast']), get('EMAIndicator', 'ema_indicator', window=p['window_slow'])
    m = get('MACD', 'macd', **p)
    hold('macd = fast ema - slow ema', m.a, f.a - s.a, f.e + s.e + m.e + 4e-16 * np.abs(f.a), p)
    g = get('EMAIndicator', 'ema_indicator', over=m, window=p['window_sign'])
    z = get('MACD', 'macd_signal', **p)
    hold('macd_signal = ema of macd', z.a, g.a, g.e + z.e, p)


@ident
def ppo_ema(get, hold, w, rng, **_):
    p = dict(window_slow=w(), window_fast=w(), window_sign=w(20))
    m, q = get('MACD', 'macd', **p), get('PercentagePriceOscillator', 'ppo', **p)
    s = get('EMAIndicator', 'ema_indicator', window=p['window_slow'])
    with np.errstate(all='ignore'):
        hold('ppo = 100 macd / slow ema', q.a, 100 * m.a / s.a, q.e + 100 * (m.e + s.e) / np.abs(s.a) + 1e-15, p)
    g = get('EMAIndicator', 'ema_indicator', over=q, window=p['window_sign'])
    z = get('PercentagePriceOscillator', 'ppo_signal', **p)
    hold('ppo_signal = ema of ppo', z.a, g.a, g.e + z.e, p)


@ident
def kst_parts(get, hold, w, rng, n, **_):
    p = dict(roc1=w(12), roc2=w(15), roc3=w(20), roc4=w(25), window1=w(8), window2=w(8), window3=w(8), window4=w(8), nsig=w(12))
    k, s, d = get('KSTIndicator', 'kst', **p), get('KSTIndicator', 'kst_sig', **p), get('KSTIndicator', 'kst_diff', **p)
    hold('kst_diff = kst - kst_sig', d.a, k.a - s.a, k.e + s.e + d.e + 4e-16 * (np.abs(k.a) + np.abs(s.a)), p)
    v, e = mean(k.a, k.e, p['nsig'])
    hold('kst_sig = average of kst', s.a, v, e + s.e, p)
    tot, te = np.zeros(n), np.zeros(n)
    for i in range(1, 5):
        r = get('ROCIndicator', 'roc', window=p[f'roc{i}'])
        v, e = mean(r.a, r.e, p[f'window{i}'])
        tot, te = tot + i * v, te + i * e
    hold('kst = weighted smoothed rates of change', k.a, tot, te + k.e + 1e-14, p)


@ident
def bollinger_sma(get, hold, w, rng, **_):
    p = dict(window=w(), window_dev=2)
    fill = bool(rng.random() < .3)
    b, s = get('BollingerBands', 'bollinger_mavg', fill, **p), get('SMAIndicator', 'sma_indicator', fill, window=p['window'])
    hold('bollinger_mavg = sma', b.a, s.a, b.e + s.e, p)


@ident
def donchian_ichimoku(get, hold, w, rng, **_):
    w1, w2, w3 = w(), w(), w(60)
    p = dict(window1=w1, window2=w2, window3=w3)
    for g, win in (('ichimoku_conversion_line', w1), ('ichimoku_base_line', w2), ('ichimoku_b', w3)):
        a = get('IchimokuIndicator', g, visual=False, **p)
        b = get('DonchianChannel', 'donchian_channel_mband', window=win, offset=0)
        hold(f'{g} = donchian middle', a.a, b.a, a.e + b.e, p)
    c, d = get('IchimokuIndicator', 'ichimoku_conversion_line', visual=False, **p), get('IchimokuIndicator', 'ichimoku_base_line', visual=False, **p)
    a = get('IchimokuIndicator', 'ichimoku_a', visual=False, **p)
    hold('ichimoku_a = average of conversion and base line', a.a, (c.a + d.a) / 2, a.e + c.e + d.e, p)
    for g in ('ichimoku_a', 'ichimoku_b'):
        x, y = get('IchimokuIndicator', g, visual=True, **p), get('IchimokuIndicator', g, visual=False, **p)
        hold(f'visual {g} = {g} shifted by window2', x.a, sh(y.a, w2), x.e + np.nan_to_num(sh(y.e, w2)), p)


@ident
def donchian_offset(get, hold, w, rng, n, **_):
    k, win = int(rng.integers(0, max(1, min(n, 20)))), w()
    for g in ('hband', 'lband', 'mband', 'wband', 'pband'):
        g = 'donchian_channel_' + g
        x, y = get('DonchianChannel', g, window=win, offset=k), get('DonchianChannel', g, window=win, offset=0)
        hold(f'{g} with offset = shifted', x.a, sh(y.a, k), x.e + np.nan_to_num(sh(y.e, k)), dict(window=win, offset=k))


@ident
def stoch_family(get, hold, w, rng, **_):
    win, sm = w(), w(10)
    k = get('StochasticOscillator', 'stoch', True, window=win, smooth_window=sm)
    r = get('WilliamsRIndicator', 'williams_r', True, lbp=win)
    hold('williams_r = stoch - 100, filled', r.a, k.a - 100, r.e + k.e + 1e-13, dict(window=win))
    k = get('StochasticOscillator', 'stoch', window=win, smooth_window=sm)
    r = get('WilliamsRIndicator', 'williams_r', lbp=win)
    d = get('DonchianChannel', 'donchian_channel_pband', window=win, offset=0)
    g = get('StochasticOscillator', 'stoch_signal', window=win, smooth_window=sm)
    p = dict(window=win, smooth_window=sm)
    hold('williams_r = stoch - 100', r.a, k.a - 100, r.e + k.e + 1e-13, p)
    hold('stoch = 100 donchian position', k.a, 100 * d.a, k.e + 100 * d.e + 1e-13, p)
    v, e = mean(k.a, k.e, sm)
    hold('stoch_signal = average of stoch', g.a, v, g.e + e + 1e-13, p)


@ident
def stochrsi_family(get, hold, w, rng, **_):
    p = dict(window=w(20), smooth1=w(8), smooth2=w(8))
    r = get('RSIIndicator', 'rsi', window=p['window'])
    s, k, d = (get('StochRSIIndicator', g, **p) for g in ('stochrsi', 'stochrsi_k', 'stochrsi_d'))
    W = p['window']
    x = ref.E(r.a, r.e)
    lo, hi = ref.roll(x, W, W, 'min'), ref.roll(x, W, W, 'max')
    q = (x - lo) / (hi - lo)
    q.e = np.where((lo.v == hi.v) & (lo.e + hi.e > 0), np.inf, q.e)
    hold('stochrsi = stochastic of rsi', s.a, q.v, q.e + s.e, p)
    v, e = mean(s.a, s.e, p['smooth1'])
    hold('stochrsi_k = average of stochrsi', k.a, v, e + k.e + 1e-14, p)
    v, e = mean(k.a, k.e, p['smooth2'])
    hold('stochrsi_d = average of stochrsi_k', d.a, v, e + d.e + 1e-14, p)


@ident
def returns(get, hold, w, rng, n, mkt, **_):
    d, l, c = get('DailyReturnIndicator', 'daily_return'), get('DailyLogReturnIndicator', 'daily_log_return'), get('CumulativeReturnIndicator', 'cumulative_return')
    with np.errstate(all='ignore'):
        acc = np.concatenate([[0.0], np.cumsum(np.log1p(d.a[1:] / 100))]) if n > 1 else np.zeros(1)
        hold('cumulative return = compounded daily returns', 1 + c.a / 100, np.exp(acc), 1e-14 * np.arange(1, n + 1) * np.exp(acc), {}, rel_tol=1e-9)
        acc = np.concatenate([[0.0], np.cumsum(l.a[1:] / 100)]) if n > 1 else np.zeros(1)
        hold('cumulative return = compounded log returns', 1 + c.a / 100, np.exp(acc), 1e-14 * np.arange(1, n + 1) * np.exp(acc), {}, rel_tol=1e-9)
    r = get('ROCIndicator', 'roc', window=1)
    hold('roc(1) = daily return', r.a, d.a, r.e + d.e + 1e-13, {})


@ident
def keltner_ema(get, hold, w, rng, **_):
    p = dict(window=w(), window_atr=w(20), original_version=False, multiplier=int(rng.integers(1, 4)))
    fill = bool(rng.random() < .3)
    h, m, l = (get('KeltnerChannel', 'keltner_channel_' + g, fill, **p) for g in ('hband', 'mband', 'lband'))
    e = get('EMAIndicator', 'ema_indicator', fill, window=p['window'])
    a = get('AverageTrueRange', 'average_true_range', fill, window=p['window_atr'])
    hold('keltner middle = ema', m.a, e.a, m.e + e.e, p)
    hold('keltner high = ema + multiplier atr', h.a, e.a + p['multiplier'] * a.a, h.e + e.e + 3 * a.e, p)
    hold('keltner low = ema - multiplier atr', l.a, e.a - p['multiplier'] * a.a, l.e + e.e + 3 * a.e + 4e-16 * np.abs(e.a), p)


@ident
def trix_ema(get, hold, w, rng, **_):
    win = w(20)
    a = get('EMAIndicator', 'ema_indicator', window=win)
    b = get('EMAIndicator', 'ema_indicator', over=a, window=win)
    c = get('EMAIndicator', 'ema_indicator', over=b, window=win)
    t = get('TRIXIndicator', 'trix', window=win)
    with np.errstate(all='ignore'):
        want = 100 * (c.a - sh(c.a)) / sh(c.a)
        e = 100 * (c.e + np.nan_to_num(sh(c.e))) / np.abs(sh(c.a))
    hold('trix = change of the triple ema', t.a, want, t.e + np.nan_to_num(e) + 1e-13, dict(window=win))


@ident
def eom_sma(get, hold, w, rng, **_):
    win = w()
    x, s = get('EaseOfMovementIndicator', 'ease_of_movement', window=win), get('EaseOfMovementIndicator', 'sma_ease_of_movement', window=win)
    v, e = mean(x.a, x.e, win)
    hold('sma_ease_of_movement = average of ease_of_movement', s.a, v, s.e + e, dict(window=win))


@ident
def vpt_smooth(get, hold, w, rng, **_):
    win = w(20)
    x = get('VolumePriceTrendIndicator', 'volume_price_trend')
    s = get('VolumePriceTrendIndicator', 'volume_price_trend', smoothing_factor=win)
    v, e = mean(x.a, x.e, win)
    hold('smoothed vpt = average of vpt', s.a, v, s.e + e, dict(smoothing_factor=win))


@ident
def cmf_adi(get, hold, w, rng, n, mkt, **_):
    """the increments of the accumulation line are the flows the money flow averages"""
    win = w()
    a, c = get('AccDistIndexIndicator', 'acc_dist_index'), get('ChaikinMoneyFlowIndicator', 'chaikin_money_flow', window=win)
    inc = np.diff(np.concatenate([[0.0], a.a]))
    ie = a.e + np.concatenate([[0.0], a.e[:-1]])
    x = ref.roll(ref.E(inc, ie + 4e-16 * np.abs(a.a)), win, win, 'sum') / ref.roll(ref.E(mkt.c['volume'], None, mkt.vtick), win, win, 'sum')
    hold('cmf = change of adi over volume', c.a, x.v, x.e + c.e, dict(window=win), rel_tol=1e-6)


@ident
def vwap_typical(get, hold, w, rng, mkt, **_):
    """one bar: the volume-weighted price is that bar's typical price"""
    v = get('VolumeWeightedAveragePrice', 'volume_weighted_average_price', window=1)
    tp = (mkt.c['high'] + mkt.c['low'] + mkt.c['close']) / 3
    tp = np.where(mkt.c['volume'] == 0, np.nan, tp)
    hold('vwap(1) = typical price', v.a, tp, v.e + 1e-15 * np.abs(tp), {})


@ident
def one_bar(get, hold, w, rng, mkt, n, **_):
    for cls, g in (('SMAIndicator', 'sma_indicator'), ('EMAIndicator', 'ema_indicator'), ('WMAIndicator', 'wma')):
        a = get(cls, g, window=1)
        hold(f'{g}(1) = close', a.a, mkt.c['close'], a.e + 1e-15 * mkt.c['close'], {})
    f = get('ForceIndexIndicator', 'force_index', window=1)
    with np.errstate(all='ignore'):
        want = (mkt.c['close'] - sh(mkt.c['close'])) * mkt.c['volume']
    hold('force_index(1) = price change times volume', f.a, want, f.e, {})
    a = get('AverageTrueRange', 'average_true_range', window=1)
    pc = sh(mkt.c['close'])
    want = np.fmax(mkt.c['high'], pc) - np.fmin(mkt.c['low'], pc)
    hold('atr(1) = true range', a.a, want, a.e + 4e-16 * mkt.c['high'], {})


@ident
def aroon_diff(get, hold, w, rng, **_):
    win = w()
    fill = bool(rng.random() < .5)
    u, d, i = (get('AroonIndicator', 'aroon_' + g, fill, window=win) for g in ('up', 'down', 'indicator'))
    hold('aroon_indicator = up - down', i.a, u.a - d.a, u.e + d.e + i.e + 1e-13, dict(window=win))


@ident
def vortex_diff(get, hold, w, rng, **_):
    win = w()
    fill = bool(rng.random() < .5)
    u, d, i = (get('VortexIndicator', 'vortex_indicator_' + g, fill, window=win) for g in ('pos', 'neg', 'diff'))
    hold('vortex_diff = pos - neg', i.a, u.a - d.a, u.e + d.e + i.e + 1e-14, dict(window=win))


@ident
def psar_partition(get, hold, w, rng, n, **_):
    p = dict(step=float(rng.choice([.02, .05, .1])), max_step=float(rng.choice([.2, .3])))
    s, u, d, iu, id_ = (get('PSARIndicator', g, **p) for g in ('psar', 'psar_up', 'psar_down', 'psar_up_indicator', 'psar_down_indicator'))
    up, dn = np.isfinite(u.a), np.isfinite(d.a)
    e = np.zeros(n)
    hold('psar_up and psar_down never coincide', (up & dn) * 1.0, np.zeros(n), e, p)
    hold('every row from the third on is in one trend', (up | dn)[2:] * 1.0 if n > 2 else np.zeros(0), np.ones(max(0, n - 2)), e[2:], p)
    hold('psar is the line of the trend in force', np.where(up, u.a, np.where(dn, d.a, s.a)), s.a, e, p)
    first = lambda x: (x & ~np.concatenate([[False], x[:-1]])) * 1.0  # noqa
    hold('psar_up_indicator marks the first row of an up-trend', iu.a, first(up), e, p)
    hold('psar_down_indicator marks the first row of a down-trend', id_.a, first(dn), e, p)


@ident
def ao_medians(get, hold, w, rng, mkt, **_):
    a, b = w(20), w()
    x = get('AwesomeOscillatorIndicator', 'awesome_oscillator', window1=a, window2=b)
    m = 0.5 * (mkt.c['high'] + mkt.c['low'])
    f, s = mean(m, 4e-16 * np.abs(m), a), mean(m, 4e-16 * np.abs(m), b)
    hold('awesome oscillator = difference of median averages', x.a, f[0] - s[0], f[1] + s[1] + x.e, dict(window1=a, window2=b))


@ident
def dpo_sma(get, hold, w, rng, mkt, n, **_):
    win = w()
    d, s = get('DPOIndicator', 'dpo', window=win), get('SMAIndicator', 'sma_indicator', window=win)
    k = int(.5 * win) + 1
    want = sh(mkt.c['close'], k) - s.a
    hold('dpo = earlier close - sma', d.a, want, d.e + s.e + 4e-16 * np.abs(s.a), dict(window=win))
