import numpy as np

from .. import gen, ref
from ..mon import MODS, Abort, differ, excuse, fmt, nontrivial, sample_classes
from ..registry import BY, CLASSES, OUTS, P, outs_of


def setup(rng, mon, lo=1, plain=.5, dtypes=False, big=True, mode=None, calm=None, n=None, small_v=False):
    n = n or gen.length(rng, mon.tier, lo=lo, big=big)
    mkt = gen.market(rng, n, mode=mode, calm=calm, small_v=small_v)
    mon.cur = mkt
    st = gen.style(rng, plain=plain, dtypes=dtypes)
    mon.ctx = dict(rows=n, kind=mkt.kind, style=st)
    return mkt, st, gen.build(mkt, st, rng)


def raw_model(spec, mkt, p, fill):
    return ref.R[spec.cls](ref.inputs(mkt), p, fill)


SIGNED = ('RSIIndicator', 'TSIIndicator', 'KAMAIndicator', 'StochRSIIndicator', 'MACD', 'EMAIndicator', 'SMAIndicator', 'WMAIndicator',
          'DPOIndicator', 'STCIndicator', 'BollingerBands')


def formula_case(rng, mon, groups, per_case):
    """every output of the sampled indicators against the reference model"""
    mkt, st, data = setup(rng, mon, plain=.6, dtypes=True)
    pool = [c for c in CLASSES if c.group in groups]
    line = [c for c in pool if c.inputs == ('close',) and c.cls in SIGNED]
    if line and rng.random() < .12:      # indicators of one series, on a series of any sign
        mkt = gen.signed(mkt)
        mon.cur, pool, per_case = mkt, line, min(per_case, 5)
        mon.ctx['kind'] = mkt.kind
        data = gen.build(mkt, st, rng)
    elif rng.random() < .04:
        mkt = gen.rebased(rng, mkt)
        mon.cur = mkt
        mon.ctx['kind'] = mkt.kind
        data = gen.build(mkt, st, rng)
    d = ref.inputs(mkt)
    for spec in sample_classes(rng, per_case, pool):
        p = gen.params(rng, spec, mkt.n, neg_offset=True)
        fill = bool(rng.random() < .4)
        try:
            p2 = dict(p)
            drop = p2.pop('dropnans', False)
            obj = mon.new(spec, data, p, fill)
            x = ref.R[spec.cls](d, p2, fill) if drop else ref.model(spec, mkt, p2, fill, d)
            for o in spec.outs:
                s = mon.get(obj, spec, o, p, fill)
                if drop:
                    check_dropped(mon, spec, o, s, x[o.getter], data, p, fill)
                    continue
                a = mon.arr(s, mkt.n, o.id, p, fill)
                bad, judged = ref.compare(a, x[o.getter])
                mon.per[o.id] += 1
                mon.note((o.id, sorted(p.items()), fill), nontrivial(a), judged.sum(), output=o.id, params=p, fillna=fill,
                         rows=mkt.n, history=mkt.kind)
                if len(bad):
                    i = int(bad[0])
                    mon.violation(o.id, f'row {i} of {mkt.n} is {fmt(a[i])}, the formula gives {fmt(x[o.getter].v[i])} '
                                  f'({len(bad)} rows differ)', params=p, fillna=fill)
        except Abort:
            continue


def check_dropped(mon, spec, o, s, x, data, p, fill):
    """VPT with dropnans=True: exactly the defined rows, under their own labels"""
    want = np.nonzero(np.isfinite(x.v))[0]
    a = np.asarray(s, float)
    mon.per[o.id + '/dropnans'] += 1
    mon.note((o.id, 'dropnans', sorted(map(str, p.items())), fill), nontrivial(a), len(a))
    if np.isinf(x.e).any():
        return
    if len(a) != len(want):
        mon.violation(o.id, f'dropnans kept {len(a)} rows, {len(want)} are defined', params=p, fillna=fill)
        return
    lab = data['close'].index[want]
    if not s.index.equals(lab):
        mon.violation(o.id, 'dropnans changed the labels of the kept rows', params=p, fillna=fill)
        return
    with np.errstate(all='ignore'):
        bad = np.nonzero(np.abs(a - x.v[want]) > 1e-9 * np.abs(x.v[want]) + 300 * x.e[want] + 1e-300)[0]
    if len(bad):
        i = int(bad[0])
        mon.violation(o.id, f'kept row {i} is {fmt(a[i])}, the formula gives {fmt(x.v[want][i])}', params=p, fillna=fill)


# rows of history (current row included) that determine a windowed output
def lookback(oid, p):
    g = lambda k: int(p[k])  # noqa
    cls, out = oid.split('.')
    if cls in ('SMAIndicator', 'WMAIndicator', 'BollingerBands', 'CCIIndicator', 'ChaikinMoneyFlowIndicator',
               'VolumeWeightedAveragePrice'):
        return g('window')
    if cls in ('ROCIndicator', 'AroonIndicator', 'VortexIndicator', 'MFIIndicator'):
        return g('window') + 1
    if cls == 'KeltnerChannel':
        return g('window') if p['original_version'] else None
    if cls == 'DonchianChannel':
        return g('window') + g('offset')
    if cls == 'UlcerIndex':
        return 2 * g('window') - 1
    if cls == 'DPOIndicator':
        return max(g('window'), int(.5 * g('window') + 1) + 1)
    if cls == 'KSTIndicator':
        k = max(g(f'roc{i}') + g(f'window{i}') for i in range(1, 5))
        return k if out == 'kst' else k + g('nsig') - 1
    if cls == 'IchimokuIndicator':
        s = g('window2') if p['visual'] and out in ('ichimoku_a', 'ichimoku_b') else 0
        return {'ichimoku_conversion_line': g('window1'), 'ichimoku_base_line': g('window2'),
                'ichimoku_a': max(g('window1'), g('window2')), 'ichimoku_b': g('window3')}[out] + s
    if cls == 'AwesomeOscillatorIndicator':
        return max(g('window1'), g('window2'))
    if cls == 'StochasticOscillator':
        return g('window') + (g('smooth_window') - 1 if out == 'stoch_signal' else 0)
    if cls == 'WilliamsRIndicator':
        return g('lbp')
    if cls == 'UltimateOscillator':
        return max(g('window1'), g('window2'), g('window3')) + 1
    if cls == 'EaseOfMovementIndicator':
        return 2 if out == 'ease_of_movement' else g('window') + 1
    if cls in ('DailyReturnIndicator', 'DailyLogReturnIndicator'):
        return 2
    return None


WINDOWED = [c for c in CLASSES if c.cls in (
    'SMAIndicator', 'WMAIndicator', 'BollingerBands', 'CCIIndicator', 'ChaikinMoneyFlowIndicator',
    'VolumeWeightedAveragePrice', 'ROCIndicator', 'AroonIndicator', 'VortexIndicator', 'MFIIndicator', 'KeltnerChannel',
    'DonchianChannel', 'UlcerIndex', 'DPOIndicator', 'KSTIndicator', 'IchimokuIndicator', 'AwesomeOscillatorIndicator',
    'StochasticOscillator', 'WilliamsRIndicator', 'UltimateOscillator', 'EaseOfMovementIndicator', 'DailyReturnIndicator',
    'DailyLogReturnIndicator')]


# first row (0-based) on which an output is defined with fillna=False on a non-degenerate history
def first_row(oid, p):
    g = lambda k: int(p[k])  # noqa
    cls, out = oid.split('.')
    w = int(p.get('window', 0) or 0)
    if cls == 'RSIIndicator':
        return w - 1
    if cls == 'TSIIndicator':
        return g('window_slow') + g('window_fast') - 1
    if cls == 'UltimateOscillator':
        return max(g('window1'), g('window2'), g('window3'))
    if cls == 'StochasticOscillator':
        return w - 1 + (g('smooth_window') - 1 if out == 'stoch_signal' else 0)
    if cls == 'WilliamsRIndicator':
        return g('lbp') - 1
    if cls == 'KAMAIndicator':
        return w - 1
    if cls == 'ROCIndicator':
        return w
    if cls == 'AwesomeOscillatorIndicator':
        return max(g('window1'), g('window2')) - 1
    if cls == 'StochRSIIndicator':
        return 2 * w - 2 + {'stochrsi': 0, 'stochrsi_k': g('smooth1') - 1,
                            'stochrsi_d': g('smooth1') + g('smooth2') - 2}[out]
    if cls in ('PercentagePriceOscillator', 'PercentageVolumeOscillator', 'MACD'):
        base = max(g('window_slow'), g('window_fast')) - 1
        return base + (0 if out in ('ppo', 'pvo', 'macd') else g('window_sign') - 1)
    if cls == 'AroonIndicator':
        return w
    if cls in ('EMAIndicator', 'SMAIndicator', 'WMAIndicator'):
        return w - 1
    if cls == 'TRIXIndicator':
        return 3 * (w - 1) + 1
    if cls == 'MassIndex':
        return 2 * (g('window_fast') - 1) + g('window_slow') - 1
    if cls == 'IchimokuIndicator':
        s = g('window2') if p['visual'] and out in ('ichimoku_a', 'ichimoku_b') else 0
        return {'ichimoku_conversion_line': g('window1'), 'ichimoku_base_line': g('window2'),
                'ichimoku_a': max(g('window1'), g('window2')), 'ichimoku_b': g('window3')}[out] - 1 + s
    if cls == 'KSTIndicator':
        k = max(g(f'roc{i}') + g(f'window{i}') for i in range(1, 5)) - 1
        return k if out == 'kst' else k + g('nsig') - 1
    if cls == 'DPOIndicator':
        return max(w - 1, int(.5 * w + 1))
    if cls == 'CCIIndicator':
        return w - 1
    if cls == 'VortexIndicator':
        return w
    if cls == 'STCIndicator':
        m = max(g('window_slow'), g('window_fast')) - 1
        return m + 2 * (g('cycle') - 1) + g('smooth1') - 1 + g('smooth2') - 1
    if cls == 'PSARIndicator':
        return {'psar': 0, 'psar_up': None, 'psar_down': None}.get(out, 0)
    if cls == 'BollingerBands':
        return 0 if out.endswith('indicator') else w - 1
    if cls == 'KeltnerChannel':
        if out.endswith('indicator'):
            return 0
        if not p['original_version'] and out == 'keltner_channel_pband':
            return max(w, g('window_atr')) - 1
        return w - 1
    if cls == 'DonchianChannel':
        return w - 1 + g('offset')
    if cls == 'UlcerIndex':
        return w - 1
    if cls == 'ChaikinMoneyFlowIndicator':
        return w - 1
    if cls == 'ForceIndexIndicator':
        return w
    if cls == 'EaseOfMovementIndicator':
        return 1 if out == 'ease_of_movement' else w
    if cls == 'VolumePriceTrendIndicator':
        return 1 + ((int(p['smoothing_factor']) - 1) if p['smoothing_factor'] else 0)
    if cls == 'MFIIndicator':
        return w - 1
    if cls == 'VolumeWeightedAveragePrice':
        return w - 1
    if cls in ('DailyReturnIndicator', 'DailyLogReturnIndicator'):
        return 1
    return 0          # ATR, ADX (0 while warming up), cumulative lines, cumulative return


def run_all(mon, data, n, rng, k, fills=(False, True), pool=None, drop_ok=False, **kw):
    """(spec, params, fill) triples for a case"""
    for spec in sample_classes(rng, k, pool):
        p = gen.params(rng, spec, n, **kw)
        if 'dropnans' in p and not drop_ok:
            p['dropnans'] = False
        yield spec, p, bool(fills[rng.integers(len(fills))])


def pkey(p):
    return tuple(sorted((k, str(v)) for k, v in p.items()))


def first_defined(raw):
    f = np.nonzero(np.isfinite(raw.v) | np.isinf(raw.e))[0]
    return int(f[0]) if len(f) else len(raw.v)


def same(mon, o, a, b, why, p, fill, model=None, lo=0, n=None, k=600.0, rel=1e-9, key=(), judged=None, **kw):
    """a and b (float arrays by row) must agree from row lo on"""
    bad = differ(a[lo:], b[lo:], rel) + lo
    if len(bad) and model is not None:
        bad = excuse(bad, a, b, model()[o.getter], k)
    mon.per[o.id] += 1
    mon.note((o.id, pkey(p), fill) + tuple(key), nontrivial(a[lo:]), len(a) - lo if judged is None else judged,
             output=o.id, params=p, fillna=fill, rows=len(a), **kw)
    if len(bad):
        i = int(bad[0])
        mon.violation(o.id, f'row {i} of {len(a)}: {fmt(a[i])} against {fmt(b[i])} {why} ({len(bad)} rows differ)',
                      params=p, fillna=fill, **kw)
        return False
    return True
