"""bands: order, width, position inside the band and breakout flags fit together"""
from .common import *

CASES = dict(quick=17000, thorough=300000)
RULE = ('One evaluation = one relation between the outputs of one band indicator (order of the bands, symmetry, width, percent position, '
        'breakout flag), tested on every row from the library\'s own outputs. Distinct by (case, relation, parameters, fillna); '
        'non-trivial when at least two rows with different widths were judged (for flags: when both flag values were seen).')
NAMES = {'BollingerBands': 'bollinger_', 'KeltnerChannel': 'keltner_channel_', 'DonchianChannel': 'donchian_channel_'}
POOL = [c for c in CLASSES if c.cls in NAMES]


def case(index, rng, mon):
    mkt, st, data = setup(rng, mon, dtypes=True)
    n = mkt.n
    rel = ref.inputs(mkt)
    c0 = mkt.c['close']
    for spec, p, fill in run_all(mon, data, n, rng, 3, pool=POOL):
        pre = NAMES[spec.cls]
        try:
            res = mon.arrays(spec, data, p, fill)
        except Abort:
            continue
        g = lambda k: res[pre + k]  # noqa
        x = ref.R[spec.cls](rel, p, fill)
        e = lambda k: 600 * x[pre + k].e  # noqa
        h, m, l = g('hband'), g('mband' if spec.cls != 'BollingerBands' else 'mavg'), g('lband')
        mk = 'mband' if spec.cls != 'BollingerBands' else 'mavg'
        off = int(p.get('offset', 0))
        c = np.full(n, np.nan)
        if off >= 0:
            c[off:] = c0[:n - off]
        eb = e('hband') + e('lband') + e(mk)
        with np.errstate(all='ignore'):
            scale = 1e-9 * (np.abs(h) + np.abs(l))
            own = np.isfinite(x[pre + 'hband'].v)       # rows with a value of their own (not filled)
            de = np.isfinite(h) & np.isfinite(l) & np.isfinite(m) & np.isfinite(eb)

            def judge(what, rows, ok, extra=None):
                rows = rows & ~np.isinf(e(what.split('/')[0]))
                bad = np.nonzero(rows & ~ok)[0]
                key = f'{spec.cls}.{what}'
                mon.per[key] += 1
                w = (h - l)[rows]
                triv = len(w) > 1 and bool((w != w[0]).any()) if extra is None else extra
                mon.note((key, pkey(p), fill), triv, rows.sum(), relation=key, params=p, fillna=fill, rows=n)
                if len(bad):
                    i = int(bad[0])
                    mon.violation(key, f'row {i}: high band {fmt(h[i])}, middle {fmt(m[i])}, low band {fmt(l[i])}, close {fmt(c0[i])}'
                                  + (f', output {fmt(g(what.split("/")[0])[i])}' if '/' in what else ''), params=p, fillna=fill)
            judge(mk, de, (h >= m - scale - eb) & (m >= l - scale - eb))
            if not (spec.cls == 'KeltnerChannel' and p['original_version']):
                judge('hband/symmetric', de, np.abs((h - m) - (m - l)) <= 4 * scale + 2 * eb)
            # all bands are defined on the same rows
            judge('lband/together', np.isfinite(eb), np.isfinite(h) == np.isfinite(l))
            w = g('wband')
            rows = de & own & np.isfinite(w)
            if spec.cls == 'DonchianChannel':
                s = pd_roll_mean(c0, int(p['window']), fill)
                if off >= 0:
                    t = np.full(n, np.nan)
                    t[off:] = s[:n - off]
                    s = t
                mid = s
            else:
                mid = m
            want = 100 * (h - l) / mid
            judge('wband/width', rows, np.abs(w - want) <= 1e-8 * np.abs(want) + e('wband') + 100 * (eb + scale * 1e-3) / np.abs(mid) + 1e-7)
            pb = g('pband')
            rows = de & own & np.isfinite(pb) & (h - l > 1e6 * (eb + 1e-12 * np.abs(h)))
            want = (c - l) / (h - l)
            if spec.cls == 'KeltnerChannel' and fill:
                rows = rows & True
            judge('pband/position', rows, np.abs(pb - want) <= 1e-6 * (1 + np.abs(want)) + e('pband'))
            if spec.cls == 'BollingerBands' or spec.cls == 'KeltnerChannel':
                for k, cond in (('hband_indicator', c0 > h), ('lband_indicator', c0 < l)):
                    f = g(k)
                    b = h if k[0] == 'h' else l
                    clear = np.abs(c0 - b) > 1e-9 * np.abs(b) + eb
                    rows = own & de & clear
                    judge(k + '/flag', rows, (f == 1) == cond, nontrivial(f))
                    if mkt.tick and st['pdt'] == 'f8' and spec.cls == 'BollingerBands':      # nothing moved: the bands lie on the close
                        still = quiet(c0, int(p['window']))
                        judge(k + '/flag-still', own & de & still, f == 0, bool(still.any()))
                    f0 = ~own & ~np.isinf(eb)
                    judge(k + '/flag-warmup', f0, f == 0, bool(f0.any()))


def quiet(a, w):
    """rows whose whole window holds one and the same value"""
    run, out = 0, np.zeros(len(a), bool)
    for i in range(len(a)):
        run = run + 1 if i and a[i] == a[i - 1] else 1
        out[i] = run >= w
    return out


def pd_roll_mean(a, w, fill):
    n = len(a)
    out = np.full(n, np.nan)
    for i in range(n):
        if i >= w - 1 or fill:
            out[i] = a[max(0, i - w + 1):i + 1].mean()
    return out
