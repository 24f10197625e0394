"""no look-ahead"""
from .common import *

CASES = dict(quick=7600, thorough=135000)
RULE = ('One evaluation = one output computed on a full history and again after everything behind a random row t was cut off or '
        'replaced by other valid bars; rows up to t must agree; or of every row while it was the newest one, which must equal the same row of the full history. Distinct by (case, output, parameters, fillna, variant); '
        'non-trivial when the compared rows hold at least two different defined values.')


def events(rng, m):
    """a row at which something happens"""
    c, h, l, v = (m.c[k] for k in ('close', 'high', 'low', 'volume'))
    d = np.diff(c, prepend=c[0])
    kinds = [(v == 0) & (np.roll(v, 1) > 0), h == l, d == 0, np.abs(d) >= .1 * c, c == np.maximum.accumulate(c), c == np.minimum.accumulate(c),
             v >= 8 * np.median(v), (v == 0), v == np.roll(v, 1), (h == np.roll(h, 1)) | (l == np.roll(l, 1)), c == h, c == l]
    rows = np.nonzero(kinds[rng.integers(len(kinds))])[0]
    return int(rng.choice(rows)) if len(rows) else int(rng.integers(0, m.n))


def stream(rng, mon):
    """bars arrive one at a time: every row is what it was when it was the newest"""
    mkt, st, data = setup(rng, mon, n=int(rng.integers(3, 36)), calm=False)
    n = mkt.n
    rel = ref.inputs(mkt)
    for spec in sample_classes(rng, 3):
        p = gen.params(rng, spec, n, default_rate=.02)
        for k, kind, _ in spec.params:
            if kind == 'window' and p[k] > 6 and rng.random() < .8:
                p[k] = int(rng.integers(1, 7))
        p.pop('dropnans', None)
        fill = bool(rng.random() < .4)
        try:
            full = mon.arrays(spec, data, p, fill)
            raw = ref.R[spec.cls](rel, {**p, 'dropnans': False}, True) if fill else None
            last = {o.getter: np.full(n, np.nan) for o in spec.outs}
            for k in range(1, n + 1):
                d2 = {c: s.iloc[:k] for c, s in data.items()}
                for g, s in mon.run(spec, d2, p, fill).items():
                    last[g][k - 1] = mon.arr(s, k, f'{spec.cls}.{g}', p, fill)[-1]
        except Abort:
            continue
        x = None
        for o in spec.outs:
            lo = 0
            if fill and o.neutral == P:
                f = np.nonzero(np.isfinite(raw[o.getter].v))[0]
                lo = int(f[0]) if len(f) else n
            a, b = full[o.getter], last[o.getter]
            bad = differ(a[lo:], b[lo:]) + lo
            if len(bad):
                x = x or ref.model(spec, mkt, {**p, 'dropnans': False}, fill, rel)
                bad = excuse(bad, a, b, x[o.getter])
            mon.per[o.id + '/stream'] += 1
            mon.note((o.id, pkey(p), fill, 'stream'), nontrivial(a), n - lo, output=o.id, params=p, fillna=fill, variant='stream', rows=n)
            if len(bad):
                i = int(bad[0])
                mon.violation(o.id, f'row {i} was {fmt(b[i])} while it was the newest row and is {fmt(a[i])} once {n - 1 - i} more rows follow',
                              params=p, fillna=fill)


def case(index, rng, mon):
    if index % 5 == 0:
        return stream(rng, mon)
    mkt, st, data = setup(rng, mon, lo=3)
    n = mkt.n
    r = rng.random()
    t = int(rng.integers(0, n - 1)) if r < .7 else int(min(n - 2, rng.integers(0, 6)))
    if rng.random() < .35:
        t = min(events(rng, mkt), n - 2)
    variant = ['cut', 'replace', 'replace', 'scale', 'freeze', 'extend'][rng.integers(6)]
    idx = data['close'].index
    if variant == 'cut':
        alt = mkt.head(t + 1)
        k = t + 1
        # the caller's own truncated columns
        d2 = {c: s.iloc[:k] for c, s in data.items()}
    else:
        alt = mkt.copy()
        m = n - t - 1
        if variant == 'replace':
            other = gen.market(rng, m, mode='int')
            for c in alt.c:
                # keep within the same order of magnitude
                f = np.median(mkt.c[c]) / max(np.median(other.c[c]), 1e-12)
                f = 2.0 ** np.round(np.log2(f)) if f > 0 else 1.0
                if c != 'volume':
                    f = 2.0 ** np.round(np.log2(np.median(mkt.c['close']) / np.median(other.c['close'])))
                alt.c[c][t + 1:] = other.c[c] * f
        elif variant == 'scale':
            for c in alt.c:
                alt.c[c][t + 1:] *= 4.0
        elif variant == 'freeze':
            for c in ('open', 'high', 'low', 'close'):
                alt.c[c][t + 1:] = mkt.c['close'][t]
            alt.c['volume'][t + 1:] = 0
        else:       # more history arrives
            m2 = int(rng.integers(1, 60))
            other = gen.market(rng, m2, mode='int')
            f = 2.0 ** np.round(np.log2(np.median(mkt.c['close']) / np.median(other.c['close'])))
            for c in alt.c:
                alt.c[c] = np.concatenate([mkt.c[c], other.c[c] * (1 if c == 'volume' else f)])
            alt.n = n + m2
            t = n - 1
        d2 = gen.build(alt, st, rng, idx=idx if alt.n == n else None)
    rel = ref.inputs(mkt)
    for spec in sample_classes(rng, 9):
        p = gen.params(rng, spec, n)
        p.pop('dropnans', None)
        fill = bool(rng.random() < .5)
        try:
            a = mon.arrays(spec, data, p, fill)
            b = mon.arrays(spec, d2, p, fill)
        except Abort:
            continue
        raw = None
        for o in spec.outs:
            x, y = a[o.getter][:t + 1], b[o.getter][:t + 1]
            lo = 0
            if fill and o.neutral == P:
                raw = raw or ref.R[spec.cls](rel, {**p, 'dropnans': False}, True)
                f = np.nonzero(np.isfinite(raw[o.getter].v))[0]
                lo = int(f[0]) if len(f) else n
            if lo > t:
                continue
            bad = differ(x[lo:], y[lo:]) + lo
            if len(bad):
                full = ref.model(spec, mkt, {**p, 'dropnans': False}, fill, rel)[o.getter]
                bad = excuse(bad, x, y, full)
            mon.per[o.id] += 1
            mon.note((o.id, sorted(map(str, p.items())), fill, variant, t), nontrivial(x), t + 1 - lo, output=o.id, params=p,
                     fillna=fill, variant=variant, cut=t, rows=n)
            if len(bad):
                i = int(bad[0])
                mon.violation(o.id, f'row {i} changes from {fmt(x[i])} to {fmt(y[i])} when rows after {t} are {variant}',
                              params=p, fillna=fill, variant=variant, cut=t)
