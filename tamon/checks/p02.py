"""finite memory of windowed indicators"""
from .common import *

CASES = dict(quick=11000, thorough=165000)
RULE = ('One evaluation = one windowed output (fillna off) recomputed after all rows older than its look-back were dropped, replaced or '
        'rescaled; the rows from there on must agree. Distinct by (case, output, parameters, variant); non-trivial when the '
        'compared rows hold at least two different defined values.')


def case(index, rng, mon):
    mkt, st, data = setup(rng, mon, lo=8)
    n = mkt.n
    cut = int(rng.integers(1, n - 1))          # rows < cut are history that changes
    variant = ['drop', 'replace', 'scale', 'freeze'][rng.integers(4)]
    rel = ref.inputs(mkt)
    if variant == 'drop':
        alt = mkt.sub(cut, n)
        d2 = {c: s.iloc[cut:] for c, s in data.items()}
    else:
        alt = mkt.copy()
        if variant == 'replace':
            other = gen.market(rng, cut, mode='int')
            f = 2.0 ** np.round(np.log2(np.median(mkt.c['close']) / np.median(other.c['close'])))
            for c in alt.c:
                alt.c[c][:cut] = other.c[c] * (1 if c == 'volume' else f)
        elif variant == 'scale':
            for c in alt.c:
                alt.c[c][:cut] *= 2.0
        else:
            for c in ('open', 'high', 'low', 'close'):
                alt.c[c][:cut] = mkt.c['close'][0]
            alt.c['volume'][:cut] = 1
        d2 = gen.build(alt, st, rng, idx=data['close'].index)
    for spec in sample_classes(rng, 9, WINDOWED):
        p = gen.params(rng, spec, max(4, n - cut), cap=max(4, min(120 if n < 300 else 400, n - cut)))
        if spec.cls == 'KeltnerChannel':
            p['original_version'] = True
        try:
            a = mon.arrays(spec, data, p, False)
            b = mon.arrays(spec, d2, p, False)
        except Abort:
            continue
        xm = ym = None
        for o in spec.outs:
            L = lookback(o.id, p)
            s = cut + L - 1                    # first row whose look-back starts at `cut`
            if s >= n:
                continue
            x = a[o.getter][s:]
            y = b[o.getter][s - cut:] if variant == 'drop' else b[o.getter][s:]
            bad = differ(x, y)
            if len(bad):
                xm = xm or raw_model(spec, mkt, p, False)
                ym = ym or raw_model(spec, alt, p, False)
                ex = ref.E(x, xm[o.getter].e[s:] + (ym[o.getter].e[s - cut:] if variant == 'drop' else ym[o.getter].e[s:]))
                bad = excuse(bad, x, y, ex)
            mon.per[o.id] += 1
            mon.note((o.id, sorted(map(str, p.items())), variant, cut), nontrivial(x), n - s, output=o.id, params=p,
                     variant=variant, changed_rows=cut, rows=n)
            if len(bad):
                i = int(bad[0])
                mon.violation(o.id, f'row {s + i} changes from {fmt(x[i])} to {fmt(y[i])} when rows before {cut} '
                              f'(outside its look-back of {L} rows) are changed ({variant})', params=p)
