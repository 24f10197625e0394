"""fillna=True leaves nothing undefined"""
from .common import *

CASES = dict(quick=9400, thorough=165000)
RULE = ('One evaluation = one output with fillna on: every row must be a finite number, and rows that have no value of their own must '
        'repeat the row before, or (before the first value) hold the neutral level / first value; or one output with and without fillna, whose defined rows must agree. Distinct by (case, output, '
        'parameters); non-trivial when at least one row had to be filled or the output has two different values.')


# second smoothings start earlier when the first one is filled up, KAMA when its window is, flags when their band is
LATER = ('TSIIndicator', 'KAMAIndicator', 'TRIXIndicator', 'MassIndex', 'STCIndicator', 'ppo_signal', 'ppo_hist', 'pvo_signal', 'pvo_hist', 'macd_signal', 'macd_diff')


def kept(o):
    return not (o.cls.cls in LATER or o.getter in LATER or (o.bounds == (0, 1) and o.getter.endswith('_indicator') and 'band' in o.getter))


def case(index, rng, mon):
    mkt, st, data = setup(rng, mon, dtypes=True, calm=True if rng.random() < .3 else None)
    n = mkt.n
    rel = ref.inputs(mkt)
    for spec in sample_classes(rng, 8):
        p = gen.params(rng, spec, n, neg_offset=True)
        if 'dropnans' in p:
            p['dropnans'] = False
        if spec.cls == 'DonchianChannel' and rng.random() < .02:
            p['offset'] = n + int(rng.integers(0, 3))
        try:
            a = mon.arrays(spec, data, p, True)
            plain = mon.arrays(spec, data, p, False) if rng.random() < .5 else None
        except Abort:
            continue
        x = ref.R[spec.cls](rel, p, True)
        for o in spec.outs:
            v, m = a[o.getter], x[o.getter]
            if plain is not None and kept(o):        # rows with a value of their own keep it
                u = plain[o.getter]
                live = np.isfinite(u)
                bad = np.nonzero(live)[0][differ(u[live], v[live])]
                bad = excuse(bad, u, v, m)
                mon.per[o.id + '/kept'] += 1
                mon.note((o.id, pkey(p), 'kept'), nontrivial(u), live.sum(), output=o.id, params=p, rows=n)
                if len(bad):
                    i = int(bad[0])
                    mon.violation(o.id, f'row {i} is {fmt(u[i])} without fillna and {fmt(v[i])} with it', params=p, fillna=True)
            raw = np.isfinite(m.v)
            doubt = np.isinf(m.e)
            hole = ~raw & ~doubt
            mon.per[o.id] += 1
            mon.note((o.id, pkey(p)), bool(hole.any()) or nontrivial(v), n, output=o.id, params=p, rows=n, filled=int(hole.sum()))
            und = np.nonzero(~np.isfinite(v))[0]
            if len(und):
                key = None
                if (hole | doubt).all() and len(und) == n and o.getter in ('psar_up', 'psar_down'):
                    key = o.getter + '-never'
                elif spec.cls == 'DonchianChannel' and abs(p['offset']) >= n and o.neutral == P and len(und) == n:
                    key = 'donchian-offset'
                i = int(und[0])
                mon.violation(o.id, f'row {i} of {n} is still undefined ({v[i]}) with fillna=True', key=key, params=p, fillna=True)
                continue
            if not hole.any() or o.neutral is None:
                continue
            cand = np.nonzero(raw | doubt)[0]
            first = int(cand[0]) if len(cand) else n
            rows = np.nonzero(hole)[0]
            pre = rows[rows < first]
            if o.neutral == P:
                want = np.full(n, v[first] if first < n and not doubt[first] else np.nan)
            elif o.neutral == 'close':
                want = mkt.c['close']
            else:
                want = np.full(n, float(o.neutral))
            bad = [int(i) for i in pre if np.isfinite(want[i]) and v[i] != want[i]]
            if bad:
                i = bad[0]
                mon.violation(o.id, f'row {i} has no value and none before it, expected {fmt(want[i])}, got {fmt(v[i])}',
                              params=p, fillna=True)
                continue
            for i in rows[rows > first]:
                if raw[:i].any() and v[i] != v[i - 1] and not doubt[i - 1]:
                    mon.violation(o.id, f'row {i} has no value of its own and should repeat {fmt(v[i - 1])}, got {fmt(v[i])}',
                                  params=p, fillna=True)
                    break
