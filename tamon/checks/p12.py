"""warm-up: defined from the first row on which enough history exists, and not before"""
from .common import *

CASES = dict(quick=9800, thorough=225000)
RULE = ('One evaluation = one output with fillna off: every row before its warm-up row must be undefined and every later row whose '
        'formula has a value must be defined. Distinct by (case, output, parameters); non-trivial when the history is long enough for '
        'both sides of the warm-up row (or all rows are warm-up rows) and at least one defined row was judged.')
EMPTY_WARMUP = ('AverageTrueRange', 'ADXIndicator')


def case(index, rng, mon):
    mkt, st, data = setup(rng, mon, dtypes=True, mode=None)
    n = mkt.n
    rel = ref.inputs(mkt)
    for spec in sample_classes(rng, 8):
        p = gen.params(rng, spec, n)
        if 'dropnans' in p:
            p['dropnans'] = False
        deflt = rng.random() < .3
        try:
            a = mon.arrays(spec, data, p, None if deflt else False)
        except Abort:
            continue
        x = ref.R[spec.cls](rel, p, False)
        for o in spec.outs:
            f = first_row(o.id, p)
            v = a[o.getter]
            if f is None:                      # one-sided PSAR lines: covered by their formula
                continue
            de = np.isfinite(v)
            mon.per[o.id] += 1
            m = x[o.getter]
            need = np.isfinite(m.v) & ~np.isinf(m.e)
            need[:min(f, n)] = False
            mon.note((o.id, pkey(p)), f >= n or bool(need.any()), n, output=o.id, params=p, rows=n, first=f)
            early = np.nonzero(de[:f])[0]
            if len(early):
                i = int(early[0])
                mon.violation(o.id, f'row {i} is {fmt(v[i])} although the warm-up lasts until row {f}', params=p, fillna=False)
            late = np.nonzero(need & ~de)[0]
            if len(late):
                i = int(late[0])
                mon.violation(o.id, f'row {i} of {n} is undefined; enough history exists from row {f} on', params=p, fillna=False)
