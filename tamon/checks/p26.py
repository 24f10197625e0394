"""names of the result columns"""
from .common import *

CASES = dict(quick=15300, thorough=270000)
RULE = ('One evaluation = the name carried by one result Series for one set of parameters. Distinct by (output, parameters); non-trivial '
        'when the parameters are not the defaults or the name has no parameters.')


def case(index, rng, mon):
    mkt, st, data = setup(rng, mon, plain=.3, big=False, n=int(rng.integers(1, 60)) if rng.random() < .97 else int(rng.integers(60, 700)))
    for spec, p, fill in run_all(mon, data, mkt.n, rng, 10, drop_ok=True):
        if rng.random() < .05:           # very long windows
            for k, kind, _ in spec.params:
                if kind == 'window' and rng.random() < .7:
                    p[k] = int(rng.integers(200, 10 ** int(rng.integers(3, 6))))
        try:
            res = mon.run(spec, data, p, fill)
        except Abort:
            continue
        for o in spec.outs:
            want = o.name.format(**p)
            mon.per[o.id] += 1
            mon.note((o.id, pkey(p)), '{' not in o.name or p != spec.defaults(), mkt.n, output=o.id, params=p, name=want)
            got = getattr(res[o.getter], 'name', None)
            if got != want:
                mon.violation(o.id, f'result is named {got!r}, documented name is {want!r}', params=p, fillna=fill)
