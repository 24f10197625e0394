"""row alignment: results depend on row order only, and carry the input's index"""
from .common import *

CASES = dict(quick=3700, thorough=66000)
RULE = ('One evaluation = one output (or wrapper column) computed on the same bars under two dressings: plain row numbers and another '
        'index kind / memory layout / series names; values by row must agree and the result must carry the input index. Distinct by '
        '(case, output, parameters, fillna, dressing); non-trivial when the output holds at least two different defined values.')


def case(index, rng, mon):
    wrap = index % 12 == 0
    n = gen.length(rng, mon.tier, big=not wrap)
    mkt = gen.market(rng, n)
    mon.cur = mkt
    st = gen.style(rng, plain=0)
    if rng.random() < .9:
        st['index'] = gen.INDEXES[2:][index % len(gen.INDEXES[2:])]
    mon.ctx = dict(rows=n, kind=mkt.kind, style=st)
    plain = gen.build(mkt, gen.style(rng, plain=1.1))
    data = gen.build(mkt, st, rng)
    idx = data['close'].index
    rel = ref.inputs(mkt)
    if wrap:
        return wrapper(rng, mon, mkt, plain, data, st)
    for spec, p, fill in run_all(mon, data, n, rng, 9, neg_offset=True, drop_ok=True):
        drop = p.get('dropnans')
        try:
            if drop:
                a, b = mon.run(spec, plain, p, fill), mon.run(spec, data, p, fill)
                for o in spec.outs:
                    dropped(mon, o, a[o.getter], b[o.getter], idx, p, fill)
                continue
            a = mon.arrays(spec, plain, p, fill)
            b = mon.run(spec, data, p, fill)
            for o in spec.outs:
                s = b[o.getter]
                labels(mon, o.id, s, idx, p, fill)
                same(mon, o, a[o.getter], mon.arr(s, n, o.id, p, fill), f'on a {st["index"]} index', p, fill,
                     lambda: ref.model(spec, mkt, {**p, 'dropnans': False}, fill, rel), key=(st['index'], st['layout']), dressing=st)
        except Abort:
            continue


def labels(mon, what, s, idx, p=None, fill=None):
    if not isinstance(s, MODS['pd'].Series):
        mon.violation(what, f'returned {type(s).__name__}, not a Series', params=p, fillna=fill)
    elif not (s.index.equals(idx) and list(s.index.names) == list(idx.names) and type(s.index) is type(idx)):
        mon.violation(what, f'result index {str(s.index[:3])[:120]} is not the input index {str(idx[:3])[:120]}', params=p, fillna=fill)


def dropped(mon, o, a, b, idx, p, fill):
    k = np.asarray(a.index)
    mon.per[o.id + '/dropnans'] += 1
    mon.note((o.id, 'drop', pkey(p), fill), len(a) > 1, len(a))
    if len(a) != len(b) or not b.index.equals(idx[k]):
        mon.violation(o.id, 'dropnans keeps other rows or labels under another index', params=p, fillna=fill)
    elif len(differ(np.asarray(a, float), np.asarray(b, float), 1e-7)):
        mon.violation(o.id, 'dropnans: values differ under another index', params=p, fillna=fill)


def wrapper(rng, mon, mkt, plain, data, st):
    pd = MODS['pd']
    fill = bool(rng.random() < .5)
    fr = []
    for d in (plain, data):
        df = pd.DataFrame({c: s for c, s in d.items()})
        idx = df.index
        mon.events['wrapper'] += 1
        try:
            r = MODS['ta'].add_all_ta_features(df, 'open', 'high', 'low', 'close', 'volume', fillna=fill)
        except Exception as e:
            mon.violation('add_all_ta_features', f'raised {type(e).__name__}: {str(e)[:200]}', fillna=fill)
            return
        if not r.index.equals(idx) or list(r.index.names) != list(idx.names):
            mon.violation('add_all_ta_features', 'the index of the frame changed', fillna=fill)
            return
        if len(r) != mkt.n:
            mon.violation('add_all_ta_features', f'{len(r)} rows instead of {mkt.n}', fillna=fill)
            return
        fr.append(r)
    a, b = fr
    if list(a.columns) != list(b.columns):
        mon.violation('add_all_ta_features', 'columns depend on the index', fillna=fill)
        return
    models = {}
    from .wrapspec import COLUMNS
    for c in a.columns:
        x, y = np.asarray(a[c], float), np.asarray(b[c], float)
        bad = differ(x, y)
        if len(bad) and c in COLUMNS:
            cls, p, g = COLUMNS[c]
            k = (cls, pkey(p))
            if k not in models:
                models[k] = ref.model(BY[cls], mkt, p, fill)
            bad = excuse(bad, x, y, models[k][g])
        mon.per['wrapper'] += 1
        mon.note(('wrap', c, fill, st['index'], st['layout']), nontrivial(x), mkt.n)
        if len(bad):
            i = int(bad[0])
            mon.violation('add_all_ta_features:' + c, f'row {i}: {fmt(x[i])} on row numbers, {fmt(y[i])} on a {st["index"]} index', fillna=fill)
