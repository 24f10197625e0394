"""convenience functions equal their classes"""
from .common import *

CASES = dict(quick=5200, thorough=120000)
RULE = ('One evaluation = one convenience function call (all arguments by name, by position, or defaults only) compared value by value, '
        'label by label and name by name with the getter of the class given the same arguments. Distinct by (case, function, '
        'arguments, calling style); non-trivial when the output holds at least two different defined values.')
FUNCS = [o for c in CLASSES for o in c.outs if o.func]


# classes whose fillna argument is not the last one
FILL_AT = {'KeltnerChannel': 2, 'VolumePriceTrendIndicator': 0}


def order(spec, names, p, fill):
    a = [p[k] for k in names]
    a.insert(FILL_AT.get(spec.cls, len(a)), fill)
    return a


def case(index, rng, mon):
    mkt, st, data = setup(rng, mon, plain=.5, dtypes=True)
    n = mkt.n
    for j in rng.choice(len(FUNCS), 14, replace=False):
        o = FUNCS[int(j)]
        spec = o.cls
        style = ['name', 'name', 'position', 'default', 'partial'][rng.integers(5)]
        p = gen.params(rng, spec, n, neg_offset=True)
        drop = set(o.drop)
        names = [k for k, _, _ in spec.params if k not in drop]
        fill = bool(rng.random() < .5)
        default = {**spec.defaults(), **o.fdef}
        for k, v in o.fixed.items():
            p[k] = v
            default[k] = v
        req = set(spec.need_default)
        if style in ('default', 'partial'):
            give = {k: p[k] for k in names if k in req or (style == 'partial' and rng.random() < .5)}
            for k in names:
                if k not in give:
                    p[k] = default[k]
            fkw = {}
            if style == 'partial':
                fkw = {'fillna': fill}
            else:
                fill = False
            args, kw = [], {**{i: data[i] for i in spec.inputs}, **give, **fkw}
        elif style == 'position':
            args, kw = [data[i] for i in spec.inputs] + order(spec, names, p, fill), {}
        else:
            args, kw = [], {**{i: data[i] for i in spec.inputs}, **{k: p[k] for k in names}, 'fillna': fill}
        fn = getattr(MODS[spec.module], o.func)
        mon.events['call'] += 1
        what = f'{spec.module}.{o.func}'
        try:
            try:
                r = fn(*args, **kw)
            except Exception as e:
                mon.raised(what, p, fill, f'function ({style})', e)
            if style == 'position' and rng.random() < .5:
                mon.events['construct'] += 1
                try:
                    obj = getattr(MODS[spec.module], spec.cls)(*[data[i] for i in spec.inputs],
                                                                *order(spec, [k for k, _, _ in spec.params], p, fill))
                except Exception as e:
                    mon.raised(spec.cls, p, fill, 'constructor (by position)', e)
            else:
                obj = mon.new(spec, data, p, fill)
            s = mon.get(obj, spec, o, p, fill)
            m = len(s) if p.get('dropnans') else n
            a = mon.arr(s, m, o.id, p, fill)
            b = mon.arr(r, m, what, p, fill)
        except Abort:
            continue
        mon.per[o.func] += 1
        mon.note((o.func, style, pkey(p), fill), nontrivial(a), n, function=what, style=style, params=p, fillna=fill, rows=n)
        bad = differ(a, b, 1e-12)
        if len(bad) and not p.get('dropnans'):
            bad = excuse(bad, a, b, ref.model(spec, mkt, p, fill)[o.getter])
        if len(bad):
            i = int(bad[0])
            mon.violation(what, f'({style}) row {i} is {fmt(b[i])}, the class gives {fmt(a[i])}', params=p, fillna=fill)
        elif not r.index.equals(s.index) or r.name != s.name:
            mon.violation(what, f'({style}) labels or name differ from the class', params=p, fillna=fill)
    defaults(rng, mon, data, n)
    alias(rng, mon, data, n)


def defaults(rng, mon, data, n):
    """a class given only some arguments uses the documented defaults for the others"""
    for spec in sample_classes(rng, 4):
        p = gen.params(rng, spec, n, neg_offset=True)
        if rng.random() < .6:        # smaller than the defaults, so that they show on short histories
            p.update({k: int(rng.integers(1, 8)) for k, kind, _ in spec.params if kind == 'window'})
        give = {k: v for k, v in p.items() if k in spec.need_default or rng.random() < .5}
        if rng.random() < .4:
            give = {k: v for k, v in give.items() if k in spec.need_default}
        full = {**spec.defaults(), **give}
        fill = None if rng.random() < .3 else bool(rng.random() < .5)
        try:
            a = mon.run(spec, data, full, bool(fill))
            b = mon.run(spec, data, give, fill)
        except Abort:
            continue
        for o in spec.outs:
            x, y = np.asarray(a[o.getter], float), np.asarray(b[o.getter], float)
            mon.per[spec.cls + ' defaults'] += 1
            mon.note((spec.cls, 'defaults', pkey(give), fill), nontrivial(x), n)
            if len(x) != len(y) or len(differ(x, y, 1e-12)) or a[o.getter].name != b[o.getter].name:
                mon.violation(o.id, f'with only {sorted(give)} given the result is not that of the documented defaults', params=give, fillna=fill)
                break


def alias(rng, mon, data, n):
    """every function is also reachable the documented way: through its module and, for the wrappers, through ta"""
    if rng.random() > .02:
        return
    ta = MODS['ta']
    for f in ('add_all_ta_features', 'add_momentum_ta', 'add_others_ta', 'add_trend_ta', 'add_volatility_ta', 'add_volume_ta'):
        if getattr(ta, f, None) is not getattr(MODS['wrapper'], f):
            mon.violation('ta.' + f, 'is not the wrapper function')
