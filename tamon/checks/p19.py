"""the caller's data is never modified"""
import copy

from .common import *
from .wrapspec import GROUPS

CASES = dict(quick=9400, thorough=165000)
RULE = ('One evaluation = one construct / getter / convenience-function / wrapper / dropna call with a digest of everything the caller '
        'passed in taken before and after (values, labels, names, types, attrs, the frame and array behind the columns). Distinct by '
        '(case, call, parameters, fillna); non-trivial when the input has more than one row.')


def access(s):
    a = getattr(s.array, '_ndarray', None)
    return None if a is None else a.flags.writeable, s.flags.allows_duplicate_labels


def snap(s):
    return (s.to_numpy(copy=True).tobytes() if s.dtype != object else repr(s.tolist()), str(s.dtype), len(s), repr(s.name),
            s.index.copy(deep=True), list(s.index.names), copy.deepcopy(s.attrs), type(s), access(s))


def changed(a, b):
    for k, what in enumerate(('values', 'dtype', 'length', 'name', 'index', 'index names', 'attrs', 'type', 'write access or flags')):
        if k == 4:
            if not a[4].equals(b[4]):
                return what
        elif a[k] != b[k]:
            return what
    return None


def case(index, rng, mon):
    pd = MODS['pd']
    kind = ['class', 'class', 'func', 'wrapper', 'dropna'][index % 5]
    n = gen.length(rng, mon.tier, big=kind != 'wrapper')
    mkt = gen.market(rng, n)
    mon.cur = mkt
    st = gen.style(rng, plain=.15, dtypes=True)
    mon.ctx = dict(rows=n, kind=mkt.kind, style=st, call=kind)
    data = gen.build(mkt, st, rng)
    if kind in ('wrapper', 'dropna'):
        return frames(rng, mon, mkt, data, kind)
    dirty = rng.random() < .3
    if dirty:                        # missing, infinite and zero entries: a call may refuse them, never repair them in place
        for c, s in list(data.items()):
            v = np.asarray(s, float).copy()
            for j in rng.integers(0, n, 1 + n // 12):
                v[j] = rng.choice([np.nan, np.nan, np.inf, 0.0, -1.0])
            data[c] = pd.Series(v, index=s.index, name=s.name)
        mon.ctx['dirty'] = True
    parent = None
    if rng.random() < .4:            # columns of a frame the caller keeps
        parent = pd.DataFrame({c: np.asarray(s) for c, s in data.items()}, index=data['close'].index)
        parent['extra'] = np.arange(n) * 1.0
        if rng.random() < .5:
            parent = pd.DataFrame(parent.to_numpy(dtype=float), index=parent.index, columns=parent.columns)   # one block
        data = {c: parent[c] for c in data}
        before_parent = parent.copy(deep=True)
    for s in data.values():
        if rng.random() < .3:
            s.attrs['unit'] = ['x', {'y': 1}]
    base = {c: snap(s) for c, s in data.items()}

    def verify(what, p, fill, res=None):
        mon.per[what] += 1
        mon.note((what, pkey(p), fill), n > 1, n, call=what, params=p, rows=n)
        for c, s in data.items():
            w = changed(base[c], snap(s))
            if w:
                mon.violation(what, f'the {w} of the caller\'s {c} column changed', params=p, fillna=fill)
                return False
        if parent is not None and not (parent.equals(before_parent) and list(parent.columns) == list(before_parent.columns)):
            mon.violation(what, 'the frame behind the columns changed', params=p, fillna=fill)
            return False
        for r in res or ():
            for c, s in data.items():
                if r is s:
                    mon.violation(what, f'the result is the caller\'s own {c} column', params=p, fillna=fill)
                    return False
            r.iloc[:] = 0                # editing the result must not reach the caller's data
            for c, s in data.items():
                w = changed(base[c], snap(s))
                if w:
                    mon.violation(what, f'editing the result changed the {w} of the caller\'s {c} column', params=p, fillna=fill)
                    return False
        return True
    for spec, p, fill in run_all(mon, data, n, rng, 8, drop_ok=True, neg_offset=True):
        try:
            if dirty:
                loose(mon, spec, data, p, fill, kind, verify)
                continue
            if kind == 'class':
                obj = mon.new(spec, data, p, fill)
                if not verify(spec.cls, p, fill):
                    return
                for o in spec.outs:
                    r = mon.get(obj, spec, o, p, fill)
                    if not verify(o.id, p, fill, [r]):
                        return
            else:
                for o in spec.outs:
                    if not o.func:
                        continue
                    kw = {k: v for k, v in p.items() if k not in o.drop and k != 'dropnans' and k != 'smoothing_factor'}
                    mon.events['call'] += 1
                    try:
                        r = getattr(MODS[spec.module], o.func)(**{i: data[i] for i in spec.inputs}, **kw, fillna=fill)
                    except Exception as e:
                        mon.raised(o.func + '()', p, fill, 'function', e)
                    if not verify(o.func + '()', p, fill, [r]):
                        return
        except Abort:
            continue


def loose(mon, spec, data, p, fill, kind, verify):
    """the same calls on unclean data, where raising is allowed"""
    if kind == 'class':
        mon.events['construct'] += 1
        try:
            obj = getattr(MODS[spec.module], spec.cls)(**{i: data[i] for i in spec.inputs}, **p, fillna=fill)
        except Exception:
            obj = None
        verify(spec.cls + ' on unclean data', p, fill)
        for o in spec.outs if obj is not None else ():
            mon.events['get'] += 1
            try:
                getattr(obj, o.getter)()
            except Exception:
                pass
            verify(o.id + ' on unclean data', p, fill)
        return
    for o in spec.outs:
        if o.func:
            kw = {k: v for k, v in p.items() if k not in o.drop and k != 'dropnans' and k != 'smoothing_factor'}
            mon.events['call'] += 1
            try:
                getattr(MODS[spec.module], o.func)(**{i: data[i] for i in spec.inputs}, **kw, fillna=fill)
            except Exception:
                pass
            verify(o.func + '() on unclean data', p, fill)


def frames(rng, mon, mkt, data, kind):
    pd = MODS['pd']
    n = mkt.n
    df = pd.DataFrame({c: np.asarray(s) for c, s in data.items()}, index=data['close'].index)
    dirty = kind == 'wrapper' and rng.random() < .3
    if dirty:
        df = df.astype('float64')
        for c in df.columns:
            for j in rng.integers(0, n, 1 + n // 12):
                df.iloc[int(j), df.columns.get_loc(c)] = rng.choice([np.nan, np.nan, np.inf, 0.0, -1.0])
    df['note'] = [f'n{i}' for i in range(n)]
    df['extra'] = np.where(np.arange(n) % 5 == 1, np.nan, 0.0)
    df.attrs['src'] = ['a']
    if rng.random() < .5:
        df = df[list(rng.permutation(df.columns))]
    if kind == 'dropna':
        before = df.copy(deep=True)
        idx = df.index
        mon.events['call'] += 1
        try:
            r = MODS['utils'].dropna(df)
        except Exception as e:
            mon.violation('dropna', f'raised {type(e).__name__}: {str(e)[:200]}')
            return
        mon.per['dropna'] += 1
        mon.note(('dropna',), n > 1, n)
        if r is df:
            mon.violation('dropna', 'returns the caller\'s own frame')
        for k in range(2):
            if not (df.equals(before) and df.index.equals(before.index) and list(df.columns) == list(before.columns)
                    and list(df.dtypes) == list(before.dtypes) and df.attrs == before.attrs and df.index.names == before.index.names):
                mon.violation('dropna', 'the caller\'s frame changed' + (' after writing to the cleaned frame' if k else ''))
                return
            if len(r):               # writing to the result must not reach the caller
                r.iloc[:, r.columns.get_loc('close')] = 0
                r['new'] = 1
        del idx
        return
    which = str(rng.choice(['volume', 'volatility', 'trend', 'momentum', 'others', 'all']))
    fill, vec = bool(rng.random() < .5), bool(rng.random() < .3)
    before = df.copy(deep=True)
    ta = MODS['ta']
    kw = dict(fillna=fill, colprefix=str(rng.choice(['', 'a_'])))
    if which != 'others':
        kw['vectorized'] = vec
    need = {'volume': 'high low close volume', 'volatility': 'high low close', 'trend': 'high low close',
            'momentum': 'high low close volume', 'others': 'close', 'all': 'open high low close volume'}[which].split()
    fn = 'add_all_ta_features' if which == 'all' else f'add_{which}_ta'
    mon.events['wrapper'] += 1
    try:
        r = getattr(ta, fn)(df, **{c: c for c in need}, **kw)
    except Exception as e:
        if not dirty:
            mon.violation(fn, f'raised {type(e).__name__}: {str(e)[:200]}', fillna=fill)
            return
        r = df
    mon.per[fn] += 1
    mon.note((fn, fill, vec), n > 1, n * len(r.columns))
    for name, f in (('returned frame', r), ('passed frame', df)):
        for c in before.columns:
            if c not in f.columns or changed(snap(before[c]), snap(f[c])):
                mon.violation(fn, f'column {c} of the {name} changed', fillna=fill, vectorized=vec)
                return
        if list(f.columns[:len(before.columns)]) != list(before.columns) or not f.index.equals(before.index):
            mon.violation(fn, f'the columns or labels of the {name} were reordered', fillna=fill)
            return
