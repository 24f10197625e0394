"""inside pandas pipelines: per-instrument groups, column-wise application, assign, pipe"""
from .common import *
from .wrapspec import COLUMNS, GROUPS, SLOW

CASES = dict(quick=2600, thorough=45000)
RULE = ('One evaluation = one output computed inside a pandas operation (groupby transform / apply / iteration, column-wise apply, assign, pipe, several '
        'sheets of one frame) over a stacked multi-instrument frame, compared with the indicator class run on each instrument alone. Distinct by (case, '
        'operation, output, parameters, fillna); non-trivial when the output holds at least two different defined values.')
CLOSE1 = [o for c in CLASSES if c.inputs == ('close',) for o in c.outs if o.func]
FUNCS = [o for c in CLASSES for o in c.outs if o.func]


def case(index, rng, mon):
    pd = MODS['pd']
    k = int(rng.integers(2, 6))
    parts = []
    ints = rng.random() < .2
    for j in range(k):
        m = gen.market(rng, int(rng.integers(1, 70)) if rng.random() < .95 else int(rng.integers(70, 500)), mode='int' if ints else None)
        f = pd.DataFrame({c: (m.c[c].astype('i8') if ints and np.abs(m.c[c]).max() < 2 ** 50 else m.c[c]) for c in gen.COLS})
        f['sym'] = 'ABCDE'[j]
        f['t'] = np.arange(m.n) if rng.random() < .7 else np.sort(rng.choice(600, m.n, replace=False))
        parts.append(f)
    df = pd.concat(parts)
    lay = ['stacked', 'interleaved', 'shuffled', 'unique', 'multi', 'multi', 'days', 'days', 'labels', 'labels'][rng.integers(10)]
    if lay == 'interleaved':
        df = df.sort_values('t', kind='stable')
    elif lay == 'shuffled':             # instruments mixed, each still in its own order
        order = rng.permutation(np.repeat(np.arange(k), [len(p) for p in parts]))
        at = [iter(range(len(p))) for p in parts]
        df = pd.concat([parts[j].iloc[[next(at[j])]] for j in order])
    if lay == 'multi':
        t, n = df['t'].to_numpy(), len(df)
        day = t // int(rng.integers(2, 9))
        way = rng.integers(5)
        levels = [df['sym'], t] if way == 0 else [t, df['sym']] if way == 1 else [df['sym'], rng.permutation(n)] if way == 2 else \
            [df['sym'], day, (t + 3) % 5] if way == 3 else [pd.Timestamp('2021-03-01') + pd.to_timedelta(day, unit='D'), (t + 4) % 7]
        df.index = pd.MultiIndex.from_arrays(levels, names=[None] * len(levels) if rng.random() < .4 else ['instrument', 'time', 'bar'][:len(levels)])
    elif lay in ('unique', 'interleaved', 'shuffled'):
        df = df.reset_index(drop=True)
    elif lay == 'days':                 # several bars of an instrument under one label
        df.index = pd.Timestamp('2021-03-01') + pd.to_timedelta(df['t'].to_numpy() // int(rng.integers(2, 7)), unit='D')
    elif lay == 'labels':               # unique labels that are not ascending: downwards, in no order, or text
        way = rng.integers(4)
        lab = np.arange(len(df))[::-1] if way == 0 else rng.permutation(len(df))
        df.index = pd.Timestamp('2021-03-01') + pd.to_timedelta(lab, unit='D') if way == 2 else [f'r{i}' for i in lab] if way == 3 else lab
    df['row'] = np.arange(len(df))
    mon.ctx = dict(rows=len(df), instruments=k, layout=lay, ints=bool(ints))
    mon.cur = None
    alone = {s: df[df['sym'].to_numpy() == s].copy(deep=True) for s in df['sym'].unique()}
    mk = {s: gen.Market({c: g[c].to_numpy(float) for c in gen.COLS}, None, None, 'panel') for s, g in alone.items()}
    before = df.copy(deep=True)

    def expect(o, p, fill):
        res = np.full(len(df), np.nan)
        for s, g in alone.items():
            data = {c: pd.Series(g[c].to_numpy(copy=True)) for c in gen.COLS}
            obj = mon.new(o.cls, data, p, fill)
            res[g['row'].to_numpy()] = mon.arr(mon.get(obj, o.cls, o, p, fill), len(g), o.id, p, fill)
        return res

    def judge(o, p, fill, op, got):
        want = expect(o, p, fill)
        try:
            got = np.asarray(got, float)
        except Exception as e:
            mon.violation(o.func or o.id, f'{op}: result is not numeric ({type(e).__name__})', params=p, fillna=fill)
            return
        mon.per[op] += 1
        mon.note((op, o.id, pkey(p), fill), nontrivial(want), len(want), operation=op, output=o.id, params=p, fillna=fill, instruments=k)
        if got.shape != want.shape:
            mon.violation(o.func or o.id, f'{op}: {got.shape} values for {want.shape} rows', params=p, fillna=fill)
            return
        bad = differ(got, want, 1e-11)
        if len(bad):
            keep = []
            for s, g in alone.items():
                r = g['row'].to_numpy()
                b = np.nonzero(np.isin(r, bad))[0]
                if len(b):
                    keep += list(r[excuse(b, got[r], want[r], ref.model(o.cls, mk[s], p, fill)[o.getter])])
            bad = np.array(sorted(keep), int)
        if len(bad):
            i = int(bad[0])
            mon.violation(o.func or o.id, f'{op}: row {i} ({df["sym"].iloc[i]}) is {fmt(got[i])}, the instrument alone gives {fmt(want[i])} ({len(bad)} rows differ)',
                          params=p, fillna=fill)

    for _ in range(4):
        fill = bool(rng.random() < .5)
        op = ['transform', 'apply', 'iterate', 'columns', 'assign', 'pipe', 'wrapper'][rng.integers(7)]
        o = (CLOSE1 if op in ('transform', 'columns') else FUNCS)[int(rng.integers(len(CLOSE1 if op in ('transform', 'columns') else FUNCS)))]
        p = gen.params(rng, o.cls, 40)
        p.update(o.fixed)
        fn = getattr(MODS[o.cls.module], o.func)
        if 'dropnans' in p:
            p['dropnans'] = False
        kw = {a: v for a, v in p.items() if a not in o.drop}
        kw['fillna'] = fill
        byname = lambda g: fn(**{c: g[c] for c in o.cls.inputs}, **kw)  # noqa
        mon.events[op] += 1
        try:
            try:
                if op == 'transform':
                    got = df.groupby(df['sym'].to_numpy())['close'].transform(lambda s: fn(s, **kw))
                elif op == 'apply':
                    r = df.groupby(df['sym'].to_numpy(), group_keys=False).apply(lambda g: g.assign(out=byname(g).to_numpy()))
                    got = r.sort_values('row')['out']
                elif op == 'iterate':
                    got = np.full(len(df), np.nan)
                    for s, g in df.groupby(df['sym'].to_numpy()):
                        got[g['row'].to_numpy()] = byname(g).to_numpy(float)
                elif op == 'columns':
                    sub = {s: g['close'].reset_index(drop=True) for s, g in alone.items()}
                    m = min(len(x) for x in sub.values())
                    wide = pd.DataFrame({s: x.iloc[:m] for s, x in sub.items()})
                    r = wide.apply(lambda c: fn(c, **kw))
                    got = None
                    for s in sub:
                        d1 = {c: pd.Series(alone[s][c].to_numpy(copy=True)[:m]) for c in gen.COLS}
                        obj = mon.new(o.cls, d1, p, fill)
                        w = mon.arr(mon.get(obj, o.cls, o, p, fill), m, o.id, p, fill)
                        b = differ(np.asarray(r[s], float), w, 1e-11)
                        if len(b):
                            b = excuse(b, np.asarray(r[s], float), w, ref.model(o.cls, mk[s].head(m), p, fill)[o.getter])
                        mon.per[op] += 1
                        mon.note((op, o.id, pkey(p), fill, s), nontrivial(w), m)
                        if len(b):
                            mon.violation(o.func, f'apply over columns: row {int(b[0])} of {s} is {fmt(float(r[s].iloc[b[0]]))}, alone it is {fmt(w[b[0]])}', params=p, fillna=fill)
                elif op == 'assign':
                    got = np.full(len(df), np.nan)
                    for s in alone:
                        g = df.loc[df['sym'].to_numpy() == s].reset_index(drop=True).assign(out=byname, out2=lambda g: g['out'] * 1.0)
                        got[g['row'].to_numpy()] = g['out2'].to_numpy(float)
                elif op == 'pipe':
                    got = np.full(len(df), np.nan)
                    for s in alone:
                        g = df[df['sym'].to_numpy() == s]
                        got[g['row'].to_numpy()] = g.pipe(byname).to_numpy(float)
                else:
                    wrapper(mon, rng, df, alone, mk, fill)
                    got = None
            except Abort:
                raise
            except Exception as e:
                mon.raised(o.func or o.id, p, fill, op, e)
            if got is not None:
                judge(o, p, fill, op, got)
        except Abort:
            continue
    if not df.equals(before):
        mon.violation('panel', 'the stacked frame was changed')


def wrapper(mon, rng, df, alone, mk, fill):
    pd = MODS['pd']
    mon.events['wrapper'] += 1
    r = df.groupby(df['sym'].to_numpy(), group_keys=False).apply(
        lambda g: MODS['ta'].add_all_ta_features(g.copy(), 'open', 'high', 'low', 'close', 'volume', fillna=fill, vectorized=True))
    r = r.sort_values('row')
    promised = [c for g in GROUPS for c, _ in GROUPS[g] if c not in SLOW]
    last = [c for c in promised if c.startswith('others_')]
    for c in sorted({promised[i] for i in rng.choice(len(promised), 12, replace=False)} | {last[rng.integers(len(last))]}):
        cls, p, g = COLUMNS[c]
        spec = BY[cls]
        for s, a in alone.items():
            data = {k: pd.Series(a[k].to_numpy(copy=True)) for k in gen.COLS}
            w = mon.arr(getattr(mon.new(spec, data, p, fill), g)(), len(a), c, p, fill)
            got = r[c].to_numpy(float)[a['row'].to_numpy()]
            b = differ(got, w, 1e-11)
            if len(b):
                b = excuse(b, got, w, ref.model(spec, mk[s], p, fill)[g])
            mon.per['wrapper'] += 1
            mon.note(('wrapper', c, fill, s), nontrivial(w), len(w))
            if len(b):
                mon.violation('add_all_ta_features:' + c, f'per group: row {int(b[0])} of {s} is {fmt(got[b[0]])}, alone it is {fmt(w[b[0]])}', params=p, fillna=fill)
