"""dropna keeps exactly the clean rows"""
import math

from .common import *

CASES = dict(quick=32000, thorough=480000)
RULE = ('One evaluation = one frame with missing, zero, infinite and huge values planted, cleaned, and compared row by row with the rule. '
        'Distinct by case; non-trivial when at least one row is kept and one is dropped.')


def case(index, rng, mon):
    pd = MODS['pd']
    n = int(rng.integers(1, 60)) if rng.random() < .9 else int(rng.integers(60, 900))
    st = gen.style(rng, plain=.3)
    mon.ctx = dict(rows=n, style=st)
    idx = gen.index(rng, n, st['index'])
    dens = float(rng.choice([0, .01, .05, .3, .9]))
    cols, clean = [], np.ones(n, bool)
    big = math.exp(709)
    k = int(rng.integers(1, 7))
    kinds = ['float', 'float', 'float', 'int', 'uint', 'float32', 'str', 'date', 'bool', 'obj', 'small', 'big', 'Int64', 'Float64',
             'boolean', 'cat', 'catnum', 'delta', 'string', 'period', 'half', 'datetz']
    used, names = [], []
    for j in range(k):
        kind = str(rng.choice(kinds))
        used.append(kind)
        hit = rng.random(n) < dens
        name = f'{kind}{j}' if rng.random() < .9 else f'Col {j}'
        if kind in ('float', 'float32'):
            dt = 'f8' if kind == 'float' else 'f4'
            v = rng.normal(0, 100, n).astype(dt)
            v[v == 0] = 1
            pick = [np.nan, 0.0, -0.0, np.inf] + ([big, 1.7e308] if kind == 'float' else [])
            odd = rng.integers(0, len(pick), n)
            keepers = [1e-300, -1e-300, 8e307, -8e307, 5e-324, -1.7e308, np.nextafter(big, 0)] if kind == 'float' else [1e-30, -1e30]
            for i in range(n):
                if hit[i]:
                    v[i] = pick[odd[i]]
                elif rng.random() < .1:
                    v[i] = keepers[rng.integers(len(keepers))]
            bad = hit
        elif kind in ('int', 'uint'):
            v = rng.integers(1, 1000, n).astype('i8' if kind == 'int' else 'u4')
            if kind == 'int':
                v[rng.random(n) < .3] *= -1
            v[hit] = 0
            bad = hit
        elif kind == 'str':
            v = np.array([f's{i}' for i in range(n)], dtype=object)
            v[rng.random(n) < .2] = ''
            v[hit] = None
            bad = hit
        elif kind == 'obj':
            v = np.array([(i if i % 2 else 0) for i in range(n)], dtype=object)
            v[hit] = np.nan
            bad = hit
        elif kind == 'date':
            v = pd.Series(pd.date_range('2020', periods=n)).to_numpy().copy()
            v[hit] = np.datetime64('NaT')
            bad = hit
        elif kind == 'small':
            dt = str(rng.choice(['i1', 'u1', 'i2', 'u2', 'i4']))
            v = rng.integers(1, 120, n).astype(dt)
            v[hit] = 0
            bad = hit
        elif kind == 'big':              # beyond 2**53 a float cannot hold every whole number
            dt = str(rng.choice(['i8', 'u8']))
            v = (np.array(2 ** 62, dt) + rng.integers(1, 2 ** 40, n).astype(dt)) | np.array(1, dt)
            if dt == 'i8':
                v[rng.random(n) < .3] *= -1
            v[hit] = 0
            bad = hit
        elif kind in ('Int64', 'Float64'):
            v = rng.integers(1, 1000, n) * (1 if kind == 'Int64' else .25)
            v = pd.Series(pd.array([(pd.NA if rng.random() < .5 else 0) if b else x for x, b in zip(v.tolist(), hit)], dtype=kind))
            bad = hit
        elif kind == 'boolean':
            v = pd.Series(rng.random(n) < .5).astype('boolean').mask(hit)
            bad = hit
        elif kind in ('cat', 'catnum'):
            v = [['u', 'v', ''][x] if kind == 'cat' else [0, 1, 2][x] for x in rng.integers(0, 3, n)]
            v = pd.Series(pd.Categorical([None if b else x for x, b in zip(v, hit)], categories=['u', 'v', ''] if kind == 'cat' else [0, 1, 2]))
            bad = hit
        elif kind == 'delta':
            v = pd.Series(pd.to_timedelta(rng.integers(0, 3, n), unit='D')).mask(hit)
            bad = hit
        elif kind == 'string':
            v = pd.Series(['' if x < .3 else 'w' for x in rng.random(n)], dtype='string').mask(hit)
            bad = hit
        elif kind == 'period':
            v = pd.Series(pd.period_range('2001', periods=n, freq='M')).mask(hit)
            bad = hit
        elif kind == 'datetz':
            v = pd.Series(pd.date_range('2020', periods=n, tz='UTC')).mask(hit)
            bad = hit
        elif kind == 'half':
            v = rng.normal(0, 100, n).astype('f2')
            v[v == 0] = 1
            v[hit] = [np.nan if x else 0 for x in rng.random(hit.sum()) < .5]
            bad = hit
        else:
            v = rng.random(n) < .5
            bad = np.zeros(n, bool)
        cols.append(v)
        names.append(name)
        clean &= ~bad
    df = pd.DataFrame({j: (v.array if hasattr(v, 'array') else v) for j, v in enumerate(cols)}, index=idx)
    r = rng.random()
    if r < .6:
        df.columns = names
    elif r < .7:                         # labels that repeat
        df.columns = [names[0] if rng.random() < .6 else x for x in names]
    elif r < .8:
        df.columns = [int(x) for x in rng.permutation(k)]
    elif r < .9:
        df.columns = pd.MultiIndex.from_tuples([(x[:1], x) for x in names])
    mon.ctx['labels'] = [str(c) for c in df.columns]
    if rng.random() < .2:
        df.attrs['src'] = 'a'
    if rng.random() < .3 and k > 1:      # a slice of a wider frame
        df = pd.concat([df, df.iloc[:, :1]], axis=1).iloc[:, :k]
    try:
        mon.events['call'] += 1
        out = MODS['utils'].dropna(df)
    except Exception as e:
        mon.violation('dropna', f'raised {type(e).__name__}: {str(e)[:200]}', columns=used)
        return
    mon.per['dropna'] += 1
    mon.note(('dropna',), bool(clean.any() and not clean.all()), n, rows=n, kept=int(clean.sum()), columns=used, index=st['index'])
    want = df[clean]
    if list(out.columns) != list(df.columns):
        mon.violation('dropna', 'columns changed', columns=used)
        return
    if len(out) != len(want) or not out.index.equals(want.index):
        mon.violation('dropna', f'{len(out)} rows kept, {len(want)} are clean (first clean rows {np.nonzero(clean)[0][:5].tolist()})',
                      columns=used)
        return
    if not out.columns.equals(df.columns) or out.index.names != df.index.names:
        mon.violation('dropna', 'labels changed', columns=used)
        return
    for j in range(k):
        if want.iloc[:, j].tolist() != out.iloc[:, j].tolist():
            mon.violation('dropna', f'values of kept rows changed in column {j} ({used[j]})', columns=used)
            return
    try:
        again = MODS['utils'].dropna(out)
    except Exception as e:
        mon.violation('dropna', f'raised {type(e).__name__} on its own result: {str(e)[:200]}', columns=used)
        return
    if len(again) != len(out):
        mon.violation('dropna', 'cleaning a clean frame drops rows', columns=used)
