"""Workload generator: OHLCV histories, Series dressings (index, dtype, memory layout) and parameters.

Prices are integers counted in a power-of-two tick, so that sums, differences and ties are exact in
float64 and degenerate situations (flat windows, zero ranges, zero volume, exact ties) really happen."""
import numpy as np
import pandas as pd

COLS = ('open', 'high', 'low', 'close', 'volume')


class Market:
    """open/high/low/close/volume as float64 arrays; tick: grid of the prices (None: free floats);
    vtick: grid of the volumes."""

    def __init__(self, cols, tick, vtick, kind):
        self.c, self.tick, self.vtick, self.kind = cols, tick, vtick, kind
        self.n = len(cols['close'])

    def head(self, k):
        return Market({a: v[:k].copy() for a, v in self.c.items()}, self.tick, self.vtick, self.kind)

    def sub(self, a, b):
        return Market({x: v[a:b].copy() for x, v in self.c.items()}, self.tick, self.vtick, self.kind)

    def scaled(self, pf=1.0, vf=1.0):
        c = {a: v * (vf if a == 'volume' else pf) for a, v in self.c.items()}
        return Market(c, None if self.tick is None else self.tick * pf,
                      None if self.vtick is None else self.vtick * vf, self.kind)

    def copy(self):
        return self.sub(0, self.n)


SEGS = ['walk', 'walk', 'walk', 'up', 'down', 'flat', 'dead', 'alt', 'gap', 'quiet', 'limit', 'spike', 'repeat',
        'inside', 'tie']
VSEGS = ['rand', 'rand', 'rand', 'const', 'zero', 'rise', 'fall', 'spike', 'tie']


def _prices(rng, n, base, calm):
    o, h, l, c = (np.zeros(n) for _ in range(4))
    p = base
    sd = max(1.0, base * rng.choice([0.002, 0.01, 0.03]))
    segs = ['walk', 'up', 'down', 'quiet'] if calm else SEGS
    i = 0
    used = set()
    while i < n:
        kind = segs[rng.integers(len(segs))]
        ln = int(rng.integers(1, 31 if rng.random() < .8 else 70))
        used.add(kind)
        start = i
        for j in range(ln):
            if i >= n:
                break
            op = p
            up = dn = 0
            if kind == 'walk':
                p += int(round(rng.normal(0, sd)))
                up, dn = int(abs(rng.normal(0, sd))), int(abs(rng.normal(0, sd)))
            elif kind == 'up':
                p += int(rng.integers(1, 2 + sd))
                up, dn = int(rng.integers(0, 3)), int(rng.integers(0, 3))
            elif kind == 'down':
                p -= int(rng.integers(1, 2 + sd))
                up, dn = int(rng.integers(0, 3)), int(rng.integers(0, 3))
            elif kind == 'flat':
                up, dn = 2, 2
            elif kind == 'dead':
                pass
            elif kind == 'alt':
                p += int(sd) * (1 if j % 2 else -1)
                up = dn = 1
            elif kind == 'gap':
                if j == 0:
                    p = int(p * rng.choice([0.7, 0.85, 1.15, 1.4]))
                    op = p
                p += int(rng.integers(-2, 3))
                up, dn = int(rng.integers(0, 4)), int(rng.integers(0, 4))
            elif kind == 'quiet':
                p += int(rng.integers(-1, 2))
                up, dn = int(rng.integers(0, 2)), int(rng.integers(0, 2))
            elif kind == 'limit':
                p += int(round(rng.normal(0, sd)))
                op = p
            elif kind == 'spike':
                if j == ln // 2:
                    up, dn = int(base * rng.random() * .3), int(base * rng.random() * .1)
                p += int(rng.integers(-2, 3))
            elif kind == 'repeat' and start >= 3:
                k = start - 1 - (j % 3)
                p = int(c[k])
                op = int(o[k])
                up, dn = int(h[k] - max(op, p)), int(min(op, p) - l[k])
            elif kind == 'inside':
                r = max(0, ln - j)
                p += int(rng.integers(-1, 2))
                up = dn = r
            elif kind == 'tie':
                p = int(round(p / 8) * 8) + int(rng.choice([-8, 0, 8]))
                up, dn = int(rng.choice([0, 8])), int(rng.choice([0, 8]))
            lo = max(16, int(base * 0.15))
            if p < lo:
                p = lo + (lo - p)
                p = min(p, base)
            if p > base * 12:
                p = base * 12
            op = min(max(op, lo), base * 12)
            hi, lw = max(op, p) + up, max(min(op, p) - dn, 8)
            o[i], h[i], l[i], c[i] = op, hi, lw, p
            i += 1
    return o, h, l, c, used


def _volume(rng, n, calm, vbase):
    v = np.zeros(n)
    i = 0
    while i < n:
        kind = 'rand' if calm else VSEGS[rng.integers(len(VSEGS))]
        ln = int(rng.integers(1, 45))
        cur = float(int(vbase * (0.2 + rng.random())) + 1)
        for j in range(ln):
            if i >= n:
                break
            if kind == 'rand':
                x = int(vbase * np.exp(rng.normal(0, .6))) + 1
            elif kind == 'const':
                x = cur
            elif kind == 'zero':
                x = 0
            elif kind == 'rise':
                x = cur = cur + int(rng.integers(1, 50))
            elif kind == 'fall':
                x = cur = max(1, cur - int(rng.integers(1, 50)))
            elif kind == 'spike':
                x = vbase * 40 if j == ln // 2 else vbase
            else:
                x = int(rng.choice([1, 2, 3])) * vbase
            v[i] = int(x)
            i += 1
    return v


def length(rng, tier, lo=1, big=True):
    r = rng.random()
    if r < .12:
        n = int(rng.integers(1, 14))
    elif r < .5:
        n = int(rng.integers(10, 80))
    elif r < .93 or not big:
        n = int(rng.integers(60, 260))
    elif r < .99:
        n = int(rng.integers(260, 700 if tier == 'quick' else 1500))
    elif r < .999:
        n = int(rng.integers(700, 2200 if tier == 'quick' else 5000))
    else:
        n = int(rng.integers(2200, 9000 if tier == 'quick' else 20000))
    return max(n, lo)


def market(rng, n, mode=None, calm=None, base=None, small_v=False):
    """mode: 'int' (tick 1), 'grid', 'cents' (decimal floats), 'raw' (arbitrary floats), 'scaled' (grid, extreme unit)"""
    if mode is None:
        mode = rng.choice(['int', 'grid', 'grid', 'grid', 'cents', 'raw', 'scaled'])
    if calm is None:
        calm = rng.random() < .25
    if base is None:
        base = int(rng.choice([200, 640, 2000, 6400, 20000, 200000]))
    o, h, l, c, used = _prices(rng, n, base, calm)
    vb = int(rng.choice([40, 1000, 20000]) if small_v else rng.choice([40, 1000, 50000, 3000000, 600000000, 2 ** 37]))
    v = _volume(rng, n, calm, vb)
    if not calm and rng.random() < .04:
        v[:] = 0
    tick, vtick = 1.0, 1.0
    if mode in ('grid', 'scaled'):
        tick = 2.0 ** -int(rng.integers(1, 8))
        if mode == 'scaled':
            tick *= 2.0 ** int(rng.choice([-24, -16, -10, 10, 20, 30]))
        if rng.random() < .3:        # ticks divisible by three: typical prices stay exact
            o, h, l, c = 3 * o, 3 * h, 3 * l, 3 * c
        if mode == 'scaled':
            vtick = 2.0 ** int(rng.choice([-12, -6, 0, 8]))
    elif mode == 'cents':
        tick = None
        o, h, l, c = (np.round(x * .01, 2) for x in (o, h, l, c))
    elif mode == 'raw':
        tick = None
        f = float(np.exp(rng.normal(0, 1)))
        k = c.copy()
        noise = np.exp(rng.normal(0, 2e-3, n))
        o, h, l, c = (x * f * noise for x in (o, h, l, c))
        if rng.random() < .5:
            v = v * 1.37
            vtick = None
        del k
    if tick is not None:
        o, h, l, c = (x * tick for x in (o, h, l, c))
    if vtick is not None and vtick != 1.0:
        v = v * vtick
    cols = dict(open=o, high=h, low=l, close=c, volume=v)
    if not calm and rng.random() < .06:
        return leaps(rng, Market(cols, tick, vtick, f"{mode}/leaps+{'+'.join(sorted(used))}"))
    return Market(cols, tick, vtick, f"{mode}/{'calm' if calm else '+'.join(sorted(used))}")


def signed(mkt):
    """the closes moved around zero: what another indicator's output looks like"""
    m = mkt.copy()
    c = m.c['close']
    mid = c[len(c) // 2]
    m.c['close'] = c - mid
    m.kind += '/signed'
    return m


def rebased(rng, mkt):
    """the price level (a redenomination, a collapse, a mania) or the volume level moves by orders of magnitude inside the history"""
    m = mkt.copy()
    k = int(rng.integers(0, m.n))
    f = 2.0 ** int(rng.choice([8, 14, 20, 28, 34, 40]))
    part = slice(0, k) if rng.random() < .5 else slice(k, m.n)
    cols = ('volume',) if rng.random() < .3 else ('open', 'high', 'low', 'close')
    for c in cols:
        m.c[c][part] *= f
    m.kind += '/rebased'
    return m


def leaps(rng, mkt):
    """overnight multiplications of the price (splits, reverse splits, collapses, manias) and single bars with a far high or low"""
    c, n = mkt.c, mkt.n
    px = ('open', 'high', 'low', 'close')
    for _ in range(int(rng.integers(1, 5))):
        k, f = int(rng.integers(0, n)), int(rng.choice([2, 3, 4, 5, 8, 10]))
        if rng.random() < .3:        # at the very beginning or end
            k = min(n - 1, int(rng.integers(0, 4))) if rng.random() < .6 else max(0, n - 1 - int(rng.integers(0, 3)))
        r = rng.random()
        if r < .35:
            for a in px:
                c[a][k:] = c[a][k:] * f
        elif r < .7:
            for a in px:
                c[a][:k] = c[a][:k] * f
        elif r < .85:
            c['high'][k] = c['high'][k] * f
        else:
            for a in px:
                c[a] = c[a] * f
            c['low'][k] = c['low'][k] / f
    return mkt


# ------------------------------------------------------------------ dressing
INDEXES = ['range', 'range', 'range_off', 'range_step', 'int_perm', 'int_desc', 'int_neg', 'int_dup', 'float', 'float01',
           'str', 'date', 'date_tz', 'date_desc', 'date_dup', 'intraday', 'period', 'timedelta', 'multi', 'categorical', 'object',
           'bool', 'interval', 'multi3', 'multi_dup', 'uint', 'string', 'date_dst', 'date_perm', 'all_same']


def index(rng, n, kind):
    if kind == 'range':
        return pd.RangeIndex(n)
    if kind == 'range_off':
        return pd.RangeIndex(7, 7 + n)
    if kind == 'range_step':
        return pd.RangeIndex(0, 3 * n, 3)
    if kind == 'int_perm':
        return pd.Index(rng.permutation(n))
    if kind == 'int_desc':
        return pd.Index(np.arange(n)[::-1])
    if kind == 'int_neg':
        return pd.Index(np.arange(n) - n // 2)
    if kind == 'int_dup':
        return pd.Index(rng.integers(0, max(1, n // 3) + 1, n))
    if kind == 'float':
        return pd.Index(np.arange(n) * 1.0 + 5.5)
    if kind == 'float01':
        return pd.Index(np.linspace(0, 1, n)) if n > 1 else pd.Index([0.25])
    if kind == 'str':
        return pd.Index([f'r{(i * 7919) % 10007}_{i}' for i in range(n)], dtype=object)
    if kind == 'date':
        return pd.date_range('2015-01-01', periods=n, freq='B')
    if kind == 'date_tz':
        return pd.date_range('2019-03-01', periods=n, freq='6h', tz='America/New_York')
    if kind == 'date_desc':
        return pd.date_range('2015-01-01', periods=n, freq='D')[::-1]
    if kind == 'date_dup':
        return pd.DatetimeIndex(np.repeat(pd.date_range('2015-01-01', periods=(n + 1) // 2).values, 2)[:n])
    if kind == 'intraday':       # several sessions with gaps
        k = np.arange(n)
        t0 = np.datetime64('2020-01-01T09:30', 'm')
        return pd.DatetimeIndex((t0 + ((k // 7) * 1440 + (k % 7) * 30).astype('timedelta64[m]')).astype('M8[ns]'))
    if kind == 'period':
        return pd.period_range('2001-01', periods=n, freq='M')
    if kind == 'timedelta':
        return pd.TimedeltaIndex((np.arange(n) * 17 + 60).astype('m8[m]').astype('m8[ns]'))
    if kind == 'multi':
        return pd.MultiIndex.from_arrays([['A' if i % 2 else 'B' for i in range(n)], list(range(n))], names=['sym', 'i'])
    if kind == 'categorical':
        return pd.CategoricalIndex([f'c{i}' for i in range(n)])
    if kind == 'object':
        return pd.Index([(i if i % 2 else f's{i}') for i in range(n)], dtype=object)
    if kind == 'bool':
        return pd.Index([bool(i % 2) for i in range(n)])
    if kind == 'interval':
        return pd.IntervalIndex.from_breaks(np.arange(n + 1) * 1.0)
    if kind == 'multi3':
        return pd.MultiIndex.from_arrays([[f'm{i // 50}' for i in range(n)], [i % 50 for i in range(n)], list(range(n))[::-1]],
                                         names=['a', None, 'close'])
    if kind == 'multi_dup':
        return pd.MultiIndex.from_arrays([['A'] * n, [i // 2 for i in range(n)]])
    if kind == 'uint':
        return pd.Index(np.arange(n, dtype='u8') + np.uint64(2 ** 63))
    if kind == 'string':
        return pd.Index([f's{i}' for i in range(n)], dtype='string')
    if kind == 'date_dst':       # hours around both clock changes
        return pd.date_range('2020-10-24', periods=n, freq='h', tz='Europe/Madrid')
    if kind == 'date_perm':
        return pd.date_range('2011-01-01', periods=n, freq='D')[rng.permutation(n)]
    if kind == 'all_same':
        return pd.Index([5] * n)
    raise ValueError(kind)


LAYOUTS = ['own', 'own', 'frame', 'strided', 'readonly', 'reversed', 'list']


def style(rng, plain=.35, dtypes=False):
    s = dict(index='range', layout='own', pdt='f8', vdt='f8', names='plain', iname=None)
    if rng.random() < plain:
        return s
    s['index'] = str(rng.choice(INDEXES))
    s['layout'] = str(rng.choice(LAYOUTS))
    s['names'] = str(rng.choice(['plain', 'none', 'same', 'odd']))
    s['iname'] = None if rng.random() < .7 else str(rng.choice(['when', 'close', 'index']))
    if dtypes:
        s['pdt'] = str(rng.choice(['f8', 'i8', 'i8', 'i4']))
        s['vdt'] = str(rng.choice(['f8', 'i8', 'i8', 'i4', 'u8', 'u4']))
    return s


def _cast(v, dt, tick, vol=False):
    if dt == 'f8':
        return v.astype('f8')
    if tick is None or not np.all(np.isfinite(v)) or not np.all(v == np.floor(v)):
        return v.astype('f8')
    info = np.iinfo(dt)
    room = 1 if vol else 8        # narrow price columns keep room for the sum of three prices
    if len(v) and (v.max() > info.max // room or v.min() < info.min // room):
        dt = 'i8'
        if len(v) and max(v.max(), -v.min()) > 2 ** 63 // (64 * room):
            return v.astype('f8')
    if vol and np.abs(v).sum() > 2.0 ** 61:          # sums of volumes stay inside 64 bits
        return v.astype('f8')
    return v.astype(dt)


def build(mkt, st, rng=None, cols=COLS, idx=None):
    """Series for the columns, dressed as `st` says."""
    n = mkt.n
    rng = rng or np.random.default_rng(0)
    if idx is None:
        idx = index(rng, n, st['index'])
    if st.get('iname') and not isinstance(idx, pd.MultiIndex):
        idx = idx.rename(st['iname'])
    arrs = {}
    for c in cols:
        dt = st['vdt'] if c == 'volume' else st['pdt']
        arrs[c] = _cast(mkt.c[c], dt, mkt.vtick if c == 'volume' else mkt.tick, c == 'volume')
    names = {'plain': {c: c for c in cols}, 'none': {c: None for c in cols}, 'same': {c: 'x' for c in cols},
             'odd': {c: ('lvl', c) for c in cols}}[st['names']]
    out = {}
    lay = st['layout']
    if lay == 'frame':
        df = pd.DataFrame({c: arrs[c] for c in cols}, index=idx)
        for c in cols:
            s = df[c]
            s.name = names[c]
            out[c] = s
        return out
    for c in cols:
        a = arrs[c]
        if lay == 'strided':
            b = np.zeros(2 * n, a.dtype)
            b[::2] = a
            b[1::2] = 77
            a = b[::2]
        elif lay == 'reversed':
            a = np.ascontiguousarray(a[::-1])[::-1]
        elif lay == 'readonly':
            a = a.copy()
            a.flags.writeable = False
        elif lay == 'list':
            a = a.copy()
        else:
            a = a.copy()
        if lay == 'list':
            s = pd.Series(a.tolist(), index=idx, name=names[c], dtype=a.dtype)
        else:
            s = pd.Series(a, index=idx, name=names[c], copy=False)
        out[c] = s
    return out


# ------------------------------------------------------------------ parameters
def window(rng, n, default, cap=250):
    r = rng.random()
    if r < .2:
        w = default or 10
    elif r < .42:
        w = int(rng.integers(1, 7))
    elif r < .75:
        w = int(rng.integers(2, 31))
    elif r < .88:
        w = int(rng.integers(5, 70))
    elif r < .96:
        w = max(1, min(max(cap, 1), n + int(rng.integers(-3, 4))))
    elif r < .99 or cap < 250:
        w = int(rng.integers(30, cap)) if cap > 30 else max(1, cap)
    else:
        w = int(rng.integers(100, max(600, min(n, 4000000 // max(n, 1)))))
    return w


def params(rng, spec, n, neg_offset=False, default_rate=.12, npint=.1, cap=250):
    if rng.random() < default_rate:
        return spec.defaults()
    out = {}
    small = rng.random() < .5     # keep several windows small together so that long chains get defined
    for name, kind, d in spec.params:
        if kind == 'window':
            if small:
                w = int(rng.integers(1, 12))
            else:
                w = window(rng, n, d, cap)
            out[name] = np.int64(w) if rng.random() < npint else w
        elif kind == 'weight':
            out[name] = float(rng.choice([0.0, 0.5, 1.0, 2.0, 3.0, 4.0, 7.5, 25.0]))
        elif kind == 'pow1':
            out[name] = int(rng.integers(1, 15 if rng.random() < .8 else 60))
        elif kind == 'pow2':
            out[name] = int(rng.integers(5, 60)) if rng.random() < .8 else int(rng.integers(1, 300))
        elif kind == 'bool':
            out[name] = bool(rng.random() < .5)
        elif kind == 'constant':
            out[name] = float(rng.choice([0.015, 0.01, 0.02, 1.0, 0.3, 0.001, 5.0]))
        elif kind == 'dev':
            out[name] = [1, 2, 3, 1.5, 2.5, 0.5, 0, 7, 1, 2, 0.1, 12][rng.integers(12)]
        elif kind == 'mult':
            out[name] = [1, 2, 3, 1.5, 0.75, 0, 5, 10, 2.25, 2][rng.integers(10)]
        elif kind == 'offset':
            k = int(rng.choice([0, 0, 0, 1, 2, 5, 13, 21, 60]))
            if neg_offset and rng.random() < .2:
                k = -k
            out[name] = k if abs(k) < n else 0
        elif kind == 'step':
            out[name] = float(rng.choice([0.02, 0.01, 0.05, 0.1, 0.0625, 0.005, 0.15, 0.3, 0.5, 0.001]))
        elif kind == 'max_step':
            out[name] = float(rng.choice([0.2, 0.1, 0.3, 0.5, 0.25, 0.07, 0.04, 0.02, 0.8, 1.0]))
        elif kind == 'smoothing':
            out[name] = None if rng.random() < .5 else int(rng.integers(1, 20)) if rng.random() < .8 else np.int64(rng.integers(1, 90))
        else:
            raise ValueError(kind)
    same = [k for k, kind, _ in spec.params if kind == 'window']
    if len(same) > 1 and rng.random() < .1:          # several windows of the same length
        for k in same if rng.random() < .4 else [k for k in same if rng.random() < .6]:
            out[k] = out[same[0]]
    ws = [k for k, kind, _ in spec.params if kind == 'weight']
    if ws and not any(out[k] for k in ws):
        out[ws[0]] = 1.0
    if 'max_step' in out:
        out['max_step'] = max(out['max_step'], out['step'])
    return out
