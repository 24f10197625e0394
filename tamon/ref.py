"""Executable reference model: every output of ta recomputed from its published formula with plain
numpy windows and explicit recursions (no pandas rolling/ewm), together with a bound on the rounding
error any reasonable float64 implementation may show.  Rows whose value is decided by rounding noise
(0/0 after cancellation, a comparison of two nearly equal inexact numbers) carry an infinite bound and
are not judged."""
import math

import numpy as np

from .registry import CLASSES

EPS = 2.3e-16
NAN = np.nan
INF = np.inf


class E:
    """array of values with an error bound per row; g: power-of-two grid on which all values lie exactly"""
    __slots__ = ('v', 'e', 'g')

    def __init__(self, v, e=None, g=None):
        self.v = np.asarray(v, float)
        self.e = np.zeros(len(self.v)) if e is None else e
        self.g = g

    def __len__(self):
        return len(self.v)

    def __neg__(self):
        return E(-self.v, self.e, self.g)

    def __add__(self, o):
        return _lin(self, o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return _lin(self, o, -1)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = _lift(o, len(self))
        with np.errstate(all='ignore'):
            v = self.v * o.v
            e = np.abs(self.v) * o.e + np.abs(o.v) * self.e + self.e * o.e
            e = np.where((self.v == 0) & (self.e == 0) | (o.v == 0) & (o.e == 0), 0, e)
            g = _gmul(self, o, v)
            if g is None:
                e = e + EPS * np.abs(v)
        return _fix(v, e, g, self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _lift(o, len(self))
        with np.errstate(all='ignore'):
            v = self.v / o.v
            d = np.abs(o.v)
            room = d - o.e
            e = (self.e + np.abs(v) * o.e) / room + EPS * np.abs(v)
            e = np.where((o.e > 0) & (d <= 1e3 * o.e), INF, e)
            exact0 = (o.v == 0) & (o.e == 0)
            # x/0: undefined, whatever the numerator, provided that is not in doubt
            e = np.where(exact0, 0, e)
            g = None
            m, ex = np.frexp(d)
            if self.g is not None and len(d) and np.all(m == 0.5) and np.all(d == d[0]):
                g = self.g / d[0]
                e = np.where(exact0, 0, self.e)
        return _fix(v, e, g, self, o)

    def __rtruediv__(self, o):
        return _lift(o, len(self)) / self

    def abs(self):
        return E(np.abs(self.v), self.e, self.g)

    def shift(self, k, fill=NAN):
        v = np.full(len(self), fill, float)
        e = np.zeros(len(self))
        n = len(self)
        if k >= 0:
            if k < n:
                v[k:] = self.v[:n - k]
                e[k:] = self.e[:n - k]
        elif -k < n:
            v[:n + k] = self.v[-k:]
            e[:n + k] = self.e[-k:]
        return E(v, e, self.g)

    def diff(self):
        return self - self.shift(1)

    def third(self):
        """x / 3 keeping the grid where it divides exactly"""
        r = self / 3.0
        if self.g is not None:
            q = r.v / self.g
            ok = np.isnan(q) | (q == np.round(q))
            if ok.all() and np.all((self.v == 3 * r.v) | np.isnan(q)):
                r.g, r.e = self.g, self.e
        return r


def _lift(o, n):
    if isinstance(o, E):
        return o
    o = float(o)
    g = None
    if o == 0:
        g = 1.0
    elif math.isfinite(o):
        m, x = math.frexp(abs(o))
        while m != int(m):
            m *= 2
            x -= 1
        if m < 2 ** 12:
            g = 2.0 ** x
    return E(np.full(n, o), None, g)


def _ok(v, g):
    f = v[np.isfinite(v)]
    return len(f) == 0 or np.max(np.abs(f)) / g < 2 ** 51


def _gmul(a, b, v):
    if a.g is None or b.g is None:
        return None
    g = a.g * b.g
    return g if g > 0 and _ok(v, g) else None


def _lin(a, o, s):
    o = _lift(o, len(a))
    with np.errstate(all='ignore'):
        v = a.v + s * o.v
        e = a.e + o.e
        g = None
        if a.g is not None and o.g is not None:
            g = min(a.g, o.g)
            if not _ok(v, g):
                g = None
        if g is None:
            # x + 0 and x - x are exact; otherwise allow for a regrouping of the terms
            plain = (a.v == 0) & (a.e == 0) | (o.v == 0) & (o.e == 0) | (v == 0) & (e == 0)
            e = e + np.where(plain, 0, EPS * np.maximum(np.abs(a.v), np.abs(o.v)))
    return _fix(v, e, g, a, o)


def _fix(v, e, g, *src):
    bad = np.zeros(len(v), bool)
    for s in src:
        bad |= np.isinf(s.e)
    e = np.where(np.isnan(v) | np.isinf(v), np.where(np.isinf(e), INF, 0.0), e)
    e = np.where(bad, INF, e)
    e = np.where(np.isnan(e), INF, e)
    return E(v, e, g)


def lt(a, b):
    """a < b: truth and whether that is certain"""
    a, b = (a, _lift(b, len(a))) if isinstance(a, E) else (_lift(a, len(b)), b)
    with np.errstate(all='ignore'):
        t = a.v < b.v
        err = a.e + b.e
        sure = (err == 0) | (np.abs(a.v - b.v) > 100 * err) | np.isnan(a.v) & ~np.isinf(a.e) | np.isnan(b.v) & ~np.isinf(b.e)
        sure &= ~np.isinf(err)
    return t, sure


def where(cond_sure, x, y):
    """x where cond else y; doubt adds the distance of the two"""
    c, sure = cond_sure
    n = len(c)
    x, y = _lift(x, n), _lift(y, n)
    v = np.where(c, x.v, y.v)
    e = np.where(c, x.e, y.e)
    with np.errstate(all='ignore'):
        d = np.abs(x.v - y.v)
    e = np.where(sure, e, np.where(np.isnan(d), INF, e + d))
    g = min(x.g, y.g) if x.g is not None and y.g is not None else None
    return E(v, e, g)


def maximum(a, b, skipna=False):
    f = np.fmax if skipna else np.maximum
    v = f(a.v, b.v)
    g = min(a.g, b.g) if a.g is not None and b.g is not None else None
    return E(v, np.where(np.isnan(v), 0, np.maximum(a.e, b.e)), g)


def minimum(a, b, skipna=False):
    f = np.fmin if skipna else np.minimum
    v = f(a.v, b.v)
    g = min(a.g, b.g) if a.g is not None and b.g is not None else None
    return E(v, np.where(np.isnan(v), 0, np.maximum(a.e, b.e)), g)


def _win(x, w, fill=NAN):
    w = int(w)
    p = np.concatenate([np.full(w - 1, fill), x])
    return np.lib.stride_tricks.sliding_window_view(p, w)


def _runmax(x):
    f = np.where(np.isfinite(x), np.abs(x), 0)
    return np.maximum.accumulate(f) if len(f) else f


def _counts(x, w):
    f = np.isfinite(x.v)
    cnt = _win(f.astype(float), w, 0).sum(1)
    bad = _win(np.isinf(x.e).astype(float), w, 0).any(1)
    return f, cnt, bad


def roll(x, w, minp, kind):
    """pandas rolling semantics: needs max(minp, 1) defined values, except that the sum of none is 0
    when minp is 0; infinite entries count as undefined"""
    w = int(w)
    n = len(x)
    f, cnt, bad = _counts(x, w)
    with np.errstate(all='ignore'):
        z = _win(np.where(f, x.v, 0), w, 0)
        ez = _win(np.where(f, x.e, 0), w, 0)
        need = minp if kind == 'sum' else max(minp, 1)
        have = cnt >= need
        g = None
        if kind in ('sum', 'mean'):
            v = z.sum(1)
            e = ez.sum(1)
            exact = x.g is not None and _ok(v, x.g) and _ok(np.cumsum(np.abs(np.where(f, x.v, 0))), x.g)
            if exact:
                g = x.g
            else:
                e = e + 4 * EPS * np.minimum(w, np.arange(n) + 1) * _runmax(np.where(f, x.v, 0))
                # nothing but exact zeros so far: an exact zero
                e = np.where(np.cumsum(np.where(f, np.abs(x.v) + x.e, 0)) == 0, 0, e)
            if kind == 'mean':
                c = np.where(cnt == 0, NAN, cnt)
                v = v / c
                e = e / c
                e2 = e + EPS * np.abs(v)
                if exact:
                    mx = _win(np.where(f, x.v, -INF), w, -INF).max(1)
                    mn = _win(np.where(f, x.v, INF), w, INF).min(1)
                    e2 = np.where((mx == mn) & (e == 0), 0, e2)
                e = e2
                g = None
        elif kind == 'max':
            v = _win(np.where(f, x.v, -INF), w, -INF).max(1)
            e = ez.max(1)
            g = x.g
        elif kind == 'min':
            v = _win(np.where(f, x.v, INF), w, INF).min(1)
            e = ez.max(1)
            g = x.g
        elif kind == 'std':
            c = np.where(cnt == 0, NAN, cnt)
            m = z.sum(1) / c
            fw = _win(f.astype(float), w, 0)
            var = (((z - m[:, None]) * fw) ** 2).sum(1) / c
            hi = np.maximum.accumulate(np.where(f, x.v, -INF))
            lo = np.minimum.accumulate(np.where(f, x.v, INF))
            dev = np.where(np.isfinite(hi - lo), hi - lo, 0) + 1e-7 * _runmax(x.v)
            ev = 8 * EPS * (np.arange(n) + w) * dev ** 2 + 4 * ez.max(1) * (dev + 1e-300)
            v = np.sqrt(var)
            # (a variance below its own rounding error may even come out negative: not judged)
            e = np.where(ev == 0, 0, np.where(var > 4 * ev, ev / np.maximum(v, 1e-300), INF))
            mx = _win(np.where(f, x.v, -INF), w, -INF).max(1)
            mn = _win(np.where(f, x.v, INF), w, INF).min(1)
            same = (mx == mn) & (ez.max(1) == 0)
            v = np.where(same, 0.0, v)
            e = np.where(same, 0.0, e)
        else:
            raise ValueError(kind)
        v = np.where(have, v, NAN)
        e = np.where(have, e, 0)
        e = np.where(bad, INF, e)
    return E(v, e, g)


def roll_apply(x, w, minp, fn, err):
    """fn over the window's available entries (the rows there are), err(window_e, value) its bound"""
    w = int(w)
    n = len(x)
    f, cnt, bad = _counts(x, w)
    v = np.full(n, NAN)
    e = np.zeros(n)
    for i in range(n):
        if cnt[i] >= max(minp, 1):
            a = max(0, i - w + 1)
            v[i] = fn(x.v[a:i + 1])
            e[i] = err(x.v[a:i + 1], x.e[a:i + 1], v[i])
        if bad[i]:
            e[i] = INF
    return E(v, e)


def ewm(x, alpha, minp, cap=None):
    """exponential average seeded with the first defined value; weights decay across undefined rows.
    cap: bound on the values of doubtful inputs (their doubt then fades with the weights)"""
    n = len(x)
    v = np.full(n, NAN)
    e = np.zeros(n)
    minp = max(int(minp), 1)
    a = float(alpha)
    cur = NAN
    ce = 0.0
    wt = 1.0
    doubtful = False
    lo = hi = 0
    xs, es = x.v.tolist(), x.e.tolist()
    for i in range(n):
        xi, ei = xs[i], es[i]
        doubt = math.isinf(ei)
        if doubt and cap is not None:
            hi += 1
            doubtful = True
            if cur == cur:
                wt *= (1 - a)       # (either reading of the row is within the bound)
                ce = max(ce * (1 - a) + a * cap, ce)
                cur_new = cur
                if xi == xi and not math.isinf(xi):
                    cur_new = (wt * cur + a * xi) / (wt + a)
                    ce = ce + abs(cur_new - cur)
                    wt = 1.0
                    ce = ce + a * cap
                cur = cur_new
            else:
                ce = cap
                if xi == xi and not math.isinf(xi):
                    cur = xi
        elif doubt:
            cur = xi if cur != cur else cur
            ce = INF
            hi += 1
        elif xi != xi or math.isinf(xi):      # an undefined or infinite row is skipped
            if cur == cur:
                wt *= (1 - a)
        else:
            lo += 1
            hi += 1
            if cur != cur:
                cur = xi
                ce = ei if ce == 0 else ce
            else:
                wt *= (1 - a)
                old = cur
                if a == 1.0:
                    cur = xi
                    ce = ei if not math.isinf(ce) else ce
                elif old == 0 and xi == 0 and ce == 0 and ei == 0:
                    pass
                else:
                    cur = (wt * old + a * xi) / (wt + a)
                    k = wt / (wt + a)
                    kk = k
                    if doubtful:         # the doubtful rows before may have been defined: then the weight is 1 - a
                        kk = max(k, 1 - a)
                        ce += abs(1 - a - k) / kk * abs(old - xi) if kk else 0.0
                    ce = kk * ce + (1 - k) * ei + 2 * EPS * (k * abs(old) + (1 - k) * abs(xi))
                wt = 1.0
                doubtful = False
        v[i] = cur if hi >= minp else NAN
        e[i] = ce
        if hi >= minp > lo:
            e[i] = INF
        elif hi < minp:
            e[i] = 0.0
    return E(v, e)


def ema(x, span, fillna, cap=None):
    return ewm(x, 2.0 / (int(span) + 1.0), 0 if fillna else int(span), cap)


def cumsum(x):
    """running sum skipping undefined entries"""
    f = ~np.isnan(x.v)
    s = np.cumsum(np.where(f, x.v, 0))
    e = np.cumsum(np.where(f, x.e, 0))
    g = x.g if x.g is not None and _ok(np.cumsum(np.abs(np.where(f, x.v, 0))), x.g) else None
    if g is None:
        e = e + 2 * EPS * (np.arange(len(x)) + 1) * _runmax(s)
        e = np.where(np.cumsum(np.where(f, np.abs(x.v) + x.e, 0)) == 0, 0, e)
    e = np.where(f, e, np.where(np.isinf(x.e), INF, 0))
    bad = np.maximum.accumulate(np.isinf(x.e)) if len(s) else f
    e = np.where(bad, INF, e)
    return E(np.where(f, s, NAN), e, g)


def true_range(h, l, pc):
    tr = maximum(h - l, (h - pc).abs(), skipna=True)
    return maximum(tr, (l - pc).abs(), skipna=True)


def fixnan(x, y=0.0):
    """undefined -> y (infinite values stay)"""
    m = np.isnan(x.v)
    return E(np.where(m, y, x.v), x.e, x.g)


# ------------------------------------------------------------------ formulas
def inputs(mkt):
    out = {}
    for k, v in mkt.c.items():
        g = mkt.vtick if k == 'volume' else mkt.tick
        if g is not None and not _ok(v, g):
            g = None
        out[k] = E(v, None, g)
    return out


R = {}


def ref(*names):
    def deco(fn):
        for nm in names:
            R[nm] = fn
        return fn
    return deco


@ref('RSIIndicator')
def _rsi(d, p, fill):
    c = d['close']
    w = int(p['window'])
    df = c.diff()
    up = where((df.v > 0, np.ones(len(c), bool)), df, 0.0)
    dn = where((df.v < 0, np.ones(len(c), bool)), -df, 0.0)
    minp = 0 if fill else w
    u, n = ewm(up, 1 / w, minp), ewm(dn, 1 / w, minp)
    rsi = 100 - 100 / (1 + u / n)
    zero = (n.v == 0)
    v = np.where(zero, 100.0, rsi.v)
    e = np.where(zero, np.where(n.e == 0, 0, INF), rsi.e)
    return {'rsi': E(v, e)}


@ref('TSIIndicator')
def _tsi(d, p, fill):
    m = d['close'].diff()
    s, f = p['window_slow'], p['window_fast']
    a = ema(ema(m, s, fill), f, fill)
    b = ema(ema(m.abs(), s, fill), f, fill)
    return {'tsi': 100 * (a / b)}


@ref('UltimateOscillator')
def _uo(d, p, fill):
    h, l, c = d['high'], d['low'], d['close']
    pc = c.shift(1)
    tr = true_range(h, l, pc)
    bp = c - minimum(l, pc)
    parts = []
    for k in '123':
        w = p['window' + k]
        mp = 0 if fill else w
        parts.append(roll(bp, w, mp, 'sum') / roll(tr, w, mp, 'sum'))
    w1, w2, w3 = (p['weight' + k] for k in '123')
    return {'ultimate_oscillator': 100.0 * (w1 * parts[0] + w2 * parts[1] + w3 * parts[2]) / (w1 + w2 + w3)}


@ref('StochasticOscillator')
def _stoch(d, p, fill):
    h, l, c = d['high'], d['low'], d['close']
    w, s = p['window'], p['smooth_window']
    lo, hi = roll(l, w, 0 if fill else w, 'min'), roll(h, w, 0 if fill else w, 'max')
    k = 100 * ((c - lo) / (hi - lo))
    return {'stoch': k, 'stoch_signal': roll(k, s, 0 if fill else s, 'mean')}


@ref('WilliamsRIndicator')
def _wr(d, p, fill):
    h, l, c = d['high'], d['low'], d['close']
    w = p['lbp']
    lo, hi = roll(l, w, 0 if fill else w, 'min'), roll(h, w, 0 if fill else w, 'max')
    return {'williams_r': -100 * ((hi - c) / (hi - lo))}


@ref('KAMAIndicator')
def _kama(d, p, fill):
    c = d['close']
    w = int(p['window'])
    n = len(c)
    first = c.v[0]
    vol = (c - c.shift(1, first)).abs()
    num = (c - c.shift(w, first)).abs()
    den = roll(vol, w, 0 if fill else w, 'sum')
    fast, slow = 2.0 / (p['pow1'] + 1.0), 2.0 / (p['pow2'] + 1.0)
    v = np.full(n, NAN)
    e = np.zeros(n)
    cur = None
    ce = 0.0
    for i in range(n):
        if np.isnan(den.v[i]):
            continue
        if cur is None:
            cur, ce = c.v[i], 0.0
        else:
            if den.v[i] == 0:
                er, ee = 0.0, (0.0 if den.e[i] == 0 else 1.0)
            else:
                er = num.v[i] / den.v[i]
                ee = (num.e[i] + er * den.e[i]) / den.v[i] + EPS * er
                if den.v[i] <= 1e3 * den.e[i]:
                    ee = 1.0
            sc = (er * (fast - slow) + slow) ** 2
            se = 2 * abs(er * (fast - slow) + slow) * abs(fast - slow) * ee + ee * ee + 4 * EPS
            gap = c.v[i] - cur
            ce = abs(1 - sc) * ce + abs(gap) * se + EPS * (abs(cur) + abs(sc * gap))
            cur = cur + sc * gap
        v[i], e[i] = cur, ce
    return {'kama': E(v, e)}


@ref('ROCIndicator')
def _roc(d, p, fill):
    c = d['close']
    b = c.shift(int(p['window']))
    return {'roc': 100 * (c / b - 1)}


@ref('AwesomeOscillatorIndicator')
def _ao(d, p, fill):
    m = 0.5 * (d['high'] + d['low'])
    a, b = p['window1'], p['window2']
    return {'awesome_oscillator': roll(m, a, 0 if fill else a, 'mean') - roll(m, b, 0 if fill else b, 'mean')}


@ref('StochRSIIndicator')
def _srsi(d, p, fill):
    r = _rsi(d, p, fill)['rsi']
    if fill:
        r = filled(r, 50)
    w = p['window']
    lo, hi = roll(r, w, w, 'min'), roll(r, w, w, 'max')
    same = (lo.v == hi.v) & (lo.e + hi.e > 0)
    x = (r - lo) / (hi - lo)
    x.e = np.where(same, INF, x.e)
    k = roll(x, p['smooth1'], p['smooth1'], 'mean')
    return {'stochrsi': x, 'stochrsi_k': k, 'stochrsi_d': roll(k, p['smooth2'], p['smooth2'], 'mean')}


def _pct(x, p, fill, nm):
    s = ema(x, p['window_slow'], fill)
    m = 100 * ((ema(x, p['window_fast'], fill) - s) / s)
    g = ema(m, p['window_sign'], fill)
    return {nm: m, nm + '_signal': g, nm + '_hist': m - g}


@ref('PercentagePriceOscillator')
def _ppo(d, p, fill):
    return _pct(d['close'], p, fill, 'ppo')


@ref('PercentageVolumeOscillator')
def _pvo(d, p, fill):
    return _pct(d['volume'], p, fill, 'pvo')


@ref('AroonIndicator')
def _aroon(d, p, fill):
    w = int(p['window'])
    n = len(d['high'])
    up, dn = np.full(n, NAN), np.full(n, NAN)
    h, l = d['high'].v, d['low'].v
    for i in range(n):
        a = max(0, i - w)
        if i - a + 1 < w + 1 and not fill:
            continue
        ih = a + int(np.argmax(h[a:i + 1]))
        il = a + int(np.argmin(l[a:i + 1]))
        up[i] = 100.0 * (w - (i - ih)) / w
        dn[i] = 100.0 * (w - (i - il)) / w
    e = np.full(n, 1e-13)
    return {'aroon_up': E(up, e), 'aroon_down': E(dn, e), 'aroon_indicator': E(up - dn, e)}


@ref('MACD')
def _macd(d, p, fill):
    c = d['close']
    m = ema(c, p['window_fast'], fill) - ema(c, p['window_slow'], fill)
    s = ema(m, p['window_sign'], fill)
    return {'macd': m, 'macd_signal': s, 'macd_diff': m - s}


@ref('EMAIndicator')
def _emai(d, p, fill):
    return {'ema_indicator': ema(d['close'], p['window'], fill)}


@ref('SMAIndicator')
def _smai(d, p, fill):
    w = p['window']
    return {'sma_indicator': roll(d['close'], w, 0 if fill else w, 'mean')}


@ref('WMAIndicator')
def _wma(d, p, fill):
    w = int(p['window'])
    k = np.arange(1, w + 1) * 2.0 / (w * (w + 1))
    return {'wma': roll_apply(d['close'], w, w, lambda x: float((k * x).sum()),
                              lambda x, e, v: float(e.max()) + 8 * EPS * np.abs(x).max())}


@ref('TRIXIndicator')
def _trix(d, p, fill):
    w = p['window']
    x = ema(ema(ema(d['close'], w, fill), w, fill), w, fill)
    b = x.shift(1)
    return {'trix': 100 * (x / b - 1)}


@ref('MassIndex')
def _mass(d, p, fill):
    amp = d['high'] - d['low']
    e1 = ema(amp, p['window_fast'], fill)
    e2 = ema(e1, p['window_fast'], fill)
    w = p['window_slow']
    return {'mass_index': roll(e1 / e2, w, 0 if fill else w, 'sum')}


@ref('IchimokuIndicator')
def _ichi(d, p, fill):
    h, l = d['high'], d['low']
    mid = {}
    for k in '123':
        w = p['window' + k]
        mp = 0 if fill else w
        mid[k] = 0.5 * (roll(h, w, mp, 'max') + roll(l, w, mp, 'min'))
    a = 0.5 * (mid['1'] + mid['2'])
    b = mid['3']
    if p['visual']:
        k = int(p['window2'])
        a, b = (x.shift(k, x.v[0] if fill else NAN) for x in (a, b))
    return {'ichimoku_conversion_line': mid['1'], 'ichimoku_base_line': mid['2'], 'ichimoku_a': a, 'ichimoku_b': b}


@ref('KSTIndicator')
def _kst(d, p, fill):
    c = d['close']
    k = None
    for i in range(1, 5):
        b = c.shift(int(p[f'roc{i}']))
        w = p[f'window{i}']
        t = float(i) * roll(c / b - 1, w, 0 if fill else w, 'mean')
        k = t if k is None else k + t
    k = 100 * k
    s = roll(k, p['nsig'], 0 if fill else p['nsig'], 'mean')
    return {'kst': k, 'kst_sig': s, 'kst_diff': k - s}


@ref('DPOIndicator')
def _dpo(d, p, fill):
    c = d['close']
    w = int(p['window'])
    return {'dpo': c.shift(int(0.5 * w + 1)) - roll(c, w, 0 if fill else w, 'mean')}


@ref('CCIIndicator')
def _cci(d, p, fill):
    tp = (d['high'] + d['low'] + d['close']).third()
    w = int(p['window'])
    mp = 0 if fill else w
    m = roll(tp, w, mp, 'mean')

    def err(x, e, v):
        if tp.g is not None and x.max() == x.min():
            return 0.0
        return float(e.max()) + 8 * EPS * np.abs(x).max()
    mad = roll_apply(tp, w, mp, lambda x: float(np.mean(np.abs(x - np.mean(x)))), err)
    return {'cci': (tp - m) / (p['constant'] * mad)}


@ref('ADXIndicator')
def _adx(d, p, fill):
    h, l, c = d['high'], d['low'], d['close']
    w = int(p['window'])
    n = len(c)
    pc = c.shift(1)
    rng = maximum(h, pc) - minimum(l, pc)
    up, dn = h - h.shift(1), l.shift(1) - l
    c1, s1 = lt(dn, up)
    c2, s2 = lt(up, dn)
    c3, s3 = lt(0.0, up)
    c4, s4 = lt(0.0, dn)
    pos = where((c1 & c3, s1 & s3), up.abs(), 0.0)
    neg = where((c2 & c4, s2 & s4), dn.abs(), 0.0)

    def wilder(x):
        """running sums, from the row `w` on: rows 1..w summed, then s - s/w + x"""
        v, e = np.full(n, NAN), np.zeros(n)
        if n <= w:
            return E(v, e)
        cur = float(np.sum(x.v[1:w + 1]))
        ce = float(np.sum(x.e[1:w + 1])) + (0 if cur == 0 else 4 * EPS * w * abs(cur))
        v[w], e[w] = cur, ce
        for i in range(w + 1, n):
            nv = cur - cur / w + x.v[i]
            if w == 1:
                nv, ce = x.v[i], x.e[i] + (2 * EPS * (abs(cur) + abs(x.v[i])) if cur else 0)
            else:
                ce = ce * (1 - 1 / w) + x.e[i] + (0 if cur == 0 and x.v[i] == 0 else 3 * EPS * (abs(cur) + abs(x.v[i])))
            cur = nv
            v[i], e[i] = cur, ce
        return E(v, e)
    T, Pp, Nn = wilder(rng), wilder(pos), wilder(neg)

    def ratio(a, b):
        r = 100 * (a / b)
        z = (b.v == 0)
        return E(np.where(z, 0.0, r.v), np.where(z, np.where(b.e == 0, 0, INF), r.e))
    dip, din = ratio(Pp, T), ratio(Nn, T)
    dx = ratio((dip - din).abs(), dip + din)
    out_p, out_n = np.zeros(n), np.zeros(n)
    ep, en = np.zeros(n), np.zeros(n)
    out_p[w + 1:], ep[w + 1:] = dip.v[w + 1:], dip.e[w + 1:]
    out_n[w + 1:], en[w + 1:] = din.v[w + 1:], din.e[w + 1:]
    adx, ea = np.zeros(n), np.zeros(n)
    dxe = np.minimum(dx.e, 100.0)      # a doubtful DX is still a number in 0..100
    if n >= 2 * w:
        k = 2 * w - 1
        adx[k] = np.mean(dx.v[w:2 * w])
        ea[k] = np.mean(dxe[w:2 * w]) + 8 * EPS * 100
        for i in range(k + 1, n):
            adx[i] = (adx[i - 1] * (w - 1) + dx.v[i]) / w
            ea[i] = (ea[i - 1] * (w - 1) + dxe[i]) / w + 4 * EPS * 100
    return {'adx': E(adx, ea), 'adx_pos': E(out_p, ep), 'adx_neg': E(out_n, en)}


@ref('VortexIndicator')
def _vortex(d, p, fill):
    h, l, c = d['high'], d['low'], d['close']
    w = p['window']
    mp = 0 if fill else w
    tr = roll(true_range(h, l, c.shift(1)), w, mp, 'sum')
    a = roll((h - l.shift(1)).abs(), w, mp, 'sum') / tr
    b = roll((l - h.shift(1)).abs(), w, mp, 'sum') / tr
    return {'vortex_indicator_pos': a, 'vortex_indicator_neg': b, 'vortex_indicator_diff': a - b}


@ref('PSARIndicator')
def _psar(d, p, fill):
    h, l, c = d['high'].v, d['low'].v, d['close'].v
    n = len(c)
    step, top = float(p['step']), float(p['max_step'])
    sar, err = c.copy(), np.zeros(n)
    up, dn = np.full(n, NAN), np.full(n, NAN)
    eu = np.zeros(n)
    rising, af, ep = True, step, h[0]
    ee = 0.0                                  # error of sar at i-1
    lost = n
    for i in range(2, n):
        prev = sar[i - 1]
        gap = ep - prev
        cur = prev + af * gap
        ce = ee + (0.0 if gap == 0 and ee == 0 else af * ee + 4 * EPS * (abs(prev) + abs(af * gap)))
        probe = l[i] if rising else h[i]
        m = (probe - cur) if rising else (cur - probe)       # < 0: reversal
        if ce > 0 and abs(m) <= 50 * ce:
            lost = i
            break
        if m < 0:
            sar[i], ce = ep, 0.0
            rising = not rising
            ep, af = probe, step
        else:
            if rising:
                if h[i] > ep:
                    ep, af = h[i], min(af + step, top)
                x = min(l[i - 2], l[i - 1])        # never above the two preceding lows
                if x < cur:
                    ce = 0.0 if cur - x > 50 * ce else 50 * ce
                    cur = x
                elif x - cur <= 50 * ce:
                    ce = 50 * ce
            else:
                if l[i] < ep:
                    ep, af = l[i], min(af + step, top)
                x = max(h[i - 2], h[i - 1])        # never below the two preceding highs
                if x > cur:
                    ce = 0.0 if x - cur > 50 * ce else 50 * ce
                    cur = x
                elif cur - x <= 50 * ce:
                    ce = 50 * ce
            sar[i] = cur
        err[i] = ee = ce
        (up if rising else dn)[i] = sar[i]
    if lost < n:
        err[lost:] = INF
        eu[lost:] = INF

    def starts(x):
        y = ~np.isnan(x)
        return (y & ~np.concatenate([[False], y[:-1]])).astype(float)
    return {'psar': E(sar, err), 'psar_up': E(up, np.maximum(err, eu)), 'psar_down': E(dn, np.maximum(err, eu)),
            'psar_up_indicator': E(starts(up), eu), 'psar_down_indicator': E(starts(dn), eu)}


@ref('STCIndicator')
def _stc(d, p, fill):
    c = d['close']
    m = ema(c, p['window_fast'], fill) - ema(c, p['window_slow'], fill)
    cy = p['cycle']

    def st(x):
        lo, hi = roll(x, cy, cy, 'min'), roll(x, cy, cy, 'max')
        r = 100 * ((x - lo) / (hi - lo))
        r.e = np.where((lo.v == hi.v) & (lo.e + hi.e > 0), INF, r.e)
        return r
    d1 = ema(st(m), p['smooth1'], fill, cap=100.0)
    r = ema(st(d1), p['smooth2'], fill, cap=100.0)
    return {'stc': r}


@ref('AverageTrueRange')
def _atr(d, p, fill):
    w = int(p['window'])
    tr = true_range(d['high'], d['low'], d['close'].shift(1))
    n = len(tr)
    v, e = np.zeros(n), np.zeros(n)
    if n >= w:
        v[w - 1] = float(np.sum(tr.v[:w])) / w
        e[w - 1] = float(np.mean(tr.e[:w])) + 4 * EPS * w * v[w - 1]
    for i in range(w, n):
        v[i] = (v[i - 1] * (w - 1) + tr.v[i]) / w
        e[i] = (e[i - 1] * (w - 1) + tr.e[i]) / w + 4 * EPS * max(v[i], v[i - 1], tr.v[i] / w)
    return {'average_true_range': E(v, e)}


def _flag(t):
    c, s = t
    return E(np.where(c, 1.0, 0.0), np.where(s, 0, INF))


@ref('BollingerBands')
def _bb(d, p, fill):
    c = d['close']
    w = p['window']
    mp = 0 if fill else w
    m, s = roll(c, w, mp, 'mean'), roll(c, w, mp, 'std')
    k = float(p['window_dev'])
    hi, lo = m + k * s, m - k * s
    wid = hi - lo
    z = (s.v == 0) & (s.e == 0)
    wid.e = np.where(z, np.where(m.e == 0, 0, INF), wid.e)
    return {'bollinger_mavg': m, 'bollinger_hband': hi, 'bollinger_lband': lo,
            'bollinger_wband': 100 * ((2 * k) * s / m),
            'bollinger_pband': (c - lo) / wid,
            'bollinger_hband_indicator': _flag(lt(hi, c)), 'bollinger_lband_indicator': _flag(lt(c, lo))}


@ref('KeltnerChannel')
def _kc(d, p, fill):
    h, l, c = d['high'], d['low'], d['close']
    w = p['window']
    mp = 1 if fill else w
    if p['original_version']:
        m = roll((h + l + c).third(), w, mp, 'mean')
        hi = roll((4 * h - 2 * l + c).third(), w, mp, 'mean')
        lo = roll((4 * l - 2 * h + c).third(), w, mp, 'mean')
    else:
        m = ema(c, w, fill)
        a = _atr(d, {'window': p['window_atr']}, fill)['average_true_range']
        k = float(p['multiplier'])
        hi, lo = m + k * a, m - k * a
        nz = (a.v == 0) & (a.e == 0)
        hi.e, lo.e = np.where(nz, m.e, hi.e), np.where(nz, m.e, lo.e)
    wid = hi - lo
    if not p['original_version']:
        # zero average range: both bands are the very same number
        wid = E(np.where(nz & ~np.isnan(m.v), 0.0, wid.v), np.where(nz, 0.0, wid.e))
    return {'keltner_channel_mband': m, 'keltner_channel_hband': hi, 'keltner_channel_lband': lo,
            'keltner_channel_wband': 100 * (wid / m), 'keltner_channel_pband': (c - lo) / wid,
            'keltner_channel_hband_indicator': _flag(lt(hi, c)), 'keltner_channel_lband_indicator': _flag(lt(c, lo))}


@ref('DonchianChannel')
def _dc(d, p, fill):
    h, l, c = d['high'], d['low'], d['close']
    w = p['window']
    mp = 1 if fill else w
    hi, lo = roll(h, w, mp, 'max'), roll(l, w, mp, 'min')
    o = int(p['offset'])
    r = {'donchian_channel_hband': hi, 'donchian_channel_lband': lo, 'donchian_channel_mband': 0.5 * (hi - lo) + lo,
         'donchian_channel_wband': 100 * ((hi - lo) / roll(c, w, mp, 'mean')),
         'donchian_channel_pband': (c - lo) / (hi - lo)}
    return {k: x.shift(o) for k, x in r.items()}


@ref('UlcerIndex')
def _ui(d, p, fill):
    c = d['close']
    w = int(p['window'])
    m = roll(c, w, 1, 'max')
    r = 100 * ((c - m) / m)
    return {'ulcer_index': roll_apply(r, w, w, lambda x: math.sqrt(float((x ** 2).sum()) / w),
                                      lambda x, e, v: float(e.max()) + 8 * EPS * v)}


def _clv(h, l, c):
    x = (c - l) - (h - c)
    return fixnan(x / (h - l))


@ref('AccDistIndexIndicator')
def _adi(d, p, fill):
    return {'acc_dist_index': cumsum(_clv(d['high'], d['low'], d['close']) * d['volume'])}


@ref('OnBalanceVolumeIndicator')
def _obv(d, p, fill):
    c = d['close']
    s = np.where(c.v < c.shift(1).v, -1.0, 1.0)
    return {'on_balance_volume': cumsum(d['volume'] * E(s, None, 1.0))}


@ref('ChaikinMoneyFlowIndicator')
def _cmf(d, p, fill):
    w = p['window']
    mp = 0 if fill else w
    mf = _clv(d['high'], d['low'], d['close']) * d['volume']
    return {'chaikin_money_flow': roll(mf, w, mp, 'sum') / roll(d['volume'], w, mp, 'sum')}


@ref('ForceIndexIndicator')
def _fi(d, p, fill):
    return {'force_index': ema(d['close'].diff() * d['volume'], p['window'], fill)}


@ref('EaseOfMovementIndicator')
def _eom(d, p, fill):
    h, l, v = d['high'], d['low'], d['volume']
    move = h.diff() + l.diff()
    if move.g is None:        # (or the move of the midpoint)
        move.e = move.e + EPS * np.where(np.isnan(move.v), 0, np.maximum(h.v, h.shift(1).v))
    x = 1e8 * ((move * (h - l)) / (2.0 * v))
    w = p['window']
    return {'ease_of_movement': x, 'sma_ease_of_movement': roll(x, w, 0 if fill else w, 'mean')}


@ref('VolumePriceTrendIndicator')
def _vpt(d, p, fill):
    c = d['close']
    b = c.shift(1)
    x = cumsum((c / b - 1) * d['volume'])
    s = p['smoothing_factor']
    if s:
        x = roll(x, s, 0 if fill else s, 'mean')
    return {'volume_price_trend': x}


@ref('NegativeVolumeIndexIndicator')
def _nvi(d, p, fill):
    c, vol = d['close'].v, d['volume'].v
    n = len(c)
    v, e = np.zeros(n), np.zeros(n)
    v[0] = 1000.0
    rel = 0.0
    for i in range(1, n):
        v[i] = v[i - 1]
        if vol[i] < vol[i - 1]:
            r = c[i] / c[i - 1]
            v[i] *= r
            rel += 1 + 1 / r          # 1 + (return) keeps an absolute, not a relative, error
        e[i] = 4 * EPS * v[i] * (i + 1 + rel)
    return {'negative_volume_index': E(v, e)}


@ref('MFIIndicator')
def _mfi(d, p, fill):
    tp = (d['high'] + d['low'] + d['close']).third()
    # equal sums of three prices on the grid give equal typical prices whatever the rounding of /3
    s3 = d['high'] + d['low'] + d['close']
    up, s1 = lt(s3.shift(1), s3)
    dn, s2 = lt(s3, s3.shift(1))
    mf = tp * d['volume']
    pos = where((up, s1), mf, 0.0)
    neg = where((dn, s2), mf, 0.0)
    w = p['window']
    mp = 0 if fill else w

    def s(x):
        r = roll(x, w, mp, 'sum')
        z = _win(np.abs(x.v) + x.e, int(w), 0).sum(1) == 0      # sums of zeros only
        r.e = np.where(z, 0, r.e)
        return r
    a, b = s(pos), s(neg)
    r = 100 - 100 / (1 + a / b)
    z = (b.v == 0) & (b.e == 0)
    v = np.where(z, np.where((a.v == 0), NAN, 100.0), r.v)
    v = np.where(np.isnan(a.v), NAN, v)
    e = np.where(z, np.where(a.e == 0, 0, np.where(a.v > 100 * a.e, 0, INF)), r.e)
    return {'money_flow_index': E(v, e)}


@ref('VolumeWeightedAveragePrice')
def _vwap(d, p, fill):
    tp = (d['high'] + d['low'] + d['close']).third()
    w = p['window']
    mp = 0 if fill else w
    return {'volume_weighted_average_price': roll(tp * d['volume'], w, mp, 'sum') / roll(d['volume'], w, mp, 'sum')}


@ref('DailyReturnIndicator')
def _dr(d, p, fill):
    c = d['close']
    return {'daily_return': 100 * (c / c.shift(1) - 1)}


@ref('DailyLogReturnIndicator')
def _dlr(d, p, fill):
    c = d['close']
    x = E(np.log(c.v), EPS * (1 + np.abs(np.log(c.v))))
    return {'daily_log_return': 100 * x.diff()}


@ref('CumulativeReturnIndicator')
def _cr(d, p, fill):
    c = d['close']
    return {'cumulative_return': 100 * (c / c.v[0] - 1)}


# ------------------------------------------------------------------ fill rule
def filled(x, neutral, close=None):
    """fillna=True: infinite counts as undefined; undefined rows repeat the last defined value; before the
    first one: the neutral level, or for price-level outputs the first defined value"""
    if neutral is None:
        return x
    v, e = x.v.copy(), x.e.copy()
    v[np.isinf(v)] = NAN
    doubt = np.isinf(e)
    last = None
    n = len(v)
    first = None
    unsure_first = False
    for i in range(n):
        if doubt[i]:
            last = ('?',)
            if first is None:
                unsure_first = True
            continue
        if np.isnan(v[i]):
            if last is None:
                continue
            if last == ('?',):
                e[i] = INF
            else:
                v[i], e[i] = last
        else:
            last = (v[i], e[i])
            if first is None:
                first = (i, v[i], e[i])
    for i in range(n):
        if doubt[i] or not np.isnan(v[i]):
            if not doubt[i]:
                break
            continue
        if np.isinf(e[i]):
            continue
        if neutral == 'price-level':
            if unsure_first:
                e[i] = INF
            elif first is not None:
                v[i], e[i] = first[1], first[2]
        elif neutral == 'close':
            v[i], e[i] = close[i], 0.0
        else:
            v[i], e[i] = float(neutral), 0.0
        if unsure_first:
            pass
    return E(v, e)


def _floored(fn, size):
    """results on a fixed scale are formed from terms of the size of the scale: another order of the same terms rounds differently"""
    def call(d, p, fill):
        res = fn(d, p, fill)
        for g, k in size.items():
            x = res[g]
            with np.errstate(all='ignore'):
                res[g] = E(x.v, np.where(np.isfinite(x.v) & np.isfinite(x.e), np.maximum(x.e, 1.2e-16 * k), x.e), x.g)
        return res
    return call


for _c in CLASSES:
    _s = {o.getter: max(abs(b) for b in o.bounds) for o in _c.outs if o.bounds and None not in o.bounds and o.bounds != (0, 1)}
    if _s:
        R[_c.cls] = _floored(R[_c.cls], _s)


def model(spec, mkt, params, fill, d=None):
    """getter -> E for one indicator"""
    d = d or inputs(mkt)
    res = R[spec.cls](d, params, fill)
    out = {}
    for o in spec.outs:
        x = res[o.getter]
        if fill:
            x = filled(x, o.neutral, mkt.c['close'])
        out[o.getter] = x
    return out


def compare(got, x, rel=1e-9, k=300.0):
    """rows of `got` that contradict the model; returns (indices, judged mask)"""
    got = np.asarray(got, float)
    with np.errstate(all='ignore'):
        judged = ~np.isinf(x.e)
        gu, xu = ~np.isfinite(got), ~np.isfinite(x.v)
        tol = rel * np.abs(x.v) + k * x.e + 1e-300
        bad = judged & ((gu != xu) | (~gu & ~xu & (np.abs(got - x.v) > tol)))
        # a bound larger than a thousandth of the value is not a judgement
        weak = judged & ~xu & (k * x.e > 1e-2 * np.abs(x.v) + 1e-2 * np.nanmax(np.abs(np.where(xu, 0, x.v))) if len(got) else judged)
    return np.nonzero(bad)[0], judged & ~weak
