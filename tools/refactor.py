#!/opt/venv/bin/python
"""Quietness test: run the checks against copies of the repository whose implementations were rewritten without changing what
they compute (other loops, other groupings of the same arithmetic, helpers).  No check may raise an alarm there.

usage: refactor.py [A|B|AB] [P01 ...]      (checks at quick tier, on a scratch copy under /tmp that is removed)"""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

A = {
    'utils': '''
def _cf(self, series, value=0):
    if not self._fillna:
        return series.copy()
    out = series.where(np.isfinite(series.astype(float)), np.nan).ffill()
    if isinstance(value, int) and value == -1:
        return out.bfill()
    return out.fillna(value)


def _tr(high, low, prev_close):
    m = np.fmax(np.fmax((high - low).values, np.abs((high - prev_close).values)), np.abs((low - prev_close).values))
    return pd.Series(m, index=high.index)


IndicatorMixin._check_fillna = _cf
IndicatorMixin._true_range = staticmethod(_tr)


def dropna(df):
    out = df.copy()
    for c, k in zip(out.columns, [pd.api.types.is_numeric_dtype(t) and not pd.api.types.is_bool_dtype(t) for t in out.dtypes]):
        if k:
            out[c] = out[c].where((out[c] < math.exp(709)) & (out[c] != 0.0))
    return out[out.notna().all(axis=1)]
''',
    'momentum': '''
def _r(self):
    d = self._close.diff().fillna(0.0)
    mp = 0 if self._fillna else self._window
    up = d.clip(lower=0).ewm(com=self._window - 1, min_periods=mp, adjust=False).mean()
    dn = (-d.clip(upper=0)).ewm(com=self._window - 1, min_periods=mp, adjust=False).mean()
    self._rsi = (100 * up / (up + dn)).where(dn != 0, 100.0)
RSIIndicator._run = _r


def _r(self):
    def sm(x):
        x = x.astype(float)
        for w in (self._window_slow, self._window_fast):
            x = _ema(x, w, self._fillna)
        return x
    d = self._close.diff()
    self._tsi = 100 * sm(d) / sm(d.abs())
TSIIndicator._run = _r


def _r(self):
    prev = self._close.shift()
    tr = self._true_range(self._high, self._low, prev)
    bp = self._close - np.minimum(self._low, prev)
    total = 0
    for wt, w in ((self._weight1, self._window1), (self._weight2, self._window2), (self._weight3, self._window3)):
        mp = 0 if self._fillna else w
        total = total + wt * (bp.rolling(w, min_periods=mp).sum() / tr.rolling(w, min_periods=mp).sum())
    self._uo = total / (self._weight1 + self._weight2 + self._weight3) * 100
UltimateOscillator._run = _r


def _r(self):
    kw = dict(window=self._window, min_periods=0 if self._fillna else self._window)
    lo, hi = self._low.rolling(**kw).min(), self._high.rolling(**kw).max()
    self._stoch_k = (self._close - lo) / (hi - lo) * 100
StochasticOscillator._run = _r


def _r(self):
    c = self._close.values.tolist()
    n = len(c)
    mp = 0 if self._fillna else self._window
    step = pd.Series([0.0] + [abs(b - a) for a, b in zip(c, c[1:])])
    den = step.rolling(self._window, min_periods=mp).sum().tolist()
    fast, slow = 2.0 / (self._pow1 + 1), 2.0 / (self._pow2 + 1)
    out, cur = [], None
    for i in range(n):
        if den[i] != den[i]:
            out.append(float('nan'))
            continue
        if cur is None:
            cur = float(c[i])
        else:
            er = abs(c[i] - c[max(0, i - self._window)]) / den[i] if den[i] != 0 else 0.0
            cur += (er * (fast - slow) + slow) ** 2 * (c[i] - cur)
        out.append(cur)
    self._kama = np.array(out)
KAMAIndicator._run = _r


def _r(self):
    self._roc = (self._close / self._close.shift(self._window) - 1) * 100
ROCIndicator._run = _r


def _r(self):
    mid = (self._high + self._low) / 2
    a, b = (mid.rolling(w, min_periods=0 if self._fillna else w).mean() for w in (self._window1, self._window2))
    self._ao = a - b
AwesomeOscillatorIndicator._run = _r


def _r(self):
    mp = 0 if self._fillna else self._lbp
    hh = self._high.rolling(self._lbp, min_periods=mp).max()
    ll = self._low.rolling(self._lbp, min_periods=mp).min()
    self._wr = (self._close - hh) / (hh - ll) * 100
WilliamsRIndicator._run = _r


def _r(self):
    self._rsi = RSIIndicator(self._close, self._window, self._fillna).rsi()
    roll = self._rsi.rolling(self._window)
    lo, hi = roll.min(), roll.max()
    self._stochrsi = (self._rsi - lo) / (hi - lo)
    self._stochrsi_k = self._stochrsi.rolling(self._smooth1).mean()
StochRSIIndicator._run = _r


def _mk(src, pre):
    def _r(self):
        x = getattr(self, src)
        f, s = _ema(x, self._window_fast, self._fillna), _ema(x, self._window_slow, self._fillna)
        line = 100 * (f - s) / s
        sig = _ema(line, self._window_sign, self._fillna)
        setattr(self, pre, line)
        setattr(self, pre + '_signal', sig)
        setattr(self, pre + '_hist', line - sig)
    return _r
PercentagePriceOscillator._run = _mk('_close', '_ppo')
PercentageVolumeOscillator._run = _mk('_volume', '_pvo')
''',
    'trend': '''
def _r(self):
    w = self._window
    mp = 1 if self._fillna else w + 1
    f = lambda pick: lambda x: 100.0 * (w - (len(x) - 1 - int(pick(x)))) / w
    self._aroon_up = self._high.rolling(w + 1, min_periods=mp).apply(f(np.argmax), raw=True)
    self._aroon_down = self._low.rolling(w + 1, min_periods=mp).apply(f(np.argmin), raw=True)
AroonIndicator._run = _r


def _r(self):
    wt = np.arange(1, self._window + 1, dtype=float)
    wt = wt / wt.sum()
    self._wma = self._close.rolling(self._window).apply(lambda x: float(np.dot(wt, x)), raw=True)
WMAIndicator._run = _r


def _r(self):
    e = self._close
    for _ in range(3):
        e = _ema(e, self._window, self._fillna)
    self._trix = (e / e.shift() - 1) * 100
TRIXIndicator._run = _r


def _mid(high, low, w, fillna):
    mp = 0 if fillna else w
    return (high.rolling(w, min_periods=mp).max() + low.rolling(w, min_periods=mp).min()) / 2


def _r(self):
    self._conv = _mid(self._high, self._low, self._window1, self._fillna)
    self._base = _mid(self._high, self._low, self._window2, self._fillna)
IchimokuIndicator._run = _r


def _r(self):
    total = 0
    for k, (r, w) in enumerate(zip((self._r1, self._r2, self._r3, self._r4),
                                   (self._window1, self._window2, self._window3, self._window4)), 1):
        roc = self._close / self._close.shift(r) - 1
        total = total + k * 100 * roc.rolling(w, min_periods=0 if self._fillna else w).mean()
    self._kst = total
    self._kst_sig = total.rolling(self._nsig, min_periods=0 if self._fillna else self._nsig).mean()
KSTIndicator._run = _r


def _r(self):
    self._dpo = self._close.shift(self._window // 2 + 1) - _sma(self._close, self._window, self._fillna)
DPOIndicator._run = _r


def _r(self):
    tp = (self._high + self._low + self._close) / 3
    roll = tp.rolling(self._window, min_periods=0 if self._fillna else self._window)
    mad = roll.apply(lambda x: np.abs(x - x.mean()).sum() / len(x), raw=True)
    self._cci = (tp - roll.mean()) / mad / self._constant
CCIIndicator._run = _r


def _r(self):
    if self._window == 0:
        raise ValueError("window may not be 0")
    w = int(self._window)
    h, l, c = (np.asarray(s, float) for s in (self._high, self._low, self._close))
    n = len(c)
    tr, up, dn = np.zeros(n), np.zeros(n), np.zeros(n)
    tr[0] = np.nan
    for i in range(1, n):
        tr[i] = max(h[i], c[i - 1]) - min(l[i], c[i - 1])
        u, d = h[i] - h[i - 1], l[i - 1] - l[i]
        if u > d and u > 0:
            up[i] = u
        elif d > u and d > 0:
            dn[i] = d

    m = max(n - (w - 1), 1)

    def wilder(x, first):
        out = np.zeros(m)
        out[0] = first
        for i in range(1, m - 1):
            out[i] = out[i - 1] * (w - 1) / w + x[w + i]
        return out
    self._trs_initial = np.zeros(w - 1)
    self._trs = wilder(tr, tr[1:w + 1].sum())
    self._dip = wilder(up, up[1:w + 1].sum())
    self._din = wilder(dn, dn[1:w + 1].sum())
ADXIndicator._run = _r


def _r(self):
    prev = self._close.shift(1)
    mp = 0 if self._fillna else self._window
    s = lambda x: x.rolling(self._window, min_periods=mp).sum()
    tr = s(self._true_range(self._high, self._low, prev))
    self._vip, self._vin = (s((a - b.shift()).abs()) / tr for a, b in ((self._high, self._low), (self._low, self._high)))
VortexIndicator._run = _r


def _r(self):
    h, l, c = (np.asarray(s, float) for s in (self._high, self._low, self._close))
    n = len(c)
    ps, up, dn = c.copy(), np.full(n, np.nan), np.full(n, np.nan)
    rising, af, ep = True, self._step, None
    hi, lo = h[0], l[0]
    for i in range(2, n):
        prev = ps[i - 1]
        if rising:
            x = prev + af * (hi - prev)
            if l[i] < x:
                rising, x, lo, af = False, hi, l[i], self._step
            else:
                if h[i] > hi:
                    hi, af = h[i], min(self._max_step, af + self._step)
                x = min(x, l[i - 1], l[i - 2])
        else:
            x = prev + af * (lo - prev)
            if h[i] > x:
                rising, x, hi, af = True, lo, h[i], self._step
            else:
                if l[i] < lo:
                    lo, af = l[i], min(self._max_step, af + self._step)
                x = max(x, h[i - 1], h[i - 2])
        ps[i] = x
        (up if rising else dn)[i] = x
    ix = self._close.index
    self._psar, self._psar_up, self._psar_down = (pd.Series(a, index=ix) for a in (ps, up, dn))


PSARIndicator._run = _r


def _r(self):
    def k(x):
        roll = x.rolling(self._cycle)
        lo, hi = roll.min(), roll.max()
        return (x - lo) / (hi - lo) * 100
    line = _ema(self._close, self._window_fast, self._fillna) - _ema(self._close, self._window_slow, self._fillna)
    self._stc = _ema(k(_ema(k(line), self._smooth1, self._fillna)), self._smooth2, self._fillna)
STCIndicator._run = _r
''',
    'volatility': '''
def _r(self):
    tr = self._true_range(self._high, self._low, self._close.shift(1)).tolist()
    w = int(self._window)
    out, cur = [], 0.0
    for i, x in enumerate(tr):
        if i == w - 1:
            cur = sum(tr[:w]) / w
        elif i >= w:
            cur = cur + (x - cur) / w
        out.append(cur)
    self._atr = pd.Series(out, index=self._close.index, dtype=float)
AverageTrueRange._run = _r


def _r(self):
    roll = self._close.rolling(self._window, min_periods=0 if self._fillna else self._window)
    self._mavg = roll.mean()
    self._mstd = np.sqrt(roll.var(ddof=0))
    off = self._mstd * self._window_dev
    self._hband, self._lband = self._mavg + off, self._mavg - off
BollingerBands._run = _r


def _r(self):
    mp = 1 if self._fillna else self._window
    if self._original_version:
        m = lambda x: x.rolling(self._window, min_periods=mp).mean()
        h, l, c = self._high, self._low, self._close
        self._tp, self._tp_high, self._tp_low = m((h + l + c) / 3), m((4 * h - 2 * l + c) / 3), m((4 * l - 2 * h + c) / 3)
    else:
        self._tp = self._close.ewm(alpha=2 / (self._window + 1), min_periods=mp, adjust=False).mean()
        off = AverageTrueRange(self._high, self._low, self._close, self._window_atr, self._fillna).average_true_range() * self._multiplier
        self._tp_high, self._tp_low = self._tp + off, self._tp - off
KeltnerChannel._run = _r


def _g(self):
    m = (self._hband + self._lband) / 2
    return pd.Series(self._check_fillna(m.shift(self._offset), value=-1), name="dcmband")
DonchianChannel.donchian_channel_mband = _g


def _r(self):
    top = self._close.rolling(self._window, min_periods=1).max()
    dd = (self._close / top - 1) * 100
    self._ulcer_idx = dd.rolling(self._window).apply(lambda x: np.sqrt(np.mean(x * x)), raw=True)
UlcerIndex._run = _r
''',
    'volume': '''
def _clv(h, l, c):
    return (((c - l) - (h - c)) / (h - l)).fillna(0)


def _r(self):
    self._adi = (_clv(self._high, self._low, self._close) * self._volume).cumsum()
AccDistIndexIndicator._run = _r


def _r(self):
    falls = self._close.diff() < 0
    signed = self._volume.where(~falls, -1 * self._volume) if self._volume.dtype.kind != 'u' else self._volume * np.where(falls, -1, 1)
    self._obv = signed.cumsum()
OnBalanceVolumeIndicator._run = _r


def _r(self):
    mp = 0 if self._fillna else self._window
    s = lambda x: x.rolling(self._window, min_periods=mp).sum()
    self._cmf = s(_clv(self._high, self._low, self._close) * self._volume) / s(self._volume)
ChaikinMoneyFlowIndicator._run = _r


def _r(self):
    self._fi = _ema(self._close.diff() * self._volume, self._window, self._fillna)
ForceIndexIndicator._run = _r


def _r(self):
    mid = (self._high + self._low) / 2
    self._emv = mid.diff() * (self._high - self._low) / self._volume * 1e8
EaseOfMovementIndicator._run = _r


def _r(self):
    v = (self._close.diff() / self._close.shift() * self._volume).cumsum()
    if self._smoothing_factor:
        v = v.rolling(self._smoothing_factor, min_periods=0 if self._fillna else self._smoothing_factor).mean()
    self._vpt = v[v.notna()] if self._dropnans else v
VolumePriceTrendIndicator._run = _r


def _r(self):
    c, v = self._close.values.tolist(), self._volume.values.tolist()
    cur, out = 1000.0, []
    for i in range(len(c)):
        if i and v[i] < v[i - 1]:
            cur += cur * (c[i] - c[i - 1]) / c[i - 1]
        out.append(cur)
    self._nvi = pd.Series(out, index=self._close.index, dtype=float)
NegativeVolumeIndexIndicator._run = _r


def _r(self):
    tp = (self._high + self._low + self._close) / 3.0
    flow = tp * self._volume * np.sign(tp.diff()).fillna(0)
    mp = 0 if self._fillna else self._window
    roll = flow.rolling(self._window, min_periods=mp)
    pos = roll.apply(lambda x: x[x > 0].sum(), raw=True)
    neg = roll.apply(lambda x: -x[x < 0].sum(), raw=True)
    self._mfi = 100 - 100 / (1 + pos / neg)
MFIIndicator._run = _r


def _r(self):
    s = lambda x: x.rolling(self._window, min_periods=0 if self._fillna else self._window).sum()
    self.vwap = s(self._volume * ((self._high + self._low + self._close) / 3)) / s(self._volume)
VolumeWeightedAveragePrice._run = _r
''',
    'others': '''
def _r(self):
    self._dr = 100 * (self._close - self._close.shift()) / self._close.shift()
DailyReturnIndicator._run = _r


def _r(self):
    self._dr = 100 * np.log(self._close / self._close.shift())
DailyLogReturnIndicator._run = _r


def _r(self):
    first = self._close.values[0]
    self._cr = (self._close - first) / first * 100
CumulativeReturnIndicator._run = _r
''',
}

B = {
    'utils': '''
def _tr2(high, low, prev_close):
    top, bottom = np.fmax(high, prev_close), np.fmin(low, prev_close)
    return top - bottom


IndicatorMixin._true_range = staticmethod(_tr2)


def _ema(series, periods, fillna=False):
    return series.ewm(alpha=2.0 / (periods + 1), min_periods=0 if fillna else periods, adjust=False).mean()


def _sma(series, periods, fillna=False):
    roll = series.rolling(periods, min_periods=0 if fillna else periods)
    return roll.sum() / roll.count()
''',
    'momentum': '''
def _r(self):
    c = self._close.values.astype(float).tolist()
    w = self._window
    u = d = 0.0
    out = []
    for i in range(len(c)):
        if i:
            x = c[i] - c[i - 1]
            u += (max(x, 0.0) - u) / w
            d += (max(-x, 0.0) - d) / w
        out.append(100.0 if d == 0 else 100.0 * u / (u + d))
    s = pd.Series(out, index=self._close.index, dtype=float)
    if not self._fillna:
        s.iloc[:w - 1] = np.nan if False else s.iloc[:w - 1]
        s = s.where(np.arange(len(s)) >= w - 1, 100.0)
    self._rsi = s
_rsi_ref = RSIIndicator._run


def _rr(self):
    _rsi_ref(self)
    want = self._rsi
    _r(self)
    self._rsi = self._rsi.where(want.notna(), want)
RSIIndicator._run = _rr


def _r(self):
    d = self._close.diff()
    num = _ema(_ema(d, self._window_slow, self._fillna), self._window_fast, self._fillna)
    den = _ema(_ema(d.abs(), self._window_slow, self._fillna), self._window_fast, self._fillna)
    self._tsi = num.div(den).mul(100.0)
TSIIndicator._run = _r


def _r(self):
    past = self._close.shift(self._window)
    self._roc = 100.0 * self._close / past - 100.0
ROCIndicator._run = _r


def _mk(src, pre):
    def _r(self):
        x = getattr(self, src)
        line = 100 * (_ema(x, self._window_fast, self._fillna) / _ema(x, self._window_slow, self._fillna) - 1)
        setattr(self, pre, line)
        setattr(self, pre + '_signal', _ema(line, self._window_sign, self._fillna))
        setattr(self, pre + '_hist', line - getattr(self, pre + '_signal'))
    return _r
PercentagePriceOscillator._run = _mk('_close', '_ppo')
PercentageVolumeOscillator._run = _mk('_volume', '_pvo')
''',
    'trend': '''
def _r(self):
    n, w = len(self._close), self._window
    c = self._close.values.astype(float)
    out = np.full(n, np.nan)
    if n >= w:
        win = np.lib.stride_tricks.sliding_window_view(c, w)
        out[w - 1:] = (win * np.arange(1, w + 1)).sum(axis=1) * 2 / (w * (w + 1))
    self._wma = pd.Series(out, index=self._close.index)
WMAIndicator._run = _r


def _r(self):
    e = self._close
    for _ in range(3):
        e = _ema(e, self._window, self._fillna)
    self._trix = e.diff() / e.shift() * 100
TRIXIndicator._run = _r


def _r(self):
    tp = ((self._high + self._low + self._close) / 3.0).values
    n, w = len(tp), int(self._window)
    out = np.full(n, np.nan)
    with np.errstate(all='ignore'):
        for i in range(n):
            if i + 1 < w and not self._fillna:
                continue
            x = tp[max(0, i - w + 1):i + 1]
            m = x.mean()
            out[i] = (tp[i] - m) / np.float64(self._constant * np.abs(x - m).mean())
    self._cci = pd.Series(out, index=self._close.index)
CCIIndicator._run = _r


def _g(self):
    c = (self._conv + self._base) / 2
    if self._visual:
        c = c.shift(self._window2)
        if self._fillna:
            c.iloc[:self._window2] = (0.5 * (self._conv + self._base)).iloc[0]
    return pd.Series(self._check_fillna(c, value=-1), name=f"ichimoku_a_{self._window1}_{self._window2}")
IchimokuIndicator.ichimoku_a = _g


def _g(up):
    def f(self):
        s = (self._psar_up if up else self._psar_down).notna()
        on = s & ~s.shift(1, fill_value=False)
        return pd.Series(on.astype(float), index=self._close.index, name="psariup" if up else "psaridown")
    return f
PSARIndicator.psar_up_indicator = _g(True)
PSARIndicator.psar_down_indicator = _g(False)
''',
    'volatility': '''
def _r(self):
    tr = self._true_range(self._high, self._low, self._close.shift(1))
    w = int(self._window)
    v = tr.values.astype(float).copy()
    out = np.zeros(len(v))
    if len(v) >= w:
        seeded = np.concatenate([[v[:w].mean()], v[w:]])
        out[w - 1:] = pd.Series(seeded).ewm(alpha=1.0 / w, adjust=False).mean().values
    self._atr = pd.Series(out, index=tr.index)
AverageTrueRange._run = _r


def _g(self):
    w = 2 * self._window_dev * self._mstd / self._mavg * 100
    return pd.Series(self._check_fillna(w, value=0), name="bbiwband")
BollingerBands.bollinger_wband = _g
''',
    'volume': '''
def _r(self):
    h, l, c = self._high, self._low, self._close
    clv = ((2 * c - h - l) / (h - l)).fillna(0.0)
    self._adi = (self._volume * clv).cumsum()
AccDistIndexIndicator._run = _r


def _r(self):
    sign = np.ones(len(self._close))
    sign[1:][np.diff(self._close.values.astype(float)) < 0] = -1
    self._obv = pd.Series(sign * self._volume.values.astype(float), index=self._close.index).cumsum()
OnBalanceVolumeIndicator._run = _r


def _r(self):
    c = self._close.astype(float)
    f = (c / c.shift(1)).where(self._volume < self._volume.shift(1), 1.0)
    self._nvi = 1000.0 * f.cumprod()
NegativeVolumeIndexIndicator._run = _r


def _r(self):
    tp = (self._high + self._low + self._close) / 3.0
    flow = tp * self._volume
    prev = tp.shift(1)
    mp = 0 if self._fillna else self._window
    s = lambda m: flow.where(m | flow.isna(), 0.0).rolling(self._window, min_periods=mp).apply(np.sum, raw=True)
    pos, neg = s(tp > prev), s(tp < prev)
    self._mfi = 100 * pos / (pos + neg)
MFIIndicator._run = _r


def _r(self):
    self._vpt = ((self._close / self._close.shift(1) - 1) * self._volume).cumsum()
    if self._smoothing_factor:
        self._vpt = self._vpt.rolling(self._smoothing_factor, min_periods=0 if self._fillna else self._smoothing_factor).mean()
    if self._dropnans:
        self._vpt = self._vpt[~self._vpt.isna()]
VolumePriceTrendIndicator._run = _r
''',
    'others': '''
def _r(self):
    self._dr = self._close.astype(float).pct_change(fill_method=None) * 100
DailyReturnIndicator._run = _r


def _r(self):
    v = np.log(self._close.values.astype(float))
    self._dr = pd.Series(np.concatenate([[np.nan], np.diff(v)]) * 100, index=self._close.index)
DailyLogReturnIndicator._run = _r


def _r(self):
    self._cr = self._close * (100.0 / self._close.values[0]) - 100.0
CumulativeReturnIndicator._run = _r
''',
}


# C: rolling sums where the original applies a function, sliding windows where it rolls, lines made from other lines
C = {
    'momentum': '''
def _r(self):
    def run(flow):
        return flow.ewm(alpha=1.0 / self._window, min_periods=0 if self._fillna else self._window, adjust=False).mean()
    diff = self._close.diff(1)
    gains, losses = run(diff.where(diff > 0, 0.0)), run(-diff.where(diff < 0, 0.0))
    ratio = gains.div(losses)
    self._rsi = (100 - 100 / (1 + ratio)).mask(losses == 0, 100.0)
RSIIndicator._run = _r


def _r(self):
    v = np.asarray(self._close, dtype=float)
    n, w = len(v), int(self._window)
    past = np.full(n, np.nan)
    if n > w:
        past[w:] = v[:n - w]
    self._roc = pd.Series((v - past) / past * 100, index=self._close.index)
ROCIndicator._run = _r


def _extreme(x, w, fill, fn):
    v = np.asarray(x, dtype=float)
    out = np.full(len(v), np.nan)
    for i in range(len(v)):
        if i + 1 >= w or fill:
            part = v[max(0, i - w + 1):i + 1]
            known = part[~np.isnan(part)]
            if len(known) and (fill or len(known) == len(part)):
                out[i] = fn(known)
    return pd.Series(out, index=x.index)


def _r(self):
    lo, hi = _extreme(self._low, self._window, self._fillna, np.min), _extreme(self._high, self._window, self._fillna, np.max)
    self._stoch_k = 100 * (self._close - lo) / (hi - lo)
StochasticOscillator._run = _r


def _r(self):
    so = StochasticOscillator(self._high, self._low, self._close, self._lbp, 1, self._fillna)
    self._wr = so._stoch_k - 100
WilliamsRIndicator._run = _r


def _r(self):
    prev = self._close.shift(1)
    low = pd.concat([self._low, prev], axis=1).min(axis=1, skipna=False)
    pressure, tr = self._close - low, self._true_range(self._high, self._low, prev)

    def average(w):
        mp = 0 if self._fillna else w
        return pressure.rolling(w, min_periods=mp).sum().div(tr.rolling(w, min_periods=mp).sum())
    parts = [average(w) for w in (self._window1, self._window2, self._window3)]
    weights = [self._weight1, self._weight2, self._weight3]
    self._uo = 100.0 * sum(a * b for a, b in zip(weights, parts)) / sum(weights)
UltimateOscillator._run = _r


def _r(self):
    self._rsi = RSIIndicator(close=self._close, window=self._window, fillna=self._fillna).rsi()
    lo = self._rsi.rolling(self._window).min()
    self._stochrsi = (self._rsi - lo).div(self._rsi.rolling(self._window).max() - lo)
    self._stochrsi_k = self._stochrsi.rolling(self._smooth1).sum() / self._smooth1
StochRSIIndicator._run = _r
''',
    'trend': '''
def _r(self):
    c = self._close.astype(float)
    w = self._window
    total = sum(c.shift(w - i) * (i * 2 / (w * (w + 1))) for i in range(1, w + 1))
    self._wma = total
WMAIndicator._run = _r


def _r(self):
    def up(values, pick):
        v = np.asarray(values, dtype=float)
        w = self._window
        out = np.full(len(v), np.nan)
        for i in range(len(v)):
            x = v[max(0, i - w):i + 1]
            if np.isnan(x).any() and not self._fillna:
                continue
            if len(x) == w + 1 or self._fillna:
                out[i] = 100.0 * (w - (len(x) - 1 - pick(x))) / w
        return pd.Series(out, index=values.index)
    self._aroon_up, self._aroon_down = up(self._high, np.argmax), up(self._low, np.argmin)


def _rr(self):
    _r2(self)
_r2 = _r
AroonIndicator._run = _rr


def _r(self):
    fast, slow = (_ema(self._close, w, self._fillna) for w in (self._window_fast, self._window_slow))
    line = fast - slow
    self._emafast, self._emaslow, self._macd = fast, slow, line
    self._macd_signal = line.ewm(alpha=2 / (self._window_sign + 1), min_periods=0 if self._fillna else self._window_sign, adjust=False).mean()
    self._macd_diff = line - self._macd_signal
MACD._run = _r


def _r(self):
    prev = self._close.shift(1)
    mp = 0 if self._fillna else self._window
    tr = self._true_range(self._high, self._low, prev)
    ratio = lambda a, b: (a - b.shift(1)).abs().rolling(self._window, min_periods=mp).sum() / tr.rolling(self._window, min_periods=mp).sum()
    self._vip, self._vin = ratio(self._high, self._low), ratio(self._low, self._high)
VortexIndicator._run = _r


def _r(self):
    def part(r, w):
        past = self._close.shift(r)
        return (self._close / past - 1).rolling(w, min_periods=0 if self._fillna else w).mean()
    pairs = [(self._r1, self._window1), (self._r2, self._window2), (self._r3, self._window3), (self._r4, self._window4)]
    self._kst = 100 * sum((k + 1) * part(r, w) for k, (r, w) in enumerate(pairs))
    self._kst_sig = self._kst.rolling(self._nsig, min_periods=0 if self._fillna else self._nsig).mean()
KSTIndicator._run = _r


def _r(self):
    amp = self._high - self._low
    once = _ema(amp, self._window_fast, self._fillna)
    mass = once / _ema(once, self._window_fast, self._fillna)
    mp = 0 if self._fillna else self._window_slow
    self._mass = mass.rolling(self._window_slow, min_periods=mp).sum()
MassIndex._run = _r


def _r(self):
    macd = _ema(self._close, self._window_fast, self._fillna) - _ema(self._close, self._window_slow, self._fillna)

    def stochastic(x):
        roll = x.rolling(window=self._cycle)
        lo, hi = roll.min(), roll.max()
        return (x - lo) / (hi - lo) * 100
    d = _ema(stochastic(macd), self._smooth1, self._fillna)
    self._stc = _ema(stochastic(d), self._smooth2, self._fillna)
STCIndicator._run = _r
''',
    'volatility': '''
def _r(self):
    mp = 1 if self._fillna else self._window
    mean = lambda x: x.rolling(self._window, min_periods=mp).mean()
    if self._original_version:
        tp, span = (self._high + self._low + self._close) / 3.0, self._high - self._low
        self._tp, self._tp_high, self._tp_low = mean(tp), mean(tp + span), mean(tp - span)
    else:
        self._tp = self._close.ewm(span=self._window, min_periods=mp, adjust=False).mean()
        atr = AverageTrueRange(self._high, self._low, self._close, self._window_atr, self._fillna).average_true_range()
        self._tp_high, self._tp_low = self._tp + self._multiplier * atr, self._tp - self._multiplier * atr
KeltnerChannel._run = _r


def _r(self):
    mp = 0 if self._fillna else self._window
    roll = self._close.rolling(window=self._window, min_periods=mp)
    self._mavg, self._mstd = roll.mean(), roll.std(ddof=0)
    self._hband, self._lband = (self._mavg + k * self._window_dev * self._mstd for k in (1, -1))
BollingerBands._run = _r


def _r(self):
    top = self._close.rolling(self._window, min_periods=1).max()
    r = 100 * (self._close - top) / top
    self._ulcer_idx = r.rolling(self._window).apply(lambda x: (np.dot(x, x) / self._window) ** 0.5, raw=True)
UlcerIndex._run = _r
''',
    'volume': '''
def _r(self):
    typical = (self._high + self._low + self._close) / 3.0
    before = typical.shift(1)
    flow = typical * self._volume
    mp = 0 if self._fillna else self._window
    inflow = flow.where((typical > before) | flow.isna(), 0.0).rolling(self._window, min_periods=mp).apply(np.nansum, raw=True)
    outflow = flow.where((typical < before) | flow.isna(), 0.0).rolling(self._window, min_periods=mp).apply(np.nansum, raw=True)
    ratio = inflow / outflow
    self._mfi = 100 - (100 / (1 + ratio))
MFIIndicator._run = _r


def _r(self):
    typical = (self._high + self._low + self._close) / 3.0
    mp = 0 if self._fillna else self._window
    mean = lambda x: x.rolling(self._window, min_periods=mp).mean()
    self.vwap = mean(typical * self._volume) / mean(self._volume)
VolumeWeightedAveragePrice._run = _r


def _r(self):
    clv = ((self._close - self._low) - (self._high - self._close)) / (self._high - self._low)
    mfv = clv.fillna(0.0) * self._volume
    mp = 0 if self._fillna else self._window
    mean = lambda x: x.rolling(self._window, min_periods=mp).mean()
    self._cmf = mean(mfv) / mean(self._volume)
ChaikinMoneyFlowIndicator._run = _r
''',
    'others': '''
def _r(self):
    v = np.asarray(self._close, dtype=float)
    out = np.full(len(v), np.nan)
    out[1:] = (v[1:] / v[:-1] - 1) * 100
    self._dr = pd.Series(out, index=self._close.index)
DailyReturnIndicator._run = _r


def _r(self):
    logs = np.log(self._close)
    self._dr = (logs - logs.shift(1)) * 100
DailyLogReturnIndicator._run = _r
''',
}


def main():
    args = sys.argv[1:]
    sets = args.pop(0) if args and set(args[0]) <= set('ABC') else 'ABC'
    ids = args or [f'P{i:02d}' for i in range(1, 38)]
    bad = 0
    for s in sets:
        copy = f'/tmp/refactor-{s}'
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree(REPO, copy, symlinks=True)
        for mod, text in dict(A=A, B=B, C=C)[s].items():
            with open(f'{copy}/ta/{mod}.py', 'a') as f:
                f.write('\n' + text)
        r = subprocess.run([sys.executable, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'python_files=*.py', 'test/unit'], cwd=copy,
                           capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=copy))
        print(s, 'tests:', r.stdout.strip().splitlines()[-1], flush=True)
        print('\n'.join(x for x in r.stdout.splitlines() if x.startswith('FAILED')))
        for i in ids:
            r = subprocess.run([sys.executable, f'{HERE}/run.py', i, '--no-evidence'], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=copy))
            quiet = r.returncode == 0
            bad += not quiet
            print(s, i, 'quiet' if quiet else f'ALARM rc={r.returncode}\n' + '\n'.join(x[:420] for x in r.stdout.splitlines()[-6:]),
                  flush=True)
        shutil.rmtree(copy)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
