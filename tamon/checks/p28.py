"""undefined leading rows only delay; an undefined bar in the middle only affects windows that contain it"""
from .common import *

CASES = dict(quick=14400, thorough=255000)
RULE = ('One evaluation = one output on a history preceded by undefined rows (as produced by another indicator), which must be the same '
        'output delayed; or, for windowed outputs, on a history with one undefined bar, which must be unchanged wherever that bar is '
        'outside the look-back. Distinct by (case, output, parameters, number or position of undefined rows); non-trivial when the '
        'compared rows hold at least two different defined values.')
NOT = ('RSIIndicator', 'StochRSIIndicator', 'KAMAIndicator', 'ADXIndicator', 'PSARIndicator', 'AverageTrueRange', 'CumulativeReturnIndicator',
       'KeltnerChannel')
LEAD = [c for c in CLASSES if c.cls not in NOT]


_w = lambda p: int(p['window'])  # noqa
BLANK = {'SMAIndicator.sma_indicator': _w, 'WMAIndicator.wma': _w, 'CCIIndicator.cci': _w,
         'AwesomeOscillatorIndicator.awesome_oscillator': lambda p: max(int(p['window1']), int(p['window2'])),
         'IchimokuIndicator.ichimoku_conversion_line': lambda p: int(p['window1']),
         'IchimokuIndicator.ichimoku_base_line': lambda p: int(p['window2']), 'WilliamsRIndicator.williams_r': lambda p: int(p['lbp']),
         'StochasticOscillator.stoch': _w, 'AroonIndicator.aroon_up': lambda p: _w(p) + 1, 'AroonIndicator.aroon_down': lambda p: _w(p) + 1,
         'AroonIndicator.aroon_indicator': lambda p: _w(p) + 1, 'VolumeWeightedAveragePrice.volume_weighted_average_price': _w,
         'UlcerIndex.ulcer_index': _w, 'DailyReturnIndicator.daily_return': lambda p: 2, 'DPOIndicator.dpo': _w,
         'DailyLogReturnIndicator.daily_log_return': lambda p: 2, 'EaseOfMovementIndicator.ease_of_movement': lambda p: 2,
         'EaseOfMovementIndicator.sma_ease_of_movement': lambda p: _w(p) + 1, 'MFIIndicator.money_flow_index': _w}
BLANK.update({f'BollingerBands.bollinger_{g}': _w for g in ('mavg', 'hband', 'lband', 'wband', 'pband')})
BLANK.update({f'KeltnerChannel.keltner_channel_{g}': _w for g in ('mband', 'hband', 'lband', 'wband', 'pband')})


BLANK['ROCIndicator.roc'] = lambda p: (0, int(p['window']))      # only the first and last row of the window count


def case(index, rng, mon):
    pd = MODS['pd']
    mkt, st, data = setup(rng, mon, plain=.7, lo=3)
    n = mkt.n
    rel = ref.inputs(mkt)
    gap = index % 3 == 0
    idx = data['close'].index
    if gap:
        j = int(rng.integers(0, n))
        d2 = {}
        part = None if rng.random() < .65 else str(rng.choice(['high', 'low', 'close', 'volume']))      # one value missing only
        for c, s in data.items():
            v = np.asarray(s, float).copy()
            if part in (None, c):
                v[j] = np.nan
            d2[c] = pd.Series(v, index=idx, name=s.name)
        for spec, p, _ in run_all(mon, data, n, rng, 8, fills=(False,), pool=WINDOWED):
            if spec.cls == 'KeltnerChannel':
                p['original_version'] = True
            try:
                a, b = mon.arrays(spec, data, p, False), mon.arrays(spec, d2, p, False)
            except Abort:
                continue
            x = None
            for o in spec.outs:
                L = lookback(o.id, p)
                keep = np.ones(n, bool)
                keep[j:j + L] = False
                u, v = np.where(keep, a[o.getter], 0), np.where(keep, b[o.getter], 0)
                bad = differ(u, v)
                if len(bad):
                    x = x or ref.R[spec.cls](rel, p, False)
                    bad = excuse(bad, u, v, x[o.getter])
                if o.id in BLANK and part is None:        # outputs whose every row needs all rows of its window
                    m = np.zeros(n, bool)
                    need = BLANK[o.id](p)
                    for d in range(need) if isinstance(need, int) else need:
                        m[j + d:j + d + 1] = True
                    mon.per[o.id + '/gap undefined'] += 1
                    live = np.nonzero(m & np.isfinite(b[o.getter]))[0]
                    if len(live):
                        i = int(live[0])
                        mon.violation(o.id, f'row {i} is {fmt(b[o.getter][i])} although row {j}, inside its window, is undefined', params=p,
                                      fillna=False)
                mon.per[o.id + '/gap'] += 1
                mon.note((o.id, 'gap', j, part, pkey(p)), nontrivial(a[o.getter][keep]), keep.sum(), output=o.id, params=p, rows=n, undefined_row=j, undefined=part or 'all')
                if len(bad):
                    i = int(bad[0])
                    mon.violation(o.id, f'row {i} changes from {fmt(u[i])} to {fmt(v[i])} when row {j}, outside its look-back of {L} '
                                  f'rows, is undefined ({part or "all columns"})', params=p, fillna=False)
        return
    k = int(rng.integers(1, 40))
    i2 = gen.index(rng, n + k, st['index'])
    d2 = {c: pd.Series(np.concatenate([np.full(k, np.nan), np.asarray(s, float)]), index=i2, name=s.name) for c, s in data.items()}
    for spec, p, fill in run_all(mon, data, n, rng, 8, pool=LEAD):
        if fill and (spec.cls in ('AroonIndicator', 'CCIIndicator', 'MFIIndicator') or p.get('visual')):     # these count or repeat the undefined rows
            fill = False
        try:
            a = mon.arrays(spec, data, p, fill)
            for g, s in mon.run(spec, d2, p, fill).items():
                o = [o for o in spec.outs if o.getter == g][0]
                b = mon.arr(s, n + k, o.id, p, fill)
                same(mon, o, a[g], b[k:], f'when {k} undefined rows come first', p, fill, lambda: ref.model(spec, mkt, p, fill, rel),
                     key=(k,), leading=k)
        except Abort:
            continue
