"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOM = ('every history of at least one row with positive prices, low <= open, close <= high and volume >= 0, any parameter values '
       '(window lengths from 1 to far beyond the history), fillna on and off, any index')
T = ('The tests compare the last five rows of a few fixed spreadsheets of about thirty rows, with default parameters, fillna off and a '
     '0..n-1 index')
MOM, TR, VO, VL, OT, UT, WR = ('ta/momentum.py', 'ta/trend.py', 'ta/volatility.py', 'ta/volume.py', 'ta/others.py', 'ta/utils.py', 'ta/wrapper.py')
ALL = [MOM, TR, VO, VL, OT, UT]


def m(*pairs):
    return [dict(name=a, where=b) for a, b in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, how, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, how=how, state=state))


prop('P01', 'No look-ahead: later rows never change an earlier result',
     'The value an indicator reports for a row depends only on that row and the rows before it: cutting the history after the row, '
     'appending further bars or replacing all later bars leaves it unchanged. The only exception is fillna=True on price-level lines '
     '(bands, Ichimoku lines, PSAR lines), whose rows before their first value are filled with that first value.',
     ['inputs', 'histories'], DOM + '; every row t and every continuation after it',
     T + '; none of them computes the same rows twice with different futures.', ALL,
     m(('backward windows, ewm and shift(k>=0) only', 'ta/*.py _run methods'), ('forward fill in IndicatorMixin._check_fillna', UT)),
     'Every generated history is recomputed with its future cut, replaced, rescaled, frozen or extended; rows up to t must agree '
     'within a rounding bound.', 'differential runs on altered futures')
prop('P02', 'Windowed indicators forget what lies outside their window',
     'An indicator defined over a fixed look-back (simple and weighted averages, rate of change, Aroon, CCI, DPO, KST, Vortex, Ichimoku, '
     'stochastic, Williams %R, ultimate oscillator, awesome oscillator, Bollinger, Donchian and original Keltner bands, ulcer index, CMF, '
     'MFI, VWAP, ease of movement, period returns) gives for a row the same value whatever happened before that look-back. This '
     'holds with fillna off, for any change of the older rows including dropping them.',
     ['inputs', 'histories'], DOM + '; every cut point', T + '; a value that depends on older rows is invisible on one fixed history.',
     [MOM, TR, VO, VL, OT], m(('rolling windows', 'ta/*.py _run methods')),
     'Older rows are dropped, replaced, rescaled or frozen and the remaining rows recomputed.', 'differential runs on altered pasts')
FORM = 'Each output is compared row by row with an independent executable model that carries its own rounding-error bound; rows decided by rounding noise are not judged.'
FHOW = 'online comparison with an executable reference model'
prop('P03', 'Momentum oscillators follow their published formulas',
     'RSI, TSI, ultimate oscillator, stochastic oscillator and its signal, Williams %R, StochRSI with its K and D lines, rate of change '
     'and awesome oscillator report, for every row from the end of their warm-up, the value of their published formula for the windows, '
     'smoothing lengths and weights they were given.', ['inputs', 'configurations'], DOM, T + '.', [MOM],
     m(('RSIIndicator, TSIIndicator, UltimateOscillator, StochasticOscillator, WilliamsRIndicator, StochRSIIndicator, ROCIndicator, '
        'AwesomeOscillatorIndicator', MOM)), FORM, FHOW)
prop('P04', 'Moving averages, MACD, PPO, PVO, TRIX, KAMA follow their formulas',
     'EMA, SMA, WMA, KAMA, MACD, PPO, PVO (line, signal, histogram) and TRIX report for every row the value of their published '
     'formula for the given windows: exponential averages are seeded with the first price and use the smoothing factor 2/(window+1).',
     ['inputs', 'configurations'], DOM, T + '.', [TR, MOM, UT],
     m(('EMAIndicator, SMAIndicator, WMAIndicator, MACD, TRIXIndicator', TR), ('KAMAIndicator, PercentagePriceOscillator, '
                                                                               'PercentageVolumeOscillator', MOM), ('_ema, _sma', UT)), FORM, FHOW)
prop('P05', 'Trend oscillators follow their published formulas',
     'Aroon up, down and indicator, mass index, Ichimoku conversion and base line and spans A and B (plain and displaced for plotting), KST '
     'with signal and difference, DPO, CCI, vortex lines and Schaff trend cycle report for every row the value of their published '
     'formula for the parameters given.', ['inputs', 'configurations'], DOM, T + '.', [TR],
     m(('AroonIndicator, MassIndex, IchimokuIndicator, KSTIndicator, DPOIndicator, CCIIndicator, VortexIndicator, STCIndicator', TR)), FORM, FHOW)
prop('P06', "ADX, +DI and -DI follow Wilder's directional movement system",
     "The directional indicators and the average directional index equal Wilder's smoothed sums of directional movement and true range "
     'for the given window, on every row, and are 0 while the system is warming up.', ['inputs', 'histories', 'configurations'], DOM, T + '.', [TR],
     m(('ADXIndicator', TR)), FORM, FHOW, [dict(name='smoothed TR, +DM, -DM', meaning='Wilder running sums', where=TR)])
prop('P07', 'Parabolic SAR follows its recursion and reversal rules',
     'The parabolic SAR starts in an up-trend, accelerates by the step at every new extreme up to the maximum, never enters the range of '
     'the two preceding bars, and reverses to the extreme point exactly when price crosses it; the up and down lines show it in the trend '
     'in force and the indicator flags mark the first row of each trend.', ['inputs', 'histories', 'configurations'], DOM, T + '.', [TR],
     m(('PSARIndicator', TR)), FORM, FHOW, [dict(name='trend direction, acceleration factor, extreme point', meaning='state of the recursion', where=TR)])
prop('P08', 'Volatility indicators follow their published formulas',
     'Average true range, Bollinger bands, Keltner channel (original and EMA/ATR version), Donchian channel (with offset) and ulcer index, with '
     'their width, percentage and crossing outputs, report for every row the value of their published formula for the parameters given.',
     ['inputs', 'configurations'], DOM, T + '.', [VO, UT],
     m(('AverageTrueRange, BollingerBands, KeltnerChannel, DonchianChannel, UlcerIndex', VO), ('IndicatorMixin._true_range', UT)), FORM, FHOW)
prop('P09', 'Cumulative volume lines accumulate every bar exactly once',
     'Accumulation/distribution, on-balance volume, volume-price trend (with optional smoothing and dropping of undefined rows) and the negative '
     'volume index add the contribution of each bar exactly once and in row order, including bars with no range, no volume or an '
     'unchanged close.', ['inputs', 'histories'], DOM, T + '; a mistake that needs a flat bar, zero volume or a long history does not show there.', [VL],
     m(('AccDistIndexIndicator, OnBalanceVolumeIndicator, VolumePriceTrendIndicator, NegativeVolumeIndexIndicator', VL)), FORM, FHOW)
prop('P10', 'Windowed volume indicators follow their published formulas',
     'Chaikin money flow, force index, ease of movement and its average, money flow index and VWAP report for every row the value of '
     'their published formula over the given window, including windows with no volume, no range or one-sided flow.',
     ['inputs', 'configurations'], DOM, T + '.', [VL],
     m(('ChaikinMoneyFlowIndicator, ForceIndexIndicator, EaseOfMovementIndicator, MFIIndicator, VolumeWeightedAveragePrice', VL)), FORM, FHOW)
prop('P11', 'Returns: daily, logarithmic and cumulative',
     'The daily return is the percentage change from the row before, the daily log return its logarithmic counterpart and the cumulative '
     'return the percentage change from the first row, on every row and for every index.', ['inputs'], DOM, T + '.', [OT],
     m(('DailyReturnIndicator, DailyLogReturnIndicator, CumulativeReturnIndicator', OT)), FORM, FHOW)
prop('P12', 'Warm-up: undefined before enough history, defined from then on',
     'With fillna off (the default) an output is undefined on exactly the rows for which its windows are not yet filled, and has a value from the first '
     'row on which they are, unless its formula has no value there (division by zero). ADX and ATR report 0 instead of undefined '
     'while warming up; cumulative lines, PSAR and crossing flags have no warm-up.',
     ['inputs', 'configurations'], DOM, T + '; the first rows and other windows are never looked at.', ALL,
     m(('min_periods of rolling and ewm', 'ta/*.py _run methods')),
     'An independent table of warm-up lengths is compared with the defined / undefined pattern of every output.', 'monitor of definedness against a warm-up table')
prop('P13', 'fillna=True leaves no row undefined and fills by one rule',
     'With fillna=True every output has a finite number on every row. A row without a value of its own repeats the last value before it; rows '
     'before the first value hold the documented neutral level of the indicator (for price-level bands and lines their first value, for KAMA '
     'the close). Rows that have a value without fillna keep it, except where a second smoothing, KAMA or a flag starts earlier because what it '
     'is computed from is filled.', ['inputs', 'configurations'], DOM, T + '; the fillna tests only look at the last rows of ordinary histories.', ALL,
     m(('IndicatorMixin._check_fillna', UT), ('min_periods = 0 when filling', 'ta/*.py _run methods')),
     'Every row is tested for finiteness and filled rows for the fill rule. Two known findings are listed in KNOWN_FINDINGS.txt.', 'totality monitor plus fill-rule oracle')
prop('P14', 'Bounded outputs never leave their bounds',
     'Oscillators stay in their scale (RSI, MFI, stochastics, ultimate oscillator, STC, ADX, DI, Aroon, ulcer 0..100; Williams %R -100..0; TSI and the '
     'Aroon indicator -100..100; StochRSI 0..1; CMF -1..1), flags are 0 or 1, ranges, widths and vortex lines are not negative and returns not below '
     '-100. Averages, channel lines and the parabolic SAR stay within the range of the prices they summarise.',
     ['inputs'], DOM, T + '.', ALL, m(('formulas of the bounded indicators', 'ta/*.py'), ('zero-denominator handling', 'ta/*.py')),
     'Bounds are tested on every row of every output; excursions within the rounding bound are tolerated.', 'invariant monitor on every row')
prop('P15', 'Bands, width, percent position and crossing flags agree',
     'For Bollinger, Keltner and Donchian channels, high band >= middle >= low band on every row; the width is 100 * (high - low) / middle (for '
     'Donchian: relative to the average close), the percentage is the position of the close between low and high band, and the '
     'crossing flags are 1 exactly when the close is above the high band or below the low band.',
     ['inputs', 'configurations'], DOM, T + '.', [VO], m(('BollingerBands, KeltnerChannel, DonchianChannel getters', VO)),
     "Relations are evaluated on the library's own outputs, row by row.", 'cross-output invariant monitor')
prop('P16', 'Results follow row order and carry the input index',
     'Every result has one row per input row under exactly the index of the input, and its values depend on the order of the rows only, never on '
     'the labels: the same bars under dates, strings, unsorted, duplicated or multi-level labels, other Series names or another memory '
     'layout give the same values, for the classes and for the feature-frame wrappers.',
     ['inputs', 'configurations'], DOM + '; 20 kinds of index, 7 memory layouts', T + '.', ALL + [WR],
     m(('positional access (iloc) in loops', 'ta/trend.py, ta/volatility.py, ta/momentum.py, ta/volume.py'), ('index passed to new Series', 'ta/*.py')),
     'Each history is run plainly and under another dressing; values by position, index, index names and index type are compared.', 'differential runs on re-labelled inputs')
prop('P17', 'Whole-number columns give the same results as floats',
     'Prices and volumes stored as integers (32 or 64 bit prices, signed or unsigned 32 or 64 bit volumes, any mix of column types) give the '
     'same results as the same numbers stored as 64-bit floats, for the classes and for the feature-frame wrappers.',
     ['inputs', 'configurations'], DOM + '; 32-bit prices below 2^28', T + ', all read as floats.', ALL + [WR],
     m(('float64 result columns', 'ta/trend.py, ta/volatility.py, ta/volume.py, ta/momentum.py')),
     'Each whole-number history is run as floats and as integers.', 'differential runs on re-typed inputs')
prop('P18', 'Changing the unit of prices or volumes only rescales results',
     'Multiplying all prices by a constant multiplies price-level outputs (averages, MACD, AO, DPO, ATR, bands, Ichimoku, PSAR, KAMA, VWAP) '
     'by it, force index as well and ease of movement by its square, and leaves every ratio, oscillator, flag and return unchanged. Multiplying all '
     'volumes by a constant multiplies ADI, OBV, VPT and force index by it, divides ease of movement by it and leaves the rest unchanged.',
     ['inputs'], DOM + '; factors from 2^-20 to 2^20 and small whole numbers', T + ', at one price level.', ALL,
     m(('absence of absolute thresholds in the formulas', 'ta/*.py')),
     'Each history is run in two units (mostly powers of two, so the arithmetic is exact).', 'differential runs on rescaled inputs')
prop('P19', "The caller's data is never modified",
     'Constructing an indicator, reading its outputs, calling a convenience function or dropna leaves every Series and frame passed in exactly as it was: '
     'values, index, names, types and attributes, also after a returned result was edited. The wrappers only add columns: the original columns, their order and the index of the frame are untouched.',
     ['inputs', 'histories'], DOM + '; columns of a frame, views, strided and read-only memory', T + '; no test looks at its input after the call.', ALL + [WR],
     m(('working on new Series', 'ta/*.py _run methods'), ('df.copy() in dropna', UT)),
     'Digests of everything passed in are taken before and after every call; read-only buffers turn hidden writes into exceptions.', 'before/after digests and read-only buffers')
prop('P20', 'Results are a function of the inputs alone',
     'An indicator gives the same result however often, in whatever order and by however many threads its outputs are read, whatever other indicators were computed before, in between '
     'or in other threads, after its inputs were updated in place and it was built again, and after the caller edited an earlier result, '
     'and under any pandas copy-on-write, warning or random-seed setting. Computing leaves the numpy, pandas and warning settings of the process as they were.',
     ['histories', 'schedules', 'configurations'], DOM + '; call sequences of up to about 100 calls, 15 threads',
     T + ', each output read once from a fresh instance in one thread.', ALL,
     m(('results computed in the constructor and only read by the getters', 'ta/*.py'), ('no module-level state', 'ta/*.py')),
     'Seven call-history scenarios (repeat with edited results, interleave, variants, update in place, identity reuse, settings, threads) are compared with isolated runs - '
     'also in a freshly imported library - and with the reference model.',
     'history monitor against isolated runs')
prop('P21', 'Convenience functions equal their classes',
     'Every module-level convenience function returns the same values, index and name as the class output it stands for with the same arguments, '
     'whether they are passed by name, by position or left out; an argument left out of a class or function takes its documented default.', ['inputs', 'configurations'], DOM, T + '.',
     [MOM, TR, VO, VL, OT], m(('convenience functions', 'ta/*.py')), 'All 80 functions are called in five styles and compared with the class.', 'differential runs, function against class')
prop('P22', 'Feature frames hold every promised column, equal to its indicator',
     'The wrappers return the frame with its original columns and rows plus exactly the documented feature columns (without the slow ones when '
     'vectorized), each with the requested prefix and equal to its indicator run on the named columns with the documented parameters and the given fillna, '
     'whatever the source columns are called and also when its own output is passed again.', ['inputs', 'configurations'], DOM + '; source names and prefixes, column order, vectorized on/off',
     T + '; the wrapper tests are not among the reliable ones and only call them.', [WR], m(('add_*_ta', WR)),
     'Column set, order of originals, prefix and values of all 86 columns are compared with the classes on every call.', 'differential runs, wrapper against class')
prop('P23', 'dropna keeps exactly the clean rows',
     'The cleaning helper returns exactly the rows in which no column is missing and no numeric column is zero or at least e^709, with values, labels, '
     'columns and order unchanged, whatever else the frame holds; cleaning a clean frame changes nothing.', ['inputs'],
     'every frame of at least one row; float, half and single precision, integer (any width, also beyond 2^53), nullable, text, date, duration, period, categorical, boolean and mixed columns; any index and column labels', 'One fixed frame is tested.', [UT], m(('dropna', UT)),
     'Frames with planted missing, zero, infinite and near-limit values are compared with the rule.', 'oracle over generated frames')
prop('P24', 'Any history length works',
     'Every indicator and wrapper accepts any history from one row on, however long its windows are: it raises nothing, returns one row per input row, finite '
     'when fillna is on, and gives for these rows the values a longer history gives.', ['inputs', 'histories', 'configurations'],
     'histories of 1..90 rows, lengths around every window boundary, windows up to 250; flat histories included', T + '; histories shorter than a window are never tried.', ALL + [WR],
     m(('length guards', 'ta/trend.py, ta/volatility.py')), 'Each history is replayed at all interesting lengths.', 'length sweep with exception and shape monitor')
prop('P25', 'Outputs of related indicators fit together',
     'The identities between outputs hold on every row: histograms are line minus signal, signals are the stated average of their line, MACD and PPO come from the EMAs, Williams %R is stochastic minus 100, '
     'StochRSI is the stochastic of RSI, Ichimoku lines are Donchian middles, the Keltner EMA version is EMA +- multiplier * ATR, TRIX is the change of a triple EMA, CMF is the change of ADI over volume. '
     'Daily and log returns compound to the cumulative return, and every PSAR row from the third on lies in exactly one trend.',
     ['inputs', 'configurations'], DOM, T + ', one indicator at a time.', ALL, m(('shared formulas', 'ta/*.py')),
     "About forty identities evaluated on the library's own outputs.", 'cross-indicator invariant monitor')
prop('P26', 'Results carry their documented names',
     'Every result Series has the documented name of its output, with the actual window lengths in it where the name contains them, whatever the '
     'names of the input Series and the other arguments.', ['inputs', 'configurations'], DOM, T + '; names are checked for few outputs and default windows only.', [MOM, TR, VO, VL, OT],
     m(('name argument of the returned Series', 'ta/*.py getters')), 'Names of all 84 outputs against a table.', 'oracle table')
prop('P27', 'Mirrored prices mirror the results',
     'Replacing every price p by K - p (so highs become lows) exchanges the bullish and the bearish side: signed oscillators (AO, MACD, CCI, DPO, TSI, CMF, ADI, force index, '
     'ease of movement) change sign, scaled ones (RSI, stochastics, Williams %R, ultimate oscillator, STC, StochRSI) are reflected, averages and channels are reflected with high and low band '
     'exchanged, up/down and +/- pairs (Aroon, ADX, vortex, crossing flags) swap, and ranges (ATR, mass index) stay.',
     ['inputs'], DOM + '; fillna off; RSI on motionless prices and OBV across unchanged closes excepted', T + '.', ALL, m(('up/down branches of each formula', 'ta/*.py')),
     'Each history on an exact price grid is run with its mirror image.', 'metamorphic differential runs')
prop('P28', 'Undefined leading rows only delay; gaps stay inside their window',
     'Rows without data before the history (as another indicator produces them) only delay the result: the remaining rows get the same values as without them (RSI, StochRSI, KAMA, ADX, ATR, PSAR, Keltner and cumulative return excepted; with fillna=True also Aroon, CCI, MFI and displaced Ichimoku spans). '
     'A single row inside the history without data, or with one value missing, affects a windowed indicator only on rows whose look-back contains it; results that need every row of their window are undefined there.',
     ['inputs', 'histories'], DOM + '; fillna on and off for leading rows, off for gaps; 1..40 leading rows, any gap position', T + ' without missing values.', ALL,
     m(('min_periods counting and nan handling of rolling and ewm', 'ta/*.py')), 'Each history is run with undefined leading rows or one undefined bar.', 'differential runs with missing rows')

prop('P29', 'Adding a constant to all prices only shifts price lines',
     'Adding a constant to every price moves the lines on the price axis (averages, Ichimoku lines, channel lines, PSAR, KAMA, VWAP) by that constant and leaves everything made '
     'of price differences unchanged: RSI, TSI, ultimate, stochastics, Williams %R, StochRSI, AO, MACD, Aroon, mass index, DPO, CCI, ADX, vortex, STC, ATR, channel positions and '
     'flags, ADI, OBV, CMF, force index, ease of movement.', ['inputs'], DOM + '; constants from one tick to 4096 times the price, prices stay positive', T + ', at one price level.', ALL,
     m(('price differences in the formulas', 'ta/*.py')), 'Each history on an exact grid is run at two price levels.', 'metamorphic differential runs')
prop('P30', 'Linear indicators of a combined history combine',
     'Indicators that are linear in their input (EMA, SMA, WMA, MACD, DPO, Bollinger middle; in whole bars also AO, the original Keltner lines, VWAP and force index; in volumes ADI, OBV, VPT '
     'and force index) give for a weighted sum of two histories (a basket, a spread, the volumes of two venues) the same weighted sum of their results.',
     ['inputs'], DOM + '; also series of any sign where the indicator takes one series', T + ', of one history.', [MOM, TR, VO, VL, UT],
     m(('rolling means, ewm and cumulative sums', 'ta/*.py')), 'Two histories and their weighted sum are run.', 'metamorphic differential runs')
prop('P31', 'Nothing outlives the references of the caller',
     'Once the caller has let go of inputs, indicator objects and results, nothing in the library keeps them or their memory alive, and repeating a call on new data does not make the process '
     'grow, for classes, convenience functions, wrappers and dropna.', ['histories', 'configurations'], DOM + '; sequences of up to about 20 calls on histories of up to 2500 rows',
     'No test looks at memory.', ALL + [WR], m(('no module-level state, no caches', 'ta/*.py')),
     'Weak references to everything passed in and handed out are tested after the last use; the allocator is read before and after repeated calls.', 'resource monitor (weak references, tracemalloc)',
     [dict(name='references held by the library', meaning='must be none between calls', where='ta/*.py')])
prop('P32', 'Copies and pickles of an indicator read the same',
     'A copy, deep copy or unpickled indicator object, made before or after its outputs were read and also in another process or after the original is gone or its inputs were overwritten, returns the same '
     'results as the original.', ['histories', 'configurations'], DOM + '; protocols 2 and highest', 'No test copies an indicator.', [MOM, TR, VO, VL, OT],
     m(('state computed in the constructor', 'ta/*.py')), 'Every output is read from the copy and compared with a fresh object.', 'history monitor against isolated runs')
prop('P33', 'Higher prices never push a result the wrong way',
     'A history that is nowhere lower has averages, channel and Ichimoku lines that are nowhere lower. A higher close in a bar (range unchanged) never lowers, in that bar, RSI, TSI, ultimate, stochastics, '
     'Williams %R, StochRSI, ROC, KST, TRIX, CCI, MACD (fast window shorter), averages, VWAP, ADI, OBV, VPT, NVI, CMF, force index, returns; a higher high never lowers ATR, Aroon up, AO or the channel tops.',
     ['inputs'], DOM, T + '; no test compares two histories.', ALL, m(('monotone formulas', 'ta/*.py')),
     'Each history on an exact grid is run with raised prices.', 'metamorphic differential runs')
prop('P34', 'Starting later: smoothed lines converge, sums shift',
     'Leaving out the oldest rows changes cumulative lines by one constant (ADI, OBV, VPT) or one factor (NVI, cumulative return) on all rows; recursive lines (EMA, MACD, PPO, PVO, TRIX, RSI, StochRSI, TSI, '
     'KAMA, mass index, ADX, ATR, STC, force index, EMA-based Keltner channel) forget their start at the rate of their smoothing and so converge to the same values while prices keep moving.',
     ['inputs', 'histories'], DOM + '; every cut; 45 smoothing times after it for the recursive lines, every row after it (against what can be left of the start) for EMA, MACD, PPO, PVO and TRIX', T + '; every test history starts once.', ALL,
     m(('ewm and recursions', 'ta/*.py'), ('cumulative sums', VL)), 'Each history is run from its start and from a later row.', 'differential runs on truncated pasts')
prop('P35', 'Indicators work per instrument inside pandas pipelines',
     'Applied through groupby (transform, apply, iteration), column-wise apply, assign or pipe to a frame holding several instruments (stacked, interleaved, repeated or multi-level labels), every convenience function and '
     'the full feature wrapper give each instrument exactly the values it has alone, whatever the order and size of the groups.', ['inputs', 'histories', 'configurations'],
     'frames of 2 to 5 instruments of 1 to 70 rows each; ' + DOM, 'No test passes a group of a larger frame.', ALL + [WR],
     m(('positional arithmetic on the Series given', 'ta/*.py'), ('add_all_ta_features', WR)), 'Group results are compared by row with the class run on each instrument alone.', 'differential runs, pipeline against isolated')
prop('P36', 'An output depends only on its own parameters and inputs',
     'Parameters of sibling outputs do not matter (signal windows to the line, smoothing to the raw oscillator, deviations and multipliers to the middle line, ATR window to the original Keltner channel, Ichimoku windows '
     'to the other lines), nor do inputs a formula does not use (Donchian high line: highs only, low line: lows only; Aroon up: highs, down: lows; EMA Keltner middle: closes); OBV, NVI and '
     'Aroon use only the order of the closes, volumes, highs and lows.', ['inputs', 'configurations'], DOM, T + ', with one parameter set each.', [MOM, TR, VO, VL],
     m(('parameters used by each getter', 'ta/*.py')), 'Each output is recomputed after a change it must not notice.', 'metamorphic differential runs')

prop('P37', 'Parameters act as documented: different runs fit together',
     'Runs of an indicator with different parameters fit together: exchanging fast and slow windows negates MACD and AO and inverts PPO and PVO, lines over chained windows add up or compound, averages and channels over two adjacent '
     'windows make those over the joint window, taking EMA, force index or ATR smoothing back gives one series for every window, bands and widths are proportional to deviations or multiplier, CCI to 1 / constant, only proportions '
     'and pairing of the ultimate weights count, Donchian offsets add up, smoothing over 1 row changes nothing, and a PSAR maximum never reached has no effect.', ['inputs', 'configurations'], DOM,
     T + ', with one or two parameter sets each.', [MOM, TR, VO, VL], m(('constructor parameters', 'ta/*.py')), 'Each relation compares outputs of runs with different parameters on one history.',
     'metamorphic differential runs')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = dict(files=p['files'], mechanism=p['mech'], observe_at=['public API: classes, getters, functions, wrappers'], hook_needed=None)
        if p['state']:
            a['state'] = p['state']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
man = dict(version=1, setup_cmd='/opt/venv/bin/python run.py --selfcheck', checks=[], not_applicable=[],
           notes='No hooks: every property is observed through the public API. Defects found were repaired by fix: commits in /repo, see KNOWN_FINDINGS.txt.')
for p in P:
    man['checks'].append(dict(property=p['id'], quick_cmd=f'/opt/venv/bin/python run.py {p["id"]} --tier quick',
                              thorough_cmd=f'/opt/venv/bin/python run.py {p["id"]} --tier thorough', evidence_file=f'evidence/{p["id"]}.json',
                              technique='runtime monitoring: ' + p['how'], level='exploration',
                              level_note=p['note'] + ' Sampled, not exhaustive; trusts numpy and pandas, and the reference model where one is used.'))
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties')
