"""What the public API of ta promises, as data: every indicator class, its inputs,
its parameters, its outputs (getter, convenience function, column name, neutral
fill level, bounds ...).  Nothing here looks at private names of the code under test."""

P = 'price-level'          # fill rule of outputs that live on the price axis: last defined, else first defined


class Out:
    def __init__(self, getter, func, name, neutral, **kw):
        self.getter = getter          # method on the class
        self.func = func              # module-level convenience function (or None)
        self.name = name              # template of the Series name, filled with the parameters
        self.neutral = neutral        # number, P, 'close' or None (never filled)
        self.bounds = kw.get('bounds')
        self.drop = kw.get('drop', ())     # parameters the convenience function does not take
        self.fixed = kw.get('fixed', {})   # ... and the values it uses for them
        self.fdef = kw.get('fdef', {})     # defaults of the function that differ from the class


class Cls:
    def __init__(self, module, cls, inputs, params, outs, **kw):
        self.module, self.cls, self.inputs = module, cls, tuple(inputs.split())
        self.params = params          # list of (name, kind, default)
        self.outs = outs
        self.need_default = kw.get('required', ())
        self.group = kw.get('group')
        for o in outs:
            o.cls = self
            o.id = f'{cls}.{o.getter}'

    def defaults(self):
        return {n: d for n, k, d in self.params}


W = 'window'
CLASSES = [
    # ---------------- momentum
    Cls('momentum', 'RSIIndicator', 'close', [('window', W, 14)],
        [Out('rsi', 'rsi', 'rsi', 50, bounds=(0, 100))], group='momentum'),
    Cls('momentum', 'TSIIndicator', 'close', [('window_slow', W, 25), ('window_fast', W, 13)],
        [Out('tsi', 'tsi', 'tsi', 0, bounds=(-100, 100))], group='momentum'),
    Cls('momentum', 'UltimateOscillator', 'high low close',
        [('window1', W, 7), ('window2', W, 14), ('window3', W, 28),
         ('weight1', 'weight', 4.0), ('weight2', 'weight', 2.0), ('weight3', 'weight', 1.0)],
        [Out('ultimate_oscillator', 'ultimate_oscillator', 'uo', 50, bounds=(0, 100))], group='momentum'),
    Cls('momentum', 'StochasticOscillator', 'high low close', [('window', W, 14), ('smooth_window', W, 3)],
        [Out('stoch', 'stoch', 'stoch_k', 50, bounds=(0, 100)),
         Out('stoch_signal', 'stoch_signal', 'stoch_k_signal', 50, bounds=(0, 100))], group='momentum'),
    Cls('momentum', 'KAMAIndicator', 'close', [('window', W, 10), ('pow1', 'pow1', 2), ('pow2', 'pow2', 30)],
        [Out('kama', 'kama', 'kama', 'close')], group='average'),
    Cls('momentum', 'ROCIndicator', 'close', [('window', W, 12)],
        [Out('roc', 'roc', 'roc', 0)], group='momentum'),
    Cls('momentum', 'AwesomeOscillatorIndicator', 'high low', [('window1', W, 5), ('window2', W, 34)],
        [Out('awesome_oscillator', 'awesome_oscillator', 'ao', 0)], group='momentum'),
    Cls('momentum', 'WilliamsRIndicator', 'high low close', [('lbp', W, 14)],
        [Out('williams_r', 'williams_r', 'wr', -50, bounds=(-100, 0))], group='momentum'),
    Cls('momentum', 'StochRSIIndicator', 'close', [('window', W, 14), ('smooth1', W, 3), ('smooth2', W, 3)],
        [Out('stochrsi', 'stochrsi', 'stochrsi', 0, bounds=(0, 1)),
         Out('stochrsi_k', 'stochrsi_k', 'stochrsi_k', 0, bounds=(0, 1)),
         Out('stochrsi_d', 'stochrsi_d', 'stochrsi_d', 0, bounds=(0, 1))], group='momentum'),
    Cls('momentum', 'PercentagePriceOscillator', 'close',
        [('window_slow', W, 26), ('window_fast', W, 12), ('window_sign', W, 9)],
        [Out('ppo', 'ppo', 'PPO_{window_fast}_{window_slow}', 0),
         Out('ppo_signal', 'ppo_signal', 'PPO_sign_{window_fast}_{window_slow}', 0),
         Out('ppo_hist', 'ppo_hist', 'PPO_hist_{window_fast}_{window_slow}', 0)], group='average'),
    Cls('momentum', 'PercentageVolumeOscillator', 'volume',
        [('window_slow', W, 26), ('window_fast', W, 12), ('window_sign', W, 9)],
        [Out('pvo', 'pvo', 'PVO_{window_fast}_{window_slow}', 0),
         Out('pvo_signal', 'pvo_signal', 'PVO_sign_{window_fast}_{window_slow}', 0),
         Out('pvo_hist', 'pvo_hist', 'PVO_hist_{window_fast}_{window_slow}', 0)], group='average'),
    # ---------------- trend
    Cls('trend', 'AroonIndicator', 'high low', [('window', W, 25)],
        [Out('aroon_up', 'aroon_up', 'aroon_up_{window}', 0, bounds=(0, 100)),
         Out('aroon_down', 'aroon_down', 'aroon_down_{window}', 0, bounds=(0, 100)),
         Out('aroon_indicator', None, 'aroon_ind_{window}', 0, bounds=(-100, 100))], group='trend'),
    Cls('trend', 'MACD', 'close', [('window_slow', W, 26), ('window_fast', W, 12), ('window_sign', W, 9)],
        [Out('macd', 'macd', 'MACD_{window_fast}_{window_slow}', 0, drop=('window_sign',), fixed={'window_sign': 9}),
         Out('macd_signal', 'macd_signal', 'MACD_sign_{window_fast}_{window_slow}', 0),
         Out('macd_diff', 'macd_diff', 'MACD_diff_{window_fast}_{window_slow}', 0)], group='average'),
    Cls('trend', 'EMAIndicator', 'close', [('window', W, 14)],
        [Out('ema_indicator', 'ema_indicator', 'ema_{window}', None, fdef={'window': 12})], group='average'),
    Cls('trend', 'SMAIndicator', 'close', [('window', W, 12)],
        [Out('sma_indicator', 'sma_indicator', 'sma_{window}', None)], required=('window',), group='average'),
    Cls('trend', 'WMAIndicator', 'close', [('window', W, 9)],
        [Out('wma', 'wma_indicator', 'wma_{window}', 0)], group='average'),
    Cls('trend', 'TRIXIndicator', 'close', [('window', W, 15)],
        [Out('trix', 'trix', 'trix_{window}', 0)], group='average'),
    Cls('trend', 'MassIndex', 'high low', [('window_fast', W, 9), ('window_slow', W, 25)],
        [Out('mass_index', 'mass_index', 'mass_index_{window_fast}_{window_slow}', 0)], group='trend'),
    Cls('trend', 'IchimokuIndicator', 'high low',
        [('window1', W, 9), ('window2', W, 26), ('window3', W, 52), ('visual', 'bool', False)],
        [Out('ichimoku_conversion_line', 'ichimoku_conversion_line', 'ichimoku_conv_{window1}_{window2}', P,
             drop=('window3',), fixed={'window3': 52}),
         Out('ichimoku_base_line', 'ichimoku_base_line', 'ichimoku_base_{window1}_{window2}', P,
             drop=('window3',), fixed={'window3': 52}),
         Out('ichimoku_a', 'ichimoku_a', 'ichimoku_a_{window1}_{window2}', P,
             drop=('window3',), fixed={'window3': 52}),
         Out('ichimoku_b', 'ichimoku_b', 'ichimoku_b_{window1}_{window2}', P,
             drop=('window1',), fixed={'window1': 9})], group='trend'),
    Cls('trend', 'KSTIndicator', 'close',
        [('roc1', W, 10), ('roc2', W, 15), ('roc3', W, 20), ('roc4', W, 30),
         ('window1', W, 10), ('window2', W, 10), ('window3', W, 10), ('window4', W, 15), ('nsig', W, 9)],
        [Out('kst', 'kst', 'kst', 0, drop=('nsig',), fixed={'nsig': 9}),
         Out('kst_sig', 'kst_sig', 'kst_sig', 0),
         Out('kst_diff', None, 'kst_diff', 0)], group='trend'),
    Cls('trend', 'DPOIndicator', 'close', [('window', W, 20)],
        [Out('dpo', 'dpo', 'dpo_{window}', 0)], group='trend'),
    Cls('trend', 'CCIIndicator', 'high low close', [('window', W, 20), ('constant', 'constant', 0.015)],
        [Out('cci', 'cci', 'cci', 0)], group='trend'),
    Cls('trend', 'ADXIndicator', 'high low close', [('window', W, 14)],
        [Out('adx', 'adx', 'adx', 20, bounds=(0, 100)),
         Out('adx_pos', 'adx_pos', 'adx_pos', 20, bounds=(0, 100)),
         Out('adx_neg', 'adx_neg', 'adx_neg', 20, bounds=(0, 100))], group='adx'),
    Cls('trend', 'VortexIndicator', 'high low close', [('window', W, 14)],
        [Out('vortex_indicator_pos', 'vortex_indicator_pos', 'vip', 1),
         Out('vortex_indicator_neg', 'vortex_indicator_neg', 'vin', 1),
         Out('vortex_indicator_diff', None, 'vid', 0)], group='trend'),
    Cls('trend', 'PSARIndicator', 'high low close', [('step', 'step', 0.02), ('max_step', 'max_step', 0.20)],
        [Out('psar', None, 'psar', P),
         Out('psar_up', 'psar_up', 'psarup', P),
         Out('psar_down', 'psar_down', 'psardown', P),
         Out('psar_up_indicator', 'psar_up_indicator', 'psariup', 0, bounds=(0, 1)),
         Out('psar_down_indicator', 'psar_down_indicator', 'psaridown', 0, bounds=(0, 1))], group='psar'),
    Cls('trend', 'STCIndicator', 'close',
        [('window_slow', W, 50), ('window_fast', W, 23), ('cycle', W, 10), ('smooth1', W, 3), ('smooth2', W, 3)],
        [Out('stc', 'stc', 'stc', 0, bounds=(0, 100))], group='trend'),
    # ---------------- volatility
    Cls('volatility', 'AverageTrueRange', 'high low close', [('window', W, 14)],
        [Out('average_true_range', 'average_true_range', 'atr', 0, bounds=(0, None))], group='volatility'),
    Cls('volatility', 'BollingerBands', 'close', [('window', W, 20), ('window_dev', 'dev', 2)],
        [Out('bollinger_mavg', 'bollinger_mavg', 'mavg', P, drop=('window_dev',), fixed={'window_dev': 2}),
         Out('bollinger_hband', 'bollinger_hband', 'hband', P),
         Out('bollinger_lband', 'bollinger_lband', 'lband', P),
         Out('bollinger_wband', 'bollinger_wband', 'bbiwband', 0),
         Out('bollinger_pband', 'bollinger_pband', 'bbipband', 0),
         Out('bollinger_hband_indicator', 'bollinger_hband_indicator', 'bbihband', 0, bounds=(0, 1)),
         Out('bollinger_lband_indicator', 'bollinger_lband_indicator', 'bbilband', 0, bounds=(0, 1))],
        group='volatility'),
    Cls('volatility', 'KeltnerChannel', 'high low close',
        [('window', W, 20), ('window_atr', W, 10), ('original_version', 'bool', True), ('multiplier', 'mult', 2)],
        [Out('keltner_channel_' + g, 'keltner_channel_' + g, nm, ne, drop=('multiplier',), fixed={'multiplier': 2}, **kw)
         for g, nm, ne, kw in [
             ('mband', 'mavg', P, {}), ('hband', 'kc_hband', P, {}), ('lband', 'kc_lband', P, {}),
             ('wband', 'bbiwband', 0, {}), ('pband', 'bbipband', 0, {}),
             ('hband_indicator', 'dcihband', 0, {'bounds': (0, 1)}),
             ('lband_indicator', 'dcilband', 0, {'bounds': (0, 1)})]],
        group='volatility'),
    Cls('volatility', 'DonchianChannel', 'high low close', [('window', W, 20), ('offset', 'offset', 0)],
        [Out('donchian_channel_hband', 'donchian_channel_hband', 'dchband', P),
         Out('donchian_channel_lband', 'donchian_channel_lband', 'dclband', P),
         Out('donchian_channel_mband', 'donchian_channel_mband', 'dcmband', P, fdef={'window': 10}),
         Out('donchian_channel_wband', 'donchian_channel_wband', 'dcwband', 0, fdef={'window': 10}),
         Out('donchian_channel_pband', 'donchian_channel_pband', 'dcpband', 0, fdef={'window': 10})],
        group='volatility'),
    Cls('volatility', 'UlcerIndex', 'close', [('window', W, 14)],
        [Out('ulcer_index', 'ulcer_index', 'ui', 0, bounds=(0, 100))], group='volatility'),
    # ---------------- volume
    Cls('volume', 'AccDistIndexIndicator', 'high low close volume', [],
        [Out('acc_dist_index', 'acc_dist_index', 'adi', 0)], group='cumvol'),
    Cls('volume', 'OnBalanceVolumeIndicator', 'close volume', [],
        [Out('on_balance_volume', 'on_balance_volume', 'obv', 0)], group='cumvol'),
    Cls('volume', 'ChaikinMoneyFlowIndicator', 'high low close volume', [('window', W, 20)],
        [Out('chaikin_money_flow', 'chaikin_money_flow', 'cmf', 0, bounds=(-1, 1))], group='winvol'),
    Cls('volume', 'ForceIndexIndicator', 'close volume', [('window', W, 13)],
        [Out('force_index', 'force_index', 'fi_{window}', 0)], group='winvol'),
    Cls('volume', 'EaseOfMovementIndicator', 'high low volume', [('window', W, 14)],
        [Out('ease_of_movement', 'ease_of_movement', 'eom_{window}', 0),
         Out('sma_ease_of_movement', 'sma_ease_of_movement', 'sma_eom_{window}', 0)], group='winvol'),
    Cls('volume', 'VolumePriceTrendIndicator', 'close volume',
        [('smoothing_factor', 'smoothing', None), ('dropnans', 'bool', False)],
        [Out('volume_price_trend', 'volume_price_trend', 'vpt', 0)], group='cumvol'),
    Cls('volume', 'NegativeVolumeIndexIndicator', 'close volume', [],
        [Out('negative_volume_index', 'negative_volume_index', 'nvi', 1000)], group='cumvol'),
    Cls('volume', 'MFIIndicator', 'high low close volume', [('window', W, 14)],
        [Out('money_flow_index', 'money_flow_index', 'mfi_{window}', 50, bounds=(0, 100))], group='winvol'),
    Cls('volume', 'VolumeWeightedAveragePrice', 'high low close volume', [('window', W, 14)],
        [Out('volume_weighted_average_price', 'volume_weighted_average_price', 'vwap_{window}', 0)], group='winvol'),
    # ---------------- others
    Cls('others', 'DailyReturnIndicator', 'close', [],
        [Out('daily_return', 'daily_return', 'd_ret', 0)], group='returns'),
    Cls('others', 'DailyLogReturnIndicator', 'close', [],
        [Out('daily_log_return', 'daily_log_return', 'd_logret', 0)], group='returns'),
    Cls('others', 'CumulativeReturnIndicator', 'close', [],
        [Out('cumulative_return', 'cumulative_return', 'cum_ret', P)], group='returns'),
]
BY = {c.cls: c for c in CLASSES}
OUTS = {o.id: o for c in CLASSES for o in c.outs}


def outs_of(*groups):
    return [o for c in CLASSES if c.group in groups for o in c.outs]
