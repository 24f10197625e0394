"""the columns the wrappers promise: name -> (class, parameters, getter)"""
from ..registry import BY


def _d(cls, **kw):
    p = BY[cls].defaults()
    p.update(kw)
    p.pop('dropnans', None)
    if cls == 'VolumePriceTrendIndicator':
        p['dropnans'] = False
    return p


def _c(group, cls, cols, **kw):
    return [(f'{group}_{name}', (cls, _d(cls, **kw), getter)) for name, getter in cols]


B, K, D = 'bollinger_', 'keltner_channel_', 'donchian_channel_'
VOLUME = (
    _c('volume', 'AccDistIndexIndicator', [('adi', 'acc_dist_index')])
    + _c('volume', 'OnBalanceVolumeIndicator', [('obv', 'on_balance_volume')])
    + _c('volume', 'ChaikinMoneyFlowIndicator', [('cmf', 'chaikin_money_flow')])
    + _c('volume', 'ForceIndexIndicator', [('fi', 'force_index')])
    + _c('volume', 'EaseOfMovementIndicator', [('em', 'ease_of_movement'), ('sma_em', 'sma_ease_of_movement')])
    + _c('volume', 'VolumePriceTrendIndicator', [('vpt', 'volume_price_trend')])
    + _c('volume', 'VolumeWeightedAveragePrice', [('vwap', 'volume_weighted_average_price')])
    + _c('volume', 'MFIIndicator', [('mfi', 'money_flow_index')])
    + _c('volume', 'NegativeVolumeIndexIndicator', [('nvi', 'negative_volume_index')]))
_BAND = lambda p, pre: [(pre + k, p + g) for k, g in (  # noqa
    ('m', 'mavg'), ('h', 'hband'), ('l', 'lband'), ('w', 'wband'), ('p', 'pband'), ('hi', 'hband_indicator'), ('li', 'lband_indicator'))]
VOLATILITY = (
    _c('volatility', 'BollingerBands', _BAND(B, 'bb'))
    + _c('volatility', 'KeltnerChannel', [('kcc', K + 'mband'), ('kch', K + 'hband'), ('kcl', K + 'lband'), ('kcw', K + 'wband'),
                                          ('kcp', K + 'pband'), ('kchi', K + 'hband_indicator'), ('kcli', K + 'lband_indicator')], window=10)
    + _c('volatility', 'DonchianChannel', [('dcl', D + 'lband'), ('dch', D + 'hband'), ('dcm', D + 'mband'), ('dcw', D + 'wband'),
                                           ('dcp', D + 'pband')])
    + _c('volatility', 'AverageTrueRange', [('atr', 'average_true_range')], window=10)
    + _c('volatility', 'UlcerIndex', [('ui', 'ulcer_index')]))
I = 'ichimoku_'  # noqa
TREND = (
    _c('trend', 'MACD', [('macd', 'macd'), ('macd_signal', 'macd_signal'), ('macd_diff', 'macd_diff')])
    + _c('trend', 'SMAIndicator', [('sma_fast', 'sma_indicator')], window=12)
    + _c('trend', 'SMAIndicator', [('sma_slow', 'sma_indicator')], window=26)
    + _c('trend', 'EMAIndicator', [('ema_fast', 'ema_indicator')], window=12)
    + _c('trend', 'EMAIndicator', [('ema_slow', 'ema_indicator')], window=26)
    + _c('trend', 'VortexIndicator', [('vortex_ind_pos', 'vortex_indicator_pos'), ('vortex_ind_neg', 'vortex_indicator_neg'),
                                      ('vortex_ind_diff', 'vortex_indicator_diff')])
    + _c('trend', 'TRIXIndicator', [('trix', 'trix')])
    + _c('trend', 'MassIndex', [('mass_index', 'mass_index')])
    + _c('trend', 'DPOIndicator', [('dpo', 'dpo')])
    + _c('trend', 'KSTIndicator', [('kst', 'kst'), ('kst_sig', 'kst_sig'), ('kst_diff', 'kst_diff')])
    + _c('trend', 'IchimokuIndicator', [(I + 'conv', I + 'conversion_line'), (I + 'base', I + 'base_line'), (I + 'a', I + 'a'), (I + 'b', I + 'b')])
    + _c('trend', 'STCIndicator', [('stc', 'stc')])
    + _c('trend', 'ADXIndicator', [('adx', 'adx'), ('adx_pos', 'adx_pos'), ('adx_neg', 'adx_neg')])
    + _c('trend', 'CCIIndicator', [('cci', 'cci')])
    + _c('trend', 'IchimokuIndicator', [('visual_' + I + 'a', I + 'a'), ('visual_' + I + 'b', I + 'b')], visual=True)
    + _c('trend', 'AroonIndicator', [('aroon_up', 'aroon_up'), ('aroon_down', 'aroon_down'), ('aroon_ind', 'aroon_indicator')])
    + _c('trend', 'PSARIndicator', [('psar_up', 'psar_up'), ('psar_down', 'psar_down'), ('psar_up_indicator', 'psar_up_indicator'),
                                    ('psar_down_indicator', 'psar_down_indicator')]))
MOMENTUM = (
    _c('momentum', 'RSIIndicator', [('rsi', 'rsi')])
    + _c('momentum', 'StochRSIIndicator', [('stoch_rsi', 'stochrsi'), ('stoch_rsi_k', 'stochrsi_k'), ('stoch_rsi_d', 'stochrsi_d')])
    + _c('momentum', 'TSIIndicator', [('tsi', 'tsi')])
    + _c('momentum', 'UltimateOscillator', [('uo', 'ultimate_oscillator')])
    + _c('momentum', 'StochasticOscillator', [('stoch', 'stoch'), ('stoch_signal', 'stoch_signal')])
    + _c('momentum', 'WilliamsRIndicator', [('wr', 'williams_r')])
    + _c('momentum', 'AwesomeOscillatorIndicator', [('ao', 'awesome_oscillator')])
    + _c('momentum', 'ROCIndicator', [('roc', 'roc')])
    + _c('momentum', 'PercentagePriceOscillator', [('ppo', 'ppo'), ('ppo_signal', 'ppo_signal'), ('ppo_hist', 'ppo_hist')])
    + _c('momentum', 'PercentageVolumeOscillator', [('pvo', 'pvo'), ('pvo_signal', 'pvo_signal'), ('pvo_hist', 'pvo_hist')])
    + _c('momentum', 'KAMAIndicator', [('kama', 'kama')]))
OTHERS = (
    _c('others', 'DailyReturnIndicator', [('dr', 'daily_return')])
    + _c('others', 'DailyLogReturnIndicator', [('dlr', 'daily_log_return')])
    + _c('others', 'CumulativeReturnIndicator', [('cr', 'cumulative_return')]))
GROUPS = dict(volume=VOLUME, volatility=VOLATILITY, trend=TREND, momentum=MOMENTUM, others=OTHERS)
COLUMNS = dict(sum(GROUPS.values(), []))
SLOW = {'volume_mfi', 'volume_nvi', 'volatility_atr', 'volatility_ui', 'trend_adx', 'trend_adx_pos', 'trend_adx_neg', 'trend_cci',
        'trend_visual_ichimoku_a', 'trend_visual_ichimoku_b', 'trend_aroon_up', 'trend_aroon_down', 'trend_aroon_ind',
        'trend_psar_up', 'trend_psar_down', 'trend_psar_up_indicator', 'trend_psar_down_indicator', 'momentum_kama'}
assert len(COLUMNS) == 86 and SLOW <= set(COLUMNS), len(COLUMNS)
