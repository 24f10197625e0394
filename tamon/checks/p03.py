"""momentum oscillator formulas"""
from .common import *

CASES = dict(quick=15600, thorough=360000)
RULE = ('One evaluation = one output of the real library on one generated history and parameter set, compared row by row with an '
        'independent executable model of the published formula (rows decided by rounding noise are not judged). Distinct by '
        '(case, output, parameters, fillna); non-trivial when the output holds at least two different defined values.')


def case(index, rng, mon):
    formula_case(rng, mon, ('momentum',), 6)
