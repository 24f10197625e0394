"""The monitor: drives the real library through its public API, records every construct / get / call
event with what went in and what came out, and collects verdicts."""
import collections
import hashlib
import importlib
import json
import os
import sys
import time

import numpy as np
import pandas as pd

from . import gen, ref
from .registry import BY, CLASSES, OUTS

REPO = os.environ.get('VERIF_REPO', '/repo')
MODS = {}
COV = {}          # file -> set of executed lines


class Inconclusive(Exception):
    pass


class Abort(Exception):
    """the monitored call itself failed; already recorded"""


def load():
    """import ta from the working tree under test"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    try:
        ta = importlib.import_module('ta')
        for m in ('momentum', 'trend', 'volatility', 'volume', 'others', 'utils', 'wrapper'):
            MODS[m] = importlib.import_module('ta.' + m)
    except Exception as e:
        raise Inconclusive(f'cannot import ta from {REPO}: {type(e).__name__}: {e}')
    MODS['ta'], MODS['pd'] = ta, pd
    if not os.path.realpath(ta.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise Inconclusive(f'ta was imported from {ta.__file__}, not from {REPO}')
    return ta


def start_coverage():
    """line events of the library code (sys.monitoring: each line reports once)"""
    m = getattr(sys, 'monitoring', None)
    if m is None:
        return
    tid = 4
    root = os.path.realpath(os.path.join(REPO, 'ta')) + os.sep
    try:
        m.use_tool_id(tid, 'tamon')
    except ValueError:
        return

    def line(code, ln):
        f = code.co_filename
        if os.path.realpath(f).startswith(root):
            COV.setdefault(os.path.basename(f), set()).add(ln)
        return m.DISABLE
    m.register_callback(tid, m.events.LINE, line)
    m.set_events(tid, m.events.LINE)


def executable_lines():
    """lines inside function bodies of the library, by file"""
    out = {}
    for name, mod in MODS.items():
        f = getattr(mod, '__file__', None)
        if not f or name in ('ta', 'pd'):
            continue
        try:
            code = compile(open(f).read(), f, 'exec')
        except Exception:
            continue
        acc = set()
        stack = [(code, 0)]
        while stack:
            c, depth = stack.pop()
            if c.co_flags & 0x2:      # optimised locals: a function body
                acc |= {ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno}
            for k in c.co_consts:
                if hasattr(k, 'co_lines'):
                    stack.append((k, depth + 1))
        out[os.path.basename(f)] = acc
    return out


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(np.ascontiguousarray(p).tobytes())
        else:
            h.update(repr(p).encode())
    return h.hexdigest()


class Mon:
    MAXV = 12

    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.events = collections.Counter()
        self.per = collections.Counter()      # comparisons per output / topic
        self.rows = 0                          # rows judged
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.viol = []
        self.known = collections.OrderedDict()
        self.index = None
        self.ctx = {}
        self.skipped = 0
        self.cases = 0

    # -------------------------------------------------- driving
    def new(self, spec, data, params, fill, **extra):
        kw = {i: data[i] for i in spec.inputs}
        kw.update(params)
        if fill is not None:
            kw['fillna'] = np.bool_(fill) if self.events['construct'] % 17 == 3 else fill
        kw.update(extra)
        self.events['construct'] += 1
        try:
            return getattr(MODS[spec.module], spec.cls)(**kw)
        except Exception as e:
            self.raised(spec.cls, params, fill, 'constructor', e)

    def get(self, obj, spec, o, params, fill):
        self.events['get'] += 1
        try:
            return getattr(obj, o.getter)()
        except Exception as e:
            self.raised(o.id, params, fill, 'getter', e)

    def raised(self, what, params, fill, where, e):
        self.violation(what, f'{where} raised {type(e).__name__}: {str(e)[:200]}', params=params, fillna=fill)
        raise Abort()

    def run(self, spec, data, params, fill, outs=None):
        """all outputs of one indicator, as float arrays by position"""
        obj = self.new(spec, data, params, fill)
        res = {}
        for o in outs or spec.outs:
            s = self.get(obj, spec, o, params, fill)
            res[o.getter] = s
        return res

    def arrays(self, spec, data, params, fill, outs=None):
        n = len(data['close'])
        res = {}
        for g, s in self.run(spec, data, params, fill, outs).items():
            res[g] = self.arr(s, n, f'{spec.cls}.{g}', params, fill)
        return res

    def arr(self, s, n, what, params=None, fill=None):
        try:
            a = np.asarray(s, float)
        except Exception as e:
            self.violation(what, f'output is not numeric: {type(e).__name__}: {e}', params=params, fillna=fill)
            raise Abort()
        if len(a) != n:
            self.violation(what, f'output has {len(a)} rows for a history of {n}', params=params, fillna=fill)
            raise Abort()
        return a

    # -------------------------------------------------- bookkeeping
    def note(self, key, nontrivial, judged=0, **sample):
        """one evaluation; key identifies it"""
        self.evals += 1
        self.rows += int(judged)
        if nontrivial:
            self.distinct.add(digest(key, self.index))
            if len(self.samples) < 2 and sample:
                self.samples.append(dict(case=self.index, **{k: jsonable(v) for k, v in sample.items()}))

    def violation(self, what, msg, key=None, mkt=None, **kw):
        if key is not None:
            self.known.setdefault(key, f'{what}: {msg}')
            self.events['known'] += 1
            if key in KNOWN.get(self.pid, {}):
                return
        self.events['violations'] += 1
        if len(self.viol) < self.MAXV:
            v = dict(property=self.pid, seed=self.seed, tier=self.tier, index=self.index, what=what, message=msg)
            v.update({k: jsonable(x) for k, x in {**self.ctx, **kw}.items()})
            mkt = mkt or self.cur
            if mkt is not None:
                v['history'] = {k: [float(z) for z in a[:400]] for k, a in mkt.c.items()}
            self.viol.append(v)

    cur = None


KNOWN = {}


def load_known(path):
    """lines `finding: property=<id> key=<key> <what fails>`"""
    if not os.path.exists(path):
        return
    for ln in open(path):
        ln = ln.strip()
        if ln.startswith('finding:'):
            f = ln.split(None, 3)
            pid = f[1].split('=', 1)[1]
            key = f[2].split('=', 1)[1]
            KNOWN.setdefault(pid, {})[key] = f[3]


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if np.isfinite(x) else str(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if x is None or isinstance(x, (int, str, bool)):
        return x
    return str(x)


def nontrivial(a):
    """an output is worth something if at least two different defined values were seen"""
    f = a[np.isfinite(a)]
    return len(f) > 1 and bool((f != f[0]).any())


def differ(a, b, rel=1e-9, absol=0.0):
    """rows where two outputs disagree (undefined equals undefined)"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    au, bu = ~np.isfinite(a), ~np.isfinite(b)
    with np.errstate(all='ignore'):
        d = np.abs(a - b) > rel * np.maximum(np.abs(a), np.abs(b)) + absol
    return np.nonzero((au != bu) | (~au & ~bu & d))[0]


def excuse(rows, a, b, x, k=600.0, scale=1.0):
    """drop the rows whose disagreement is within the model's rounding bound"""
    if len(rows) == 0:
        return rows
    keep = []
    for i in rows:
        e = x.e[i] if i < len(x.e) else 0.0
        if np.isinf(e):
            continue
        if np.isfinite(a[i]) and np.isfinite(b[i]) and abs(a[i] - b[i]) <= k * e * scale:
            continue
        keep.append(i)
    return np.array(keep, int)


def fmt(v):
    return 'undefined' if not np.isfinite(v) else repr(float(v))


def sample_classes(rng, k, pool=None):
    pool = pool or CLASSES
    if k >= len(pool):
        return list(pool)
    return [pool[i] for i in rng.choice(len(pool), k, replace=False)]
