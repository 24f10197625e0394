"""copies, pickles and other processes"""
import copy
import multiprocessing as mp
import pickle

from .common import *

CASES = dict(quick=8500, thorough=150000)
RULE = ('One evaluation = one output of an indicator object read from a copy, deep copy or pickle of it (made before, between or after reads of the '
        'original, possibly with the original gone or its inputs changed) and compared with a fresh object; every sixtieth case reads it in another '
        'process. Distinct by (case, output, parameters, fillna, way); non-trivial when the output holds at least two different defined values.')
WAYS = ['copy', 'deepcopy', 'pickle', 'pickle', 'pickle-old', 'twice']


def _child(conn, blob, getters):
    try:
        o = pickle.loads(blob)
        conn.send({g: getattr(o, g)() for g in getters})
    except Exception as e:      # noqa
        conn.send(f'{type(e).__name__}: {e}')
    finally:
        conn.close()


def case(index, rng, mon):
    pd = MODS['pd']
    mkt, st, data = setup(rng, mon, plain=.5, dtypes=True, big=False, n=int(rng.integers(1000, 1700)) if index % 60 == 7 else None)
    n = mkt.n
    for spec, p, fill in run_all(mon, data, n, rng, 6, drop_ok=True):
        way = WAYS[rng.integers(len(WAYS))]
        used = bool(rng.random() < .5)
        own = {c: data[c].copy(deep=True) for c in spec.inputs}
        try:
            want = mon.run(spec, data, p, fill)
            obj = mon.new(spec, own, p, fill)
            if used:
                for o in spec.outs:
                    if rng.random() < .6:
                        mon.get(obj, spec, o, p, fill)
            late = not drop_of(p) and rng.random() < .2
            if late:        # the caller's columns are overwritten before the copy is made: it still equals the original
                spoil(own)
                used = 'late'
            other = index % 60 == 0
            try:
                mon.events['copy'] += 1
                if other:
                    way = 'process'
                    got = process(mon, pickle.dumps(obj), [o.getter for o in spec.outs])
                elif way == 'copy':
                    dup = copy.copy(obj)
                elif way == 'deepcopy':
                    dup = copy.deepcopy(obj)
                elif way == 'twice':
                    dup = pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(obj)))))
                else:
                    dup = pickle.loads(pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL if way == 'pickle' else 2))
                if not other:
                    if late:
                        pass
                    elif way != 'copy' and rng.random() < .5:       # the original's data is overwritten; an independent copy cannot notice
                        spoil(own)
                    if rng.random() < .4 and not late:
                        del obj
                    got = {o.getter: mon.get(dup, spec, o, p, fill) for o in spec.outs}
                if late:
                    want = {o.getter: mon.get(obj, spec, o, p, fill) for o in spec.outs}
            except Abort:
                raise
            except Exception as e:
                mon.raised(spec.cls, p, fill, way, e)
        except Abort:
            continue
        for o in spec.outs:
            x, y = np.asarray(want[o.getter], float), np.asarray(got[o.getter], float)
            mon.per[o.id] += 1
            mon.note((o.id, pkey(p), fill, way, used), nontrivial(x), n, output=o.id, params=p, fillna=fill, way=way, rows=n)
            bad = differ(x, y, 1e-9 if drop_of(p) else 1e-12) if len(x) == len(y) else [-1]
            if len(x) == len(y) == n and len(bad):       # a copy may lie differently in memory, which moves the last digit
                m = ref.model(spec, mkt, {**p, 'dropnans': False}, fill)[o.getter]
                bad = excuse(bad, x, y, ref.E(x, np.full(n, m.e.max())) if late else m)
            if len(bad):
                i = int(bad[0])
                mon.violation(o.id, f'read from a {way} of the object (original read before: {used}) the result differs'
                              + (f' in row {i}: {fmt(y[i])} instead of {fmt(x[i])}' if i >= 0 else ' in length'), params=p, fillna=fill)
            elif not want[o.getter].index.equals(got[o.getter].index) or want[o.getter].name != got[o.getter].name:
                mon.violation(o.id, f'read from a {way} of the object, labels or name differ', params=p, fillna=fill)


def drop_of(p):
    return bool(p.get('dropnans'))


def spoil(own):
    for s in own.values():
        try:
            s.iloc[:] = s.iloc[::-1].to_numpy()
        except ValueError:
            pass


def process(mon, blob, getters):
    ctx = mp.get_context('fork')
    a, b = ctx.Pipe()
    pr = ctx.Process(target=_child, args=(b, blob, getters))
    pr.start()
    b.close()
    mon.events['other process'] += 1
    try:
        r = a.recv()
    finally:
        pr.join()
    if isinstance(r, str):
        raise RuntimeError('in another process: ' + r)
    return r
