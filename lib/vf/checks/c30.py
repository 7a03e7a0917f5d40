"""Parallel map against serial map."""
import os

import numpy as np

from vf import geom
from vf.checks import c10

PROPERTY = 'C30'
RULE = ('one evaluation per parallel map; distinct non-trivial when it has more arguments than one '
        'chunk; distinct by function, workers, chunk size and arguments')
ASSUMPTIONS = ['functions and arguments can be pickled']
SERIAL = True


def square(v):
    return v * v


def where(v):
    return v, os.getpid()


def slow_first(v):
    if v % 7 == 0:
        s = 0
        for i in range(30000):
            s += i
    return ('r', v)


def nothing(v):
    return None


class Odd(Exception):
    pass


def fussy(v):
    if v == 13:
        raise Odd(v)
    return v


def dividing(v):
    return 1 / (v - 13)


def looking(v):
    return {}[v] if v == 13 else v


def counting(v):
    return [v][13] if v == 13 else v


def typing(v):
    return v + '' if v == 13 else v


def refusing(v):
    if v == 13:
        raise ValueError(v)
    return v


def stopping(v):
    if v == 13:
        raise RuntimeError(v)
    return v


KINDS = [(fussy, Odd), (dividing, ZeroDivisionError), (looking, KeyError), (counting, IndexError), (typing, TypeError),
         (refusing, ValueError), (stopping, RuntimeError), (fussy, Odd)]


def total(a):
    return float(np.sum(a)), a.shape


FUNCS = [square, slow_first, nothing, total]


def maps(case):
    from glmtools.grid.clipping import run_pool_map
    rng = case.rng
    f = FUNCS[int(rng.integers(0, len(FUNCS)))]
    n = int(rng.choice([0, 1, 2, 7, 40, 130, 350]))
    args = rng.permutation(n).tolist()
    if f is total:
        args = [rng.random(int(rng.integers(0, 50))) for _ in range(min(n, 60))]
    kw = {}
    if rng.random() < .8:
        kw['max_workers'] = int(rng.integers(1, 6))
    if rng.random() < .8:
        kw['chunksize'] = int(rng.choice([1, 2, 3, 10, 100, 1000]))
    if rng.random() < .3 and f is not total:
        args = tuple(args)
    case.describe(function=f.__name__, n=len(args), **kw)
    case.begin('parallel map')
    got = list(run_pool_map(f, args, **kw))
    want = [f(a) for a in args]
    case.check(len(got) == len(want), 'one result per argument', got=len(got), want=len(want))
    case.check(got == want, 'same results in the same order', got=got[:5], want=want[:5])
    if len(args) > kw.get('chunksize', 100):
        case.nontrivial(f.__name__, kw, len(args), str(args[:5]))


def errors(case):
    from glmtools.grid.clipping import run_pool_map
    rng = case.rng
    n = int(rng.choice([14, 40, 150]))
    args = list(range(n))
    if rng.random() < .5:
        args = rng.permutation(n).tolist()
    kw = dict(max_workers=int(rng.integers(1, 4)), chunksize=int(rng.choice([1, 5, 100])))
    f, kind = KINDS[case.index % len(KINDS)]
    case.describe(n=n, error=kind.__name__, **kw)
    case.begin('parallel map with an error')
    try:
        got = list(run_pool_map(f, args, **kw))
    except kind as e:
        case.check(kind is not Odd or e.args == (13,), 'the error of the function reaches the caller', got=e.args)
    else:
        case.fail('the error of the function reaches the caller', got=got[:5])
    if n > kw['chunksize']:
        case.nontrivial('error', kw, n)
    # and the helper is usable again
    case.check(list(run_pool_map(square, [3, 1, 2], max_workers=2, chunksize=1)) == [9, 1, 4],
               'usable after an error')


def cut(args):
    from glmtools.grid.clipping import QuadMeshSubset, QuadMeshPolySlicer
    X, Y, polys = args
    s = QuadMeshPolySlicer(QuadMeshSubset(X, Y, n_neighbors=12))
    out, areas = s.slice(polys, bbox=True)
    return [( [np.asarray(p).tolist() for p in e[0]], np.asarray(e[1]).tolist(),
              np.asarray(e[2][0]).tolist(), np.asarray(e[2][1]).tolist()) for e in out], \
        np.asarray(areas).tolist()


def slicing(case):
    from glmtools.grid.clipping import run_pool_map
    rng = case.rng
    work = []
    for _ in range(int(rng.integers(2, 6))):
        mesh = geom.make_mesh(rng)
        ps = c10.polygons(rng, mesh, int(rng.integers(1, 6)), [.4, 1.2, 2.5], ('inside', 'edge'))
        if ps:
            work.append((mesh.X, mesh.Y, [p for p, s in ps]))
    kw = dict(max_workers=int(rng.integers(1, 4)), chunksize=int(rng.choice([1, 2, 100])))
    case.describe(pieces=[len(w[2]) for w in work], **kw)
    case.begin('slicing in subprocesses')
    got = list(run_pool_map(cut, work, **kw))
    want = [cut(w) for w in work]
    case.check(got == want, 'slicing in subprocesses equals slicing in one process')
    case.nontrivial('slice', kw, [w[2][0].tolist() if hasattr(w[2][0], 'tolist') else str(w[2][0])
                                  for w in work])


SCENARIOS = [('maps', maps, 50, 400), ('errors', errors, 16, 80), ('slicing', slicing, 12, 100)]
REQUIRED = {'same results in the same order': (50, 400),
            'the error of the function reaches the caller': (12, 80),
            'slicing in subprocesses equals slicing in one process': (12, 100)}
