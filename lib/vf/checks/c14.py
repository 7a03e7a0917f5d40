"""Accumulators against dictionaries of sums and minima."""
import numpy as np
import pandas as pd
import xarray as xr

PROPERTY = 'C14'
RULE = ('one evaluation per sequence of batches; distinct non-trivial when some cell receives at '
        'least two values; distinct by grid and the values sent')
ASSUMPTIONS = ['a cell occurs at most once in one batch (the documented contract)',
               'values sent to a minimum are positive']


def batches(rng, nx, ny, n, positive, dtype, vdtype):
    out = []
    tiny = rng.random() < .2
    for _ in range(n):
        k = int(rng.integers(0, min(nx * ny, 30) + 1))
        cells = rng.choice(nx * ny, k, replace=False)
        v = rng.uniform(.1, 50, k) if positive else rng.normal(0, 10, k)
        if rng.random() < .3:
            v = np.round(v) + (1 if positive else 0)
        if positive:
            v = np.maximum(v, .01)
        if tiny:
            v = v * 10. ** rng.uniform(-14, -6)
        b = np.zeros(k, dtype=[('xi', dtype), ('yi', dtype), ('v', vdtype), ('other', 'f4'), ('t', 'f8')])
        b['xi'], b['yi'], b['v'] = cells % nx, cells // nx, v
        b['other'] = rng.uniform(100, 200, k)
        out.append(b)
    return out


def form(b, kind):
    if kind == 'table':
        return b
    if kind == 'frame':
        return pd.DataFrame({n: b[n] for n in b.dtype.names})
    return xr.Dataset({n: (('row',), b[n]) for n in b.dtype.names})


def feed(acc, bs, kind):
    for b in bs:
        acc.send(form(b, kind))
    acc.close()


def shuffled(rng, bs):
    return [bs[i][rng.permutation(len(bs[i]))] for i in rng.permutation(len(bs))]


def run(case, minimum):
    from glmtools.grid.accumulate import (accumulate_var_on_grid_direct_idx,
                                          accumulate_minvar_on_grid_direct_idx)
    acc = accumulate_minvar_on_grid_direct_idx if minimum else accumulate_var_on_grid_direct_idx
    rng = case.rng
    nx, ny = (int(v) for v in rng.integers(1, 14, 2))
    if nx == ny and rng.random() < .8:
        nx += 2
    bs = batches(rng, nx, ny, int(rng.integers(1, 9)), minimum, str(rng.choice(['i4', 'i8'])),
                 str(rng.choice(['f4', 'f8'])))
    gdtype = str(rng.choice(['f4', 'f8']))
    eps = 1e-6 if gdtype == 'f4' else 1e-13
    start = np.zeros((ny, nx), gdtype)
    if rng.random() < .4:
        start = (rng.random((ny, nx)) * 40 * (rng.random((ny, nx)) < .5)).astype(gdtype)
    kind = str(rng.choice(['table', 'table', 'frame', 'dataset'])) if not minimum else \
        str(rng.choice(['table', 'table', 'frame']))
    frame = int(rng.integers(0, 3))
    case.describe(grid=(ny, nx), dtype=gdtype, batches=[len(b) for b in bs], kind=kind,
                  frame=frame, minimum=minimum,
                  values=bs[0].dtype['v'].str)
    case.begin('minimum accumulator' if minimum else 'summing accumulator')
    # a frame of a 3-D grid, as the gridder uses it: a strided view
    cube = np.zeros((ny, nx, 3), gdtype)
    cube[:] = start[:, :, None]
    keep = {} if rng.random() < .5 else None
    a = acc(cube[:, :, frame], 'v', 'xi', 'yi') if keep is None else \
        acc(cube[:, :, frame], 'v', 'xi', 'yi', out=keep)
    sent = [b.copy() for b in bs]
    feed(a, bs, kind)
    got = cube[:, :, frame].astype('f8')
    want = start.astype('f8').copy()
    hits = np.zeros((ny, nx), int)
    for b in sent:
        for r in b:
            y, x, v = int(r['yi']), int(r['xi']), float(r['v'])
            hits[y, x] += 1
            if minimum:
                want[y, x] = v if want[y, x] == 0 else min(want[y, x], v)
            else:
                want[y, x] += v
    if minimum:
        case.check(np.allclose(got, want, rtol=eps, atol=0), 'the smallest value seen',
                   got=got[got != want][:4], want=want[got != want][:4])
    else:
        size = np.abs(start).astype('f8')
        for b in sent:
            np.add.at(size, (b['yi'], b['xi']), np.abs(b['v']))
        bad = np.abs(got - want) > eps * (size + 1e-30) * 4
        case.check(not bad.any(), 'the sum of everything sent', got=got[bad][:4], want=want[bad][:4])
    case.check(np.array_equal(got[hits == 0], start.astype('f8')[hits == 0]), 'untouched cells stay')
    others = [i for i in range(3) if i != frame]
    case.check(all(np.array_equal(cube[:, :, i], start) for i in others), 'other frames stay')
    case.check(all(np.array_equal(a_, b_) for a_, b_ in zip(bs, sent)), 'batches are not altered')
    if keep is not None:
        case.check('out' in keep and np.array_equal(keep['out'], cube[:, :, frame]), 'the grid is handed over at the end')
    grid2 = start.copy()
    feed(acc(grid2, 'v', 'xi', 'yi'), shuffled(rng, bs), kind)
    case.check(np.allclose(grid2.astype('f8'), got, rtol=1e-5, atol=0 if minimum else 1e-4),
               'order does not matter')
    case.count('input: cells hit more than once', int((hits > 1).sum()))
    if (hits > 1).any():
        case.nontrivial(minimum, nx, ny, [b['v'].tolist() for b in bs])


def sums(case):
    run(case, False)


def minima(case):
    run(case, True)


class Sink(object):
    def __init__(self):
        self.got = []

    def send(self, x):
        self.got.append(x)


def select(case):
    from glmtools.grid.accumulate import select_dataset
    rng = case.rng
    pairs = []
    for _ in range(int(rng.integers(1, 8))):
        a, b = (np.arange(int(n)) + int(rng.integers(0, 1000)) for n in rng.choice([0, 1, 5], 2))
        pairs.append((a, b))
    use = rng.choice(['default', 'children', 'parents'])
    case.describe(sizes=[(len(a), len(b)) for a, b in pairs], use=str(use))
    case.begin('selecting tables')
    sink = Sink()
    s = select_dataset(sink) if use == 'default' else \
        select_dataset(sink, use_event_data=bool(use == 'children'))
    for p in pairs:
        s.send(p)
    s.close()
    want = [(b if use == 'parents' else a) for a, b in pairs]
    want = [w for w in want if len(w)]
    case.check(len(sink.got) == len(want) and all(g is w or np.array_equal(g, w)
               for g, w in zip(sink.got, want)), 'exactly the non-empty tables are forwarded',
               got=[len(g) for g in sink.got], want=[len(w) for w in want])
    if len(want) > 1 and len(want) < len(pairs):
        case.nontrivial(str(use), [(a[:1].tolist(), b[:1].tolist(), len(a), len(b)) for a, b in pairs])


SCENARIOS = [('sums', sums, 500, 6000), ('minima', minima, 500, 6000), ('select', select, 300, 2000)]
REQUIRED = {'the sum of everything sent': (500, 6000), 'the smallest value seen': (500, 6000),
            'input: cells hit more than once': 1000}
