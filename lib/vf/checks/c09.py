"""Location IDs: same ID exactly when same cell."""
import numpy as np

PROPERTY = 'C09'
RULE = ('a case is distinct non-trivial when at least two different cells and at least one shared '
        'cell are present; distinct by window, step, integer type and occupied cells')
ASSUMPTIONS = ['positions are kept 2 percent of a step away from cell edges, where the cell is '
               'decided by rounding, except for the exact lower corner of the window']


def make(case, scale, xr, yr, dtype, n):
    rng = case.rng
    nx = int(np.ceil((xr[1] - xr[0]) / scale - 1e-9))
    ny = int(np.ceil((yr[1] - yr[0]) / scale - 1e-9))
    # columns and rows that matter: first, last (possibly partial), neighbours of those
    cx = np.concatenate([rng.integers(0, nx, n), rng.choice([0, 1, nx - 1, max(0, nx - 2)], n)])
    cy = np.concatenate([rng.integers(0, ny, n), rng.choice([0, 1, ny - 1, max(0, ny - 2)], n)])
    cx, cy = cx[rng.permutation(2 * n)], cy[rng.permutation(2 * n)]
    # repeat some cells, and add the row wrap neighbours of last-column cells
    k = rng.integers(0, 2 * n, n)
    cx, cy = np.concatenate([cx, cx[k]]), np.concatenate([cy, cy[k]])
    last = cx == nx - 1
    wx, wy = np.zeros(last.sum(), int), cy[last] + 1
    ok = wy < ny
    cx, cy = np.concatenate([cx, wx[ok]]), np.concatenate([cy, wy[ok]])
    if nx > 2**16:
        # cells whose numbers differ by a multiple of 2^32, 2^31 or 2^53 for rows as long as they may be
        for row in (nx - 1, nx, nx + 1):
            for jump in (2**31, 2**32):
                k = jump // row
                wx, wy = cx[:n] + jump - k * row, cy[:n] + k
                ok = (wx >= 0) & (wx < nx) & (wy < ny)
                cx, cy = np.concatenate([cx, wx[ok]]), np.concatenate([cy, wy[ok]])
    x = xr[0] + (cx + rng.uniform(.02, .98, len(cx))) * scale
    y = yr[0] + (cy + rng.uniform(.02, .98, len(cy))) * scale
    inside = (x < xr[1]) & (y < yr[1])
    x, y, cx, cy = x[inside], y[inside], cx[inside], cy[inside]
    # the corner itself
    x, y = np.append(x, xr[0]), np.append(y, yr[0])
    cx, cy = np.append(cx, 0), np.append(cy, 0)
    return x, y, cx, cy, nx, ny


def ids(case):
    from glmtools.io.glm import discretize_2d_location
    rng = case.rng
    style = case.index % 7
    if style == 0:
        scale, w = 28e-6, (-0.31, 0.31)
        xr = yr = w
    elif style == 1:
        scale = float(rng.choice([10e-6, 14e-6, 56e-6, 224e-6]))
        xr, yr = (-0.31, 0.31), (-0.2, 0.31)
    elif style == 2:
        scale = float(rng.choice([0.5, 1.0, 2.0, 3.0]))
        xr = (float(rng.integers(-20, 0)), float(rng.integers(1, 20)))
        yr = (float(rng.integers(-20, 0)), float(rng.integers(1, 20)))
    elif style == 3:
        scale = float(10 ** rng.uniform(-5, 3))
        xr = (float(rng.normal() * scale * 3), 0.)
        xr = (xr[0], xr[0] + scale * float(rng.uniform(1.2, 40)))
        yr = (float(rng.normal() * scale * 3), 0.)
        yr = (yr[0], yr[0] + scale * float(rng.uniform(1.2, 40)))
    elif style == 4:
        scale = 0.1
        xr, yr = (0.0, 1.05), (-1.0, 3.0)
    elif style == 5:
        scale = float(rng.uniform(9.6e-6, 12e-6))
        xr = yr = (-0.31, 0.31)
    else:
        # more cells than 32 bits can number
        if rng.random() < .5:
            scale = float(rng.choice([1e-6, 2e-7, 5e-8]))
            xr = yr = (-0.31, 0.31)
        else:
            scale = 1.0
            xr = yr = (0., 2.**float(rng.integers(17, 30)))
    n = 40
    x, y, cx, cy, nx, ny = make(case, scale, xr, yr, None, n)
    need = (nx + 1) * (ny + 1)
    types = [t for t in ('uint64', 'int64', 'uint32', 'int32', 'uint16', 'int16')
             if need < np.iinfo(t).max]
    itype = None if rng.random() < .3 else str(rng.choice(types))
    kw = {} if itype is None else {'int_type': itype}
    case.describe(scale=scale, x_range=xr, y_range=yr, int_type=itype, cells=(nx, ny), n=len(x))
    case.begin('location IDs')
    got = np.asarray(discretize_2d_location(x, y, scale, xr, yr, **kw))
    case.check(got.shape == x.shape, 'one ID per position')
    case.check(got.dtype == np.dtype(itype or 'uint64'), 'IDs have the requested integer type',
               got=str(got.dtype))
    by_id, by_cell = {}, {}
    for i, (g, c) in enumerate(zip(got.tolist(), zip(cx.tolist(), cy.tolist()))):
        by_id.setdefault(g, set()).add(c)
        by_cell.setdefault(c, set()).add(g)
    clash = [v for v in by_id.values() if len(v) > 1]
    case.check(not clash, 'different cells have different IDs', clash=clash[:3], cells=(nx, ny))
    split = [(c, v) for c, v in by_cell.items() if len(v) > 1]
    case.check(not split, 'one cell has one ID', split=split[:3])
    p = rng.permutation(len(x))[:max(1, len(x) // 3)]
    alone = np.asarray(discretize_2d_location(x[p], y[p], scale, xr, yr, **kw))
    case.equal(alone, got[p], 'IDs do not depend on company')
    case.count('input: positions', len(x))
    case.count('input: in the last column', int((cx == nx - 1).sum()))
    if len(by_cell) > 1:
        case.nontrivial(scale, xr, itype, sorted(by_cell)[:30])


SCENARIOS = [('ids', ids, 840, 9800)]
REQUIRED = {'different cells have different IDs': (600, 8000), 'input: in the last column': 500}
