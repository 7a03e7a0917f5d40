"""Lines and quadrilaterals made from the corners of a mesh."""
import numpy as np

PROPERTY = 'C44'
RULE = 'one evaluation per mesh; distinct non-trivial when the mesh has several cells each way; distinct by its corners'
ASSUMPTIONS = ['the scale is that of the clipping library, 2**31 to one']


def corners(rng):
    m, n = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    x0, y0 = rng.uniform(-90, 90, 2)
    step = float(rng.choice([56e-6, .1, 1., 7.5]))
    x = x0 + step * np.cumsum(rng.uniform(.5, 1.5, n))
    y = y0 + step * np.cumsum(rng.uniform(.5, 1.5, m))
    if rng.random() < .3:
        y = y[::-1]
    X, Y = np.meshgrid(x, y, indexing='xy')
    kind = ('regular', 'irregular', 'transposed')[int(rng.integers(3))]
    if kind == 'transposed':
        X, Y = X.T.copy(), Y.T.copy()
    if kind == 'irregular':
        X, Y = X + rng.uniform(-.2, .2, X.shape) * step, Y + rng.uniform(-.2, .2, Y.shape) * step
    return kind, X, Y


def lines(case):
    from glmtools.grid.clipping import lines_from_quadmesh, polys_from_quadmesh
    rng = case.rng
    kind, X, Y = corners(rng)
    if rng.random() < .15:
        X, Y = np.round(X * 10).astype(float), np.round(Y * 10).astype(float)
    m, n = X.shape
    keep = X.copy(), Y.copy()
    scaled = case.index % 2 == 0
    case.describe(kind=kind, shape=(m, n), scaled=scaled)
    case.begin('lines of a mesh')
    how = int(rng.integers(3)) if scaled else int(rng.integers(2))
    if scaled:
        h, v = lines_from_quadmesh(X, Y) if how else lines_from_quadmesh(X, Y, scale=True)
    else:
        h, v = lines_from_quadmesh(X, Y, scale=False) if how else lines_from_quadmesh(X, Y, False)
    case.check((len(h), len(v)) == (m, n), 'one line for each row and column of corners', got=(len(h), len(v)), want=(m, n))
    flat = [c for group in (h, v) for line in group for p in line for c in p]
    if scaled:
        case.check(all(float(c) == int(c) for c in flat), 'scaled coordinates are integers')
        case.count('input: scaled')
    for name, group, take in (('row', h, lambda i: (X[i], Y[i])), ('column', v, lambda j: (X[:, j], Y[:, j]))):
        for i, line in enumerate(group):
            got = np.array([[float(c) for c in p] for p in line])
            want = np.array(take(i)).T
            case.check(got.shape == want.shape, 'a line has each corner of its %s' % name, got=got.shape, want=want.shape)
            if scaled:
                # whole units of the clipping library
                case.close(got, want * 2.0 ** 31, 'scaled line passes its corners in order', rtol=1e-12, atol=1.)
            else:
                case.close(got, want, 'line passes its corners in order', rtol=1e-12, atol=0)
    case.check(np.array_equal(X, keep[0]) and np.array_equal(Y, keep[1]), 'corners are left as they were')
    q = np.asarray(polys_from_quadmesh(X, Y))
    case.check(q.shape == (m - 1, n - 1, 4, 2), 'one quadrilateral for each cell', got=q.shape)
    for i in range(m - 1):
        for j in range(n - 1):
            ring = [(X[i, j], Y[i, j]), (X[i, j + 1], Y[i, j + 1]), (X[i + 1, j + 1], Y[i + 1, j + 1]), (X[i + 1, j], Y[i + 1, j])]
            got = [tuple(p) for p in q[i, j].tolist()]
            # any starting corner and direction
            turns = [ring[k:] + ring[:k] for k in range(4)]
            turns += [t[::-1] for t in turns]
            case.check(got in turns, 'quadrilaterals have the lines as their sides', cell=(i, j), got=got)
    if m > 2 and n > 2:
        case.nontrivial(np.round(X, 9).tolist(), np.round(Y, 9).tolist(), scaled)


SCENARIOS = [('lines', lines, 200, 2000)]
REQUIRED = {'input: scaled': (50, 500), 'line passes its corners in order': (200, 2000),
            'scaled line passes its corners in order': (200, 2000), 'quadrilaterals have the lines as their sides': (500, 5000)}
