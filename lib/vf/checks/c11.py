"""Mesh lookups against brute force over all cells."""
import numpy as np
import shapely

from vf import geom

PROPERTY = 'C11'
RULE = ('one evaluation per query; distinct non-trivial when at least two cells have to be found; '
        'distinct by mesh and query')
ASSUMPTIONS = ['boxes that only touch a cell along a line do not require the cell',
               'points are kept 1e-6 of a step away from cell edges']


def build(case, mesh, **kw):
    from glmtools.grid.clipping import QuadMeshSubset
    return QuadMeshSubset(mesh.X, mesh.Y, **kw)


def same_cells(case, mesh, quads, i, j, n_dims_ok=True):
    quads, i, j = np.asarray(quads), np.asarray(i), np.asarray(j)
    case.check(i.shape == j.shape and i.ndim == 1, 'indices come in pairs', i=i.shape, j=j.shape)
    case.check(quads.shape == (len(i), 4, 2), 'one quadrilateral per index pair',
               got=quads.shape, n=len(i))
    case.check(np.all((i >= 0) & (i < mesh.shape[0]) & (j >= 0) & (j < mesh.shape[1])),
               'indices address the mesh')
    pairs = set(zip(i.tolist(), j.tolist()))
    case.check(len(pairs) == len(i), 'no cell twice')
    for q, a, b in zip(quads, i, j):
        want = mesh.corners[a, b]
        # same corners, whatever the starting corner or direction
        ok = any(np.array_equal(np.roll(w, k, axis=0), q)
                 for w in (want, want[::-1]) for k in range(4))
        case.check(ok, 'the quadrilateral is the cell at its index', cell=(a, b), got=q, want=want)
    return pairs


def box_query(rng, mesh, kind):
    c = mesh.corners.reshape(-1, 2)
    mn, mx = c.min(axis=0), c.max(axis=0)
    span = mx - mn
    if kind == 'inside':
        f = np.sort(rng.uniform(0, 1, (2, 2)), axis=0)
        lo, hi = mn + f[0] * span, mn + f[1] * span
    elif kind == 'tiny':
        at = mn + rng.uniform(0, 1, 2) * span
        h = mesh.step * 10 ** rng.uniform(-4, -.5)
        lo, hi = at - h, at + h
    elif kind == 'over':
        f = np.sort(rng.uniform(-.6, 1.6, (2, 2)), axis=0)
        lo, hi = mn + f[0] * span, mn + f[1] * span
    elif kind == 'all':
        lo, hi = mn - rng.uniform(0, 1, 2) * span, mx + rng.uniform(0, 1, 2) * span
    elif kind == 'strip':
        f = rng.uniform(0, 1, 2)
        lo, hi = mn - .1 * span, mx + .1 * span
        k = int(rng.integers(0, 2))
        lo[k] = mn[k] + f[0] * span[k]
        hi[k] = lo[k] + mesh.step * rng.uniform(.01, 1.5)
    elif kind == 'lines' and mesh.regular:
        x, y = np.sort(mesh.x1), np.sort(mesh.y1)
        i, j = np.sort(rng.choice(len(x), 2, replace=False)), np.sort(rng.choice(len(y), 2, replace=False))
        lo, hi = np.array([x[i[0]], y[j[0]]]), np.array([x[i[1]], y[j[1]]])
    else:
        k = int(rng.integers(0, 4))
        lo = mn + rng.uniform(0, .5, 2) * span
        hi = lo + rng.uniform(.1, .5, 2) * span
        off = span * 1.3 * np.array([(1, 0), (-1, 0), (0, 1), (0, -1)])[k]
        lo, hi = lo + off, hi + off
    return lo, hi


def boxes(case):
    rng = case.rng
    big = case.index % 25 == 3
    mesh = geom.make_mesh(rng, n=(1, 1) if case.index % 30 == 4 else
                          (int(rng.integers(20, 45)), int(rng.integers(20, 45))) if big else None)
    regular = mesh.regular and rng.random() < .75
    n = min(12, mesh.shape[0] * mesh.shape[1])
    queries = []
    for _ in range(12):
        k = str(rng.choice(['inside', 'tiny', 'over', 'all', 'strip', 'lines', 'outside']))
        queries.append((k,) + box_query(rng, mesh, k))
    case.describe(mesh=mesh.style, regular=regular, queries=[(q[0], q[1].tolist(), q[2].tolist()) for q in queries])
    case.begin('cells in a bounding box')
    sub = build(case, mesh, regular=regular, n_neighbors=n)
    for k, lo, hi in queries:
        case.trial()
        box = (lo[0], hi[0], lo[1], hi[1])
        form = [box, list(box), np.array(box)][int(rng.integers(0, 3))]
        quads, i, j = sub.quads_in_bbox(form)
        pairs = same_cells(case, mesh, quads, i, j)
        b = shapely.box(lo[0], lo[1], hi[0], hi[1])
        over = shapely.area(shapely.intersection(mesh.cells, b))
        need = over > 1e-9 * np.minimum(mesh.area, b.area)
        missing = set(map(tuple, np.argwhere(need).tolist())) - pairs
        case.check(not missing, 'no overlapped cell is missed', kind=k, box=box, regular=regular,
                   mesh=mesh.style, missing=sorted(missing)[:5], found=len(pairs))
        case.count('input: boxes %s the mesh' % ('outside' if not need.any() else 'over'))
        if need.sum() > 1:
            case.nontrivial(mesh.style, regular, box)
        if need.sum() == 1 and (over[need] < .9 * mesh.area[need]).all():
            case.count('input: boxes inside one cell')


def points(case):
    rng = case.rng
    many = case.index % 12 == 7
    mesh = geom.make_mesh(rng, n=(1, 1) if case.index % 30 == 4 else
                          tuple(int(v) for v in rng.integers(14, 24, 2)) if many else None)
    regular = mesh.regular and rng.random() < .6 and not many
    ncell = mesh.shape[0] * mesh.shape[1]
    n = int(min(ncell, rng.choice([1, 2, 4, 12, 25])))
    if many:
        n = int(rng.integers(101, min(ncell, 190)))
    own = rng.random() < .25
    kw = {}
    if own and not regular:
        # centres may be supplied by the caller
        off = mesh.step * rng.uniform(-.2, .2, mesh.centres.shape)
        ctr = mesh.centres + off
        kw = dict(X_ctr=ctr[..., 0].copy(), Y_ctr=ctr[..., 1].copy())
    else:
        ctr = mesh.centres
    pts = []
    for _ in range(15):
        i, j = rng.integers(0, mesh.shape[0]), rng.integers(0, mesh.shape[1])
        if rng.random() < .3:
            i = int(rng.choice([0, mesh.shape[0] - 1]))
        if rng.random() < .3:
            j = int(rng.choice([0, mesh.shape[1] - 1]))
        w = rng.dirichlet(np.ones(4) * rng.choice([.3, 1., 5.]))
        if w.max() > 1 - 1e-5:
            continue
        p = w @ mesh.corners[i, j]
        if not regular and rng.random() < .2:
            p = p + rng.uniform(-4, 4, 2) * mesh.step
        pts.append(p)
    case.describe(mesh=mesh.style, regular=regular, n_neighbors=n, points=pts, own_centres=bool(kw))
    case.begin('cells near a point')
    sub = build(case, mesh, regular=regular, n_neighbors=n, **kw)
    for p in pts:
        case.trial()
        form = [p, tuple(p.tolist()), p.tolist()][int(rng.integers(0, 3))]
        quads, i, j = sub.quads_nearest(form)
        pairs = same_cells(case, mesh, quads, i, j)
        if regular:
            hit = np.argwhere(shapely.contains(mesh.cells, shapely.points(p)))
            if len(hit) != 1:
                continue
            case.check(tuple(hit[0].tolist()) in pairs, 'the cell holding the point is found',
                       point=p, cell=hit[0], found=sorted(pairs)[:30], mesh=mesh.style)
        else:
            d = np.hypot(ctr[..., 0] - p[0], ctr[..., 1] - p[1])
            want = np.sort(d.ravel())[:n]
            got = np.sort([d[c] for c in pairs])
            case.check(len(got) == n, 'the requested number of cells', got=len(got), want=n)
            case.close(got, want, 'the nearest cells are found', rtol=1e-9, atol=1e-12 * np.abs(p).max())
        if len(pairs) > 1:
            case.nontrivial(mesh.style, regular, n, p.tolist())


SCENARIOS = [('boxes', boxes, 300, 4000), ('points', points, 300, 4000)]
REQUIRED = {'no overlapped cell is missed': (3000, 40000),
            'the cell holding the point is found': (900, 12000),
            'the nearest cells are found': (900, 12000),
            'input: boxes inside one cell': 100, 'input: boxes outside the mesh': 100}
