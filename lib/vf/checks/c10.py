"""Polygon slicing against exact overlaps."""
import numpy as np
import shapely

from vf import geom

PROPERTY = 'C10'
RULE = ('one evaluation per sliced polygon; distinct non-trivial when it overlaps at least two '
        'cells; distinct by mesh, polygon vertices and way of searching')
ASSUMPTIONS = ['clipping works on coordinates rounded to 2**-31, so areas are compared to within '
               'eight such units times the boundary length',
               'shapely (GEOS) computes overlap areas independently of the clipping library']


def group(frac, xi, yi, shape):
    out = np.zeros(shape)
    np.add.at(out, (np.asarray(xi, int), np.asarray(yi, int)), np.asarray(frac, float))
    return out


def judge(case, mesh, poly, s, entry, area, required, tag):
    """required: boolean array, cells which the search must have considered."""
    case.trial()
    pieces, frac, (xi, yi) = entry
    case.check(len(pieces) == len(frac) == len(xi) == len(yi), 'one share and index per piece')
    xi, yi = np.asarray(xi, int), np.asarray(yi, int)
    case.check(np.all((xi >= 0) & (xi < mesh.shape[0]) & (yi >= 0) & (yi < mesh.shape[1])),
               'indices address the mesh')
    true = s.area
    # cancellation in the usual area formula for a polygon far from the origin
    rounding = 3e-15 * np.abs(poly).max() ** 2
    tol_poly = 8 * geom.Q * s.length + 1e-11 * true
    case.check(abs(area - true) <= 1e-9 * true + rounding,
               'polygon area is the true area', got=area, want=true)
    over, length = mesh.overlaps(s)
    tol = mesh.tolerance(length) + rounding * 2
    got = group(np.asarray(frac, float) * true, xi, yi, mesh.shape)
    seen = np.zeros(mesh.shape, bool)
    seen[xi, yi] = True
    must = required | seen
    bad = must & (np.abs(got - over) > tol)
    case.check(not bad.any(), 'shares equal the exact overlap', mesh=mesh.style, polygon=poly,
               cells=np.argwhere(bad)[:5], got=got[bad][:5], want=over[bad][:5],
               cell_area=mesh.area[bad][:5], how=tag)
    by_cell = {}
    for p, f, i, j in zip(pieces, frac, xi, yi):
        p = np.asarray(p, float)
        case.check(p.ndim == 2 and p.shape[1] == 2 and len(p) >= 3, 'pieces are polygons')
        pts = shapely.points(p)
        d = shapely.distance(pts, mesh.cells[i, j]).max()
        case.check(d <= 4 * geom.Q, 'pieces lie in the cell they name', distance=d, cell=(i, j))
        # corners of a piece inside the polygon (crossings of nearly parallel lines may be
        # displaced along the lines, so distance to the polygon is what is bounded)
        d = shapely.distance(pts, s).max()
        case.check(d <= 4 * geom.Q, 'pieces lie in the polygon', distance=d)
        x, y = p[:, 0] - p[0, 0], p[:, 1] - p[0, 1]
        a = abs(.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))
        case.check(abs(a - f * true) <= 1e-9 * true + 2 * rounding,
                   'shares are the areas of the pieces', got=f * true, want=a)
        by_cell.setdefault((i, j), []).append(p)
    for c, ps in by_cell.items():
        if len(ps) > 1:
            sh = [shapely.make_valid(geom.to_shapely(p)) for p in ps]
            tot, un = sum(q.area for q in sh), shapely.union_all(sh).area
            case.check(tot - un <= 8 * geom.Q * sum(q.length for q in sh) + 1e-11 * tot,
                       'pieces do not overlap', cell=c)
            case.count('input: cells cut into several pieces')
    total = float(np.sum(frac)) if len(frac) else 0.
    within = float(over.sum())
    if required.all() or not (over > 0)[~required].any():
        case.check(abs(total * true - within) <= tol.sum() + tol_poly,
                   'the part inside the mesh is kept whole', got=total, want=within / true)
        if mesh.outline.covers(s):
            case.count('input: polygons fully inside')
        else:
            case.count('input: polygons reaching past the mesh')
    if (over > tol).sum() >= 2:
        case.nontrivial(tag, mesh.style, np.round(poly, 12).tolist())


def polygons(rng, mesh, n, sizes, where=('inside', 'inside', 'edge')):
    out = []
    for _ in range(n):
        if mesh.regular and rng.random() < .12:
            out.append(geom.on_lines(rng, mesh))
            continue
        q, s = geom.place(rng, mesh, str(rng.choice(geom.KINDS)), float(rng.choice(sizes)),
                          str(rng.choice(where)))
        if q is not None:
            out.append((q, s))
    return out


def subset(mesh, **kw):
    from glmtools.grid.clipping import QuadMeshSubset
    return QuadMeshSubset(mesh.X, mesh.Y, regular=mesh.regular, **kw)


def by_box(case):
    """bbox=True: the search follows each polygon, whatever its size."""
    from glmtools.grid.clipping import QuadMeshPolySlicer
    rng = case.rng
    mesh = geom.make_mesh(rng, n=(1, 1) if case.index % 40 == 7 else None)
    ps = polygons(rng, mesh, int(rng.integers(1, 9)), [.3, .8, 1.5, 3., 5., 9., 14.],
                  ('inside', 'inside', 'edge', 'any'))
    if case.index % 5 == 0:
        # larger than the whole mesh, and beside it
        c = mesh.centres.reshape(-1, 2).mean(axis=0)
        r = 3 * mesh.step * max(mesh.shape)
        q = geom.shape(rng, 'quad', r) + c
        ps.append((q, geom.to_shapely(q)))
        q = geom.shape(rng, 'quad', mesh.step) + c + [r, rng.uniform(-1, 1) * r]
        ps.append((q, geom.to_shapely(q)))
    if not ps:
        return
    case.describe(mesh=mesh.style, polygons=[p for p, s in ps])
    case.begin('slicing by bounding box')
    slicer = QuadMeshPolySlicer(subset(mesh))
    same = len(set(len(p) for p, s in ps)) == 1 and rng.random() < .5
    arg = np.array([p for p, s in ps]) if same else [p for p, s in ps]
    if rng.random() < .2:
        arg = [p.tolist() for p, s in ps]
    out, areas = slicer.slice(arg, bbox=True)
    case.check(len(out) == len(ps) == len(areas), 'one result per polygon')
    everything = np.ones(mesh.shape, bool)
    for (p, s), e, a in zip(ps, out, areas):
        judge(case, mesh, p, s, e, a, everything, 'box')


def given_box(case):
    """bbox given: every cell meeting the box is considered."""
    from glmtools.grid.clipping import QuadMeshPolySlicer
    rng = case.rng
    mesh = geom.make_mesh(rng)
    ps = polygons(rng, mesh, int(rng.integers(1, 6)), [.8, 2., 4., 7.])
    if not ps:
        return
    allp = np.concatenate([p for p, s in ps])
    mn, mx = allp.min(axis=0), allp.max(axis=0)
    if rng.random() < .5:
        pad = rng.uniform(0, 2) * mesh.step
        box = (mn[0] - pad, mx[0] + pad, mn[1] - pad, mx[1] + pad)
    else:
        f = np.sort(rng.uniform(0, 1, (2, 2)), axis=0)
        lo, hi = mn + f[0] * (mx - mn), mn + f[1] * (mx - mn)
        box = (lo[0], hi[0], lo[1], hi[1])
    box = tuple(float(v) for v in box)
    b = shapely.box(box[0], box[2], box[1], box[3])
    required = shapely.area(shapely.intersection(mesh.cells, b)) > 1e-9 * mesh.area
    case.describe(mesh=mesh.style, box=box, polygons=[p for p, s in ps])
    case.begin('slicing in a given bounding box')
    slicer = QuadMeshPolySlicer(subset(mesh))
    out, areas = slicer.slice([p for p, s in ps], bbox=box)
    case.check(len(out) == len(ps) == len(areas), 'one result per polygon')
    for (p, s), e, a in zip(ps, out, areas):
        judge(case, mesh, p, s, e, a, required, 'given box')


def by_neighbours(case):
    """No box: the cells around the polygon centre (regular) or the nearest n (irregular)."""
    from glmtools.grid.clipping import QuadMeshPolySlicer
    rng = case.rng
    mesh = geom.make_mesh(rng)
    as_regular = mesh.regular and rng.random() < .6
    ps = polygons(rng, mesh, int(rng.integers(1, 9)), [.3, .8, 1.5, 2.2, 3.5])
    ncell = mesh.shape[0] * mesh.shape[1]
    k = int(rng.choice([1, 4, 9, 12, 20, 40]))
    k = min(k, ncell)
    if not ps:
        return
    case.describe(mesh=mesh.style, regular_search=as_regular, n_neighbors=k,
                  polygons=[p for p, s in ps])
    case.begin('slicing by neighbours')
    from glmtools.grid.clipping import QuadMeshSubset
    slicer = QuadMeshPolySlicer(QuadMeshSubset(mesh.X, mesh.Y, n_neighbors=k,
                                               regular=as_regular))
    out, areas = slicer.slice([p for p, s in ps])
    case.check(len(out) == len(ps) == len(areas), 'one result per polygon')
    for (p, s), e, a in zip(ps, out, areas):
        c = p.mean(axis=0)
        if as_regular:
            # the cell holding the centre and two cells to each side are in reach
            sh = shapely.points(c)
            hit = shapely.contains(mesh.cells, sh)
            required = np.zeros(mesh.shape, bool)
            for i, j in np.argwhere(hit):
                required[max(0, i - 2):i + 3, max(0, j - 2):j + 3] = True
        else:
            d = np.hypot(*(mesh.centres - c).transpose(2, 0, 1))
            cut = np.sort(d.ravel())[k - 1]
            required = d <= cut - 1e-9 * mesh.step
        judge(case, mesh, p, s, e, a, required, 'neighbours')


SCENARIOS = [('by_box', by_box, 260, 4000), ('given_box', given_box, 120, 1500),
             ('by_neighbours', by_neighbours, 160, 2200)]
REQUIRED = {'shares equal the exact overlap': (1000, 15000),
            'input: polygons fully inside': (400, 6000),
            'input: polygons reaching past the mesh': (60, 900),
            'input: cells cut into several pieces': 20}
