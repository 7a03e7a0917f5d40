"""Unions of polygons and area helpers."""
import numpy as np
import shapely

from vf import geom

PROPERTY = 'C26'
RULE = ('a join is distinct non-trivial when two inputs overlap or touch; an area evaluation when '
        'the polygon has at least four corners; distinct by vertices')
ASSUMPTIONS = ['coordinates are rounded to 2**-31 when joining',
               'points nearer than 1e-6 of the polygon size to a boundary are not judged']


def scatter(rng, n, mode, scale):
    """n polygons, overlapping in different ways."""
    if mode == 'pixels':
        # adjoining pixels of a grid, slightly enlarged or exactly touching
        f = float(rng.choice([1., 1.02, 1.1]))
        side = int(np.ceil(np.sqrt(n))) + 2
        cells = rng.choice(side * side, min(n, side * side), replace=False)
        sq = np.array([[-.5, .5], [-.5, -.5], [.5, -.5], [.5, .5]])
        out = [(sq * f + [c % side, c // side]) for c in cells]
    elif mode == 'ring':
        k = max(n, 8)
        a = np.arange(k) * 2 * np.pi / k
        sq = np.array([[-.5, .5], [-.5, -.5], [.5, -.5], [.5, .5]])
        r = k * .9 / (2 * np.pi) + .4
        out = [sq * 1.3 + r * np.array([np.cos(t), np.sin(t)]) for t in a]
    elif mode == 'nested':
        sq = geom.shape(rng, 'convex', 1.)
        out = [sq * (i + 1) for i in range(n)]
    elif mode == 'apart':
        out = [geom.shape(rng, str(rng.choice(geom.KINDS)), 1.) + [3 * i, rng.uniform(-9, 9)]
               for i in range(n)]
    elif mode == 'same':
        s = geom.shape(rng, str(rng.choice(geom.KINDS)), 1.)
        out = [s.copy() for _ in range(n)]
    else:
        out = [geom.shape(rng, str(rng.choice(geom.KINDS)), rng.uniform(.5, 2)) +
               rng.uniform(-1.5, 1.5, 2) for _ in range(n)]
    origin = rng.uniform(-.1, .1, 2) if scale < 1 else rng.uniform(-60, 60, 2)
    return [p * scale + origin for p in out]


def winding(paths, x, y):
    """Winding number of closed paths around points."""
    w = np.zeros(len(x), int)
    for p in paths:
        p = np.asarray(p, float)
        for a, b in zip(p, np.roll(p, -1, axis=0)):
            cr = (b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0])
            w += ((a[1] <= y) & (b[1] > y) & (cr > 0)).astype(int)
            w -= ((a[1] > y) & (b[1] <= y) & (cr < 0)).astype(int)
    return w


def net_area(paths):
    t = 0.
    for p in paths:
        p = np.asarray(p, float)
        x, y = p[:, 0] - p[0, 0], p[:, 1] - p[0, 1]
        t += .5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
    return t


def joins(case):
    from glmtools.grid.clipping import join_polys
    rng = case.rng
    mode = str(rng.choice(['pixels', 'ring', 'nested', 'apart', 'same', 'random', 'random']))
    scale = float(rng.choice([224e-6, 1., 5.]))
    n = int(rng.integers(1, 14))
    if case.index % 12 == 5:
        n = int(rng.choice([65, 130, 260]))
        mode = str(rng.choice(['pixels', 'apart', 'random']))
        case.count('input: more than 64 polygons')
    polys = scatter(rng, n, mode, scale)
    same = rng.random() < .6
    for i, p in enumerate(polys):
        ccw = net_area([p]) > 0
        if same and not ccw or not same and rng.random() < .5:
            polys[i] = p[::-1].copy()
    sh = [geom.to_shapely(p) for p in polys]
    if not all(s.is_valid for s in sh):
        return
    form = 'arrays'
    if rng.random() < .3:
        form = 'lists'
    arg = polys if form == 'arrays' else [p.tolist() for p in polys]
    case.describe(mode=mode, scale=scale, n=n, one_direction=same, form=form, polygons=polys)
    case.begin('joining polygons')
    out = join_polys(arg)
    out = [np.asarray(p, float) for p in out]
    case.check(all(p.ndim == 2 and p.shape[1] == 2 and len(p) > 2 for p in out),
               'outlines are polygons')
    union = shapely.union_all(sh)
    tol = 16 * geom.Q * sum(s.length for s in sh) + 1e-10 * union.area
    net = abs(net_area(out))
    case.check(abs(net - union.area) <= tol, 'net area is the area of the union', got=net,
               want=union.area, mode=mode, polygons=polys)
    mn, mx = np.array(union.bounds[:2]), np.array(union.bounds[2:])
    pts = mn - .1 * (mx - mn) + rng.uniform(0, 1.2, (300, 2)) * (mx - mn)
    inner = np.concatenate([rng.dirichlet(np.ones(len(p)), 3) @ p for p in polys])
    pts = np.concatenate([pts, inner])
    P = shapely.points(pts)
    near = np.min([shapely.distance(P, s.boundary) for s in sh], axis=0)
    size = float(np.max(mx - mn))
    ok = near > 1e-6 * size + 16 * geom.Q
    covered = np.any([shapely.contains(s, P) for s in sh], axis=0)
    got = winding(out, pts[:, 0], pts[:, 1]) != 0
    bad = ok & (got != covered)
    case.check(not bad.any(), 'a point is covered exactly when an input covers it',
               points=pts[bad][:4], covered=covered[bad][:4], mode=mode, one_direction=same)
    again = [np.asarray(p, float) for p in join_polys([arg[k] for k in rng.permutation(len(arg))])]
    case.check(abs(abs(net_area(again)) - net) <= tol, 'order of the inputs does not matter',
               what='area')
    got2 = winding(again, pts[:, 0], pts[:, 1]) != 0
    case.check(not (ok & (got2 != got)).any(), 'order of the inputs does not matter', what='cover')
    case.count('input: unions with holes' if any(len(g.interiors) for g in
               shapely.get_parts(union)) else 'input: unions without holes')
    case.count('input: unions in several parts' if len(shapely.get_parts(union)) > 1 else
               'input: unions in one part')
    if sum(s.area for s in sh) > union.area * (1 + 1e-9) or mode == 'pixels':
        case.nontrivial(mode, scale, [np.round(p, 12).tolist() for p in polys])


def areas(case):
    from glmtools.grid.clipping import poly_area, vectorized_poly_area
    rng = case.rng
    kind = str(rng.choice(geom.KINDS))
    scale = 10 ** rng.uniform(-4, 3)
    one = [geom.shape(rng, kind, scale)]
    if case.index % 15 == 4:
        # a star of very many corners
        a = np.sort(rng.random(int(rng.choice([65, 130, 400])))) * 2 * np.pi
        one = [scale * (rng.uniform(.5, 1, len(a)) * np.array([np.cos(a), np.sin(a)])).T]
        case.count('input: more than 64 corners')
    while len(one) < rng.integers(1, 9) and len(one[0]) < 65:
        p = geom.shape(rng, kind, scale)
        if p.shape == one[0].shape:
            one.append(p)
    off = scale * rng.uniform(-20, 20, 2) * (rng.random() < .7)
    polys = np.array([p + off for p in one])
    whole = bool(rng.random() < .25)
    if whole:  # whole-number corners, stored as integers
        polys = np.round(polys / scale * 1000).astype(str(rng.choice(['i4', 'i8'])))
    sh = [geom.to_shapely(p) for p in polys]
    if not all(s.is_valid for s in sh):
        return
    want = np.array([s.area * (1 if s.exterior.is_ccw else -1) for s in sh])
    tol = 1e-9 * np.abs(want) + 3e-14 * (np.abs(polys).max() ** 2)
    case.describe(kind=kind, whole=whole, polygons=polys)
    case.begin('area helpers')
    case.count('input: corners stored as integers', int(whole))
    x, y = polys[:, :, 0].copy(), polys[:, :, 1].copy()
    x0, y0 = x.copy(), y.copy()
    got = np.asarray(vectorized_poly_area(x, y))
    case.check(got.shape == want.shape and np.all(np.abs(got - want) <= tol),
               'bulk areas are the true signed areas', got=got, want=want)
    case.check(np.array_equal(x, x0) and np.array_equal(y, y0), 'area helpers leave input alone')
    for p, w, t in zip(polys, want, tol):
        case.trial()
        g = poly_area(p[:, 0], p[:, 1])
        case.check(abs(g - w) <= t, 'single areas are the true signed areas', got=g, want=w)
        if len(p) >= 4:
            case.nontrivial(p.tolist())


SCENARIOS = [('joins', joins, 400, 6000), ('areas', areas, 300, 4000)]
REQUIRED = {'net area is the area of the union': (300, 5000),
            'input: unions with holes': 20, 'input: unions in several parts': 40,
            'single areas are the true signed areas': (400, 6000),
            'input: corners stored as integers': (30, 400)}
