"""Meshes, polygons and exact overlaps (shapely), independent of the clipping library."""
import numpy as np
import shapely

Q = 2.0 ** -31      # resolution of the integer coordinates used for clipping


class Mesh(object):
    def __init__(self, X, Y, regular, style, x1=None, y1=None):
        self.X, self.Y, self.regular, self.style = X, Y, regular, style
        self.x1, self.y1 = x1, y1
        n0, n1 = X.shape[0] - 1, X.shape[1] - 1
        self.shape = (n0, n1)
        c = np.empty((n0, n1, 4, 2))
        c[..., 0, 0], c[..., 0, 1] = X[:-1, :-1], Y[:-1, :-1]
        c[..., 1, 0], c[..., 1, 1] = X[:-1, 1:], Y[:-1, 1:]
        c[..., 2, 0], c[..., 2, 1] = X[1:, 1:], Y[1:, 1:]
        c[..., 3, 0], c[..., 3, 1] = X[1:, :-1], Y[1:, :-1]
        self.corners = c
        self.cells = shapely.polygons(shapely.linearrings(c.reshape(-1, 4, 2))).reshape(n0, n1)
        self.area = shapely.area(self.cells)
        self.perimeter = shapely.length(self.cells)
        self.centres = c.mean(axis=2)
        self.step = float(np.sqrt(np.median(self.area)))
        self.outline = shapely.union_all(self.cells.ravel(), grid_size=None)

    def overlaps(self, poly):
        """True overlap area of a shapely polygon with every cell, and its boundary length."""
        it = shapely.intersection(self.cells, poly)
        return shapely.area(it), shapely.length(it)

    def tolerance(self, length):
        return 8 * Q * (length + .1 * self.perimeter) + 1e-11 * self.area


def edges(rng, n, step, origin, style):
    if style == 'even':
        e = origin + step * np.arange(n + 1)
    else:
        e = origin + np.concatenate([[0], np.cumsum(step * rng.uniform(.4, 1.8, n))])
    return e


def make_mesh(rng, kind=None, scale=None, n=None, flip=None, indexing=None):
    """kind: even, uneven (both rectilinear), warped (irregular quadrilaterals)."""
    kind = kind or str(rng.choice(['even', 'even', 'uneven', 'warped']))
    scale = scale or str(rng.choice(['radian', 'radian', 'degree', 'unit']))
    if scale == 'radian':
        step = float(rng.choice([14e-6, 28e-6, 56e-6, 112e-6, 224e-6, 280e-6, 2800e-6]))
        origin = rng.uniform(-.13, .12, 2)
    elif scale == 'degree':
        step = float(rng.uniform(.02, .5))
        origin = np.array([rng.uniform(-130, -40), rng.uniform(-50, 50)])
    else:
        step = float(rng.choice([.5, 1., 2.]))
        origin = rng.integers(-30, 30, 2).astype(float)
    nx, ny = (int(v) for v in (n if n is not None else rng.integers(5, 16, 2)))
    st = 'uneven' if kind == 'uneven' else 'even'
    x1, y1 = edges(rng, nx, step, origin[0], st), edges(rng, ny, step, origin[1], st)
    if flip is None:
        flip = int(rng.integers(0, 4)) if rng.random() < .5 else 0
    if flip & 1:
        x1 = x1[::-1].copy()
    if flip & 2:
        y1 = y1[::-1].copy()
    indexing = indexing or ('ij' if rng.random() < .3 else 'xy')
    X, Y = np.meshgrid(x1, y1, indexing=indexing)
    regular = kind != 'warped'
    if kind == 'warped':
        th = rng.uniform(-.5, .5)
        cx, cy = X.mean(), Y.mean()
        U, V = X - cx, Y - cy
        X = cx + U * np.cos(th) - V * np.sin(th) + .15 * V
        Y = cy + U * np.sin(th) + V * np.cos(th)
        X = X + step * rng.uniform(-.12, .12, X.shape)
        Y = Y + step * rng.uniform(-.12, .12, X.shape)
    m = Mesh(X, Y, regular, dict(kind=kind, scale=scale, step=step, n=(nx, ny), flip=flip,
                                 indexing=indexing), x1, y1)
    return m


def shape(rng, kind, size):
    """Vertices of a simple polygon of about the given size around the origin."""
    if kind == 'quad':
        c = np.array([[-1, 1], [-1, -1], [1, -1], [1, 1]]) * .5
        p = (c + rng.uniform(-.15, .15, c.shape)) * size
    elif kind == 'convex':
        k = int(rng.integers(3, 9))
        a = np.sort((np.arange(k) + rng.uniform(.1, .9, k)) * 2 * np.pi / k)
        p = .5 * size * np.column_stack([np.cos(a), rng.uniform(.4, 1) * np.sin(a)])
        th = rng.uniform(0, np.pi)
        p = p @ np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    elif kind == 'star':
        k = int(rng.integers(5, 14))
        a = (np.arange(k) + rng.uniform(.1, .9, k)) * 2 * np.pi / k
        r = .5 * size * rng.uniform(.25, 1, k)
        p = np.column_stack([r * np.cos(a), r * np.sin(a)])
    elif kind == 'comb':
        t = int(rng.integers(2, 4))
        x = np.arange(2 * t + 1) / (2. * t) - .5
        top = np.where(np.arange(2 * t) % 2, -.3, .5)
        pts = [(-.5, -.5)]
        for i in range(2 * t):
            pts += [(x[i], top[i]), (x[i + 1], top[i])]
        pts += [(.5, -.5)]
        q = np.array(pts)
        keep = np.ones(len(q), bool)
        keep[1:] = np.any(np.diff(q, axis=0) != 0, axis=1)
        p = q[keep] * size
    elif kind == 'sliver':
        p = np.array([[-.5, 0], [.5, .02], [.5, .06], [-.5, .03]]) * size
        th = rng.uniform(0, np.pi)
        p = p @ np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    elif kind == 'box':
        w, h = rng.uniform(.3, .5, 2) * size
        p = np.array([[-w, -h], [w, -h], [w, h], [-w, h]])
    else:
        raise ValueError(kind)
    if rng.random() < .5:
        p = p[::-1]
    return np.roll(p, int(rng.integers(0, len(p))), axis=0).copy()


KINDS = ['quad', 'quad', 'convex', 'star', 'comb', 'sliver', 'box']
CONVEX = ['quad', 'convex', 'box', 'sliver']


def to_shapely(p):
    return shapely.polygons(shapely.linearrings(np.asarray(p, dtype=float)))


def place(rng, mesh, kind, cells, where):
    """A polygon about `cells` mesh steps across: inside, over the edge, or anywhere."""
    for _ in range(200):
        p = shape(rng, kind, cells * mesh.step)
        i, j = rng.integers(0, mesh.shape[0]), rng.integers(0, mesh.shape[1])
        at = mesh.centres[i, j] + rng.uniform(-.5, .5, 2) * mesh.step
        if where == 'edge':
            side = rng.integers(0, 4)
            i = (0, mesh.shape[0] - 1)[side & 1] if side < 2 else i
            j = (0, mesh.shape[1] - 1)[side & 1] if side >= 2 else j
            at = mesh.centres[i, j] + rng.uniform(-.7, .7, 2) * mesh.step
        q = p + at
        s = to_shapely(q)
        if not s.is_valid:
            continue
        inside = mesh.outline.covers(s)
        if where == 'inside' and not inside:
            continue
        if where == 'edge' and inside:
            continue
        return q, s
    return None, None


def on_lines(rng, mesh):
    """A rectangle whose sides lie on mesh lines (rectilinear meshes)."""
    x, y = np.sort(mesh.x1), np.sort(mesh.y1)
    i, j = rng.integers(0, len(x) - 1), rng.integers(0, len(y) - 1)
    k, m = rng.integers(i + 1, len(x)), rng.integers(j + 1, len(y))
    q = np.array([[x[i], y[j]], [x[k], y[j]], [x[k], y[m]], [x[i], y[m]]])
    return q, to_shapely(q)
