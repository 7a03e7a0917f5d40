"""Random generic hierarchies and row-wise comparisons."""
import numpy as np
import xarray as xr


class Tree(object):
    """levels[k] = dict(ids, parent (row in level k-1) or None, vals)"""

    def __init__(self, rng, n_levels=None, childless=False, orphans=False, max_top=12):
        n_levels = n_levels or int(rng.integers(2, 6))
        self.names = ['lev%d' % k for k in range(n_levels)]
        self.rng = rng
        self.ids, self.parent_rows, self.parent_ids, self.vals = [], [], [], []
        n = int(rng.integers(1, max_top + 1))
        dts = ['i4', 'i8', 'u4', 'u2', 'u8']
        self.style = []
        for k in range(n_levels):
            if k > 0:
                style = str(rng.choice(['one', 'few', 'skewed', 'geometric']))
                np_ = len(self.ids[-1])
                c = {'one': lambda: np.ones(np_, int), 'few': lambda: rng.integers(1, 4, np_),
                     'skewed': lambda: np.where(np.arange(np_) == rng.integers(np_), int(rng.choice([30, 30, 300, int(rng.integers(254, 259))])), 1),
                     'geometric': lambda: rng.geometric(0.4, np_)}[style]()
                if childless:
                    c = np.where(rng.random(np_) < 0.3, 0, c)
                    if c.sum() == 0:
                        c[int(rng.integers(np_))] = 1
                prow = np.repeat(np.arange(np_), c)
                prow = prow[rng.permutation(len(prow))]
                n = len(prow)
                self.style.append(style)
            else:
                prow = None
            dt = str(rng.choice(dts))
            top = {'i4': 2**31, 'i8': 2**62, 'u4': 2**32, 'u2': 2**16, 'u8': 2**63}[dt]
            kind = str(rng.choice(['consecutive', 'sparse', 'high', 'scrambled']))
            if kind == 'consecutive':
                ids = np.arange(n)
            elif kind == 'high':
                ids = top - 1 - np.arange(n)
            elif kind == 'scrambled':
                ids = rng.permutation(n) * 3 + 1
            else:
                s = set()
                while len(s) < n:
                    s.update(int(v) for v in rng.integers(0, top, n))
                ids = rng.permutation(np.array(sorted(s)))[:n]
            if dt[0] == 'i' and rng.random() < 0.2:
                ids = -ids
            ids = np.asarray(ids).astype(dt)
            self.ids.append(ids)
            self.parent_rows.append(prow)
            self.parent_ids.append(None if prow is None else self.ids[k - 1][prow])
            self.vals.append(dict(v=rng.normal(size=n), i=rng.integers(0, 1000, n)))

    def dataset(self):
        data, coords = {}, {}
        for k, name in enumerate(self.names):
            dim = name + '_dim'
            data[name + '_v'] = (dim, self.vals[k]['v'].copy(), {'units': 'u%d' % k})
            data[name + '_i'] = (dim, self.vals[k]['i'].copy())
            coords[name + '_id'] = (dim, self.ids[k].copy())
            if k > 0:
                coords[name + '_parent'] = (dim, self.parent_ids[k].copy())
        data['scalar'] = ((), 3.25)
        return xr.Dataset(data, coords=coords, attrs={'title': 'tree'})

    @property
    def id_vars(self):
        return [n + '_id' for n in self.names]

    @property
    def parent_vars(self):
        return [n + '_parent' for n in self.names[1:]]

    def ancestor_rows(self, k, top):
        """Row in level `top` of the ancestor of each row of level k."""
        rows = np.arange(len(self.ids[k]))
        for lev in range(k, top, -1):
            rows = self.parent_rows[lev][rows]
        return rows


def rows_by_id(ids):
    return {v: i for i, v in enumerate(np.asarray(ids).tolist())}


def same_rows(case, sub, src, dim, id_var, monitor):
    """Every variable along dim in sub equals the source row with the same ID."""
    index = rows_by_id(src[id_var].data)
    idx = np.array([index[i] for i in np.asarray(sub[id_var].data).tolist()], dtype=int)
    for name in src.variables:
        if dim in src[name].dims:
            case.check(name in sub.variables, monitor, why='variable missing', var=name)
            a, b = sub[name], src[name]
            case.check(a.dims == b.dims, monitor, why='dims', var=name)
            case.check(a.dtype == b.dtype, monitor, why='dtype', var=name,
                       got=str(a.dtype), want=str(b.dtype))
            case.equal(a.data, b.data[idx], monitor, var=name)


def same_dataset(case, a, b, monitor, skip=()):
    """Same variables, same data, same dims (order of rows included)."""
    case.check(set(a.variables) - set(skip) == set(b.variables) - set(skip), monitor,
               why='variables', got=sorted(map(str, a.variables)), want=sorted(map(str, b.variables)))
    for name in b.variables:
        if name in skip:
            continue
        case.check(a[name].dims == b[name].dims, monitor, why='dims', var=name)
        case.equal(a[name].data, b[name].data, monitor, var=name)
