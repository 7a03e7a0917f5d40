"""Image variables leave their source alone; writing is repeatable."""
import os

import numpy as np
import xarray as xr

from vf import images

PROPERTY = 'C17'
RULE = ('one evaluation per image variable or pair of written results; distinct non-trivial when some '
        'value is below the smallest step; distinct by values and field')
ASSUMPTIONS = ['values beyond the range of the packing are stored as the largest value']


def variable(case):
    from glmtools.io.imagery import glm_image_to_var, glm_scaling
    rng = case.rng
    n = tuple(int(v) for v in rng.integers(1, 12, 2))
    name = str(rng.choice(images.FIELDS + ('event_density', 'unscaled')))
    kw = dict(glm_scaling[name]) if name in glm_scaling else {}
    how = str(rng.choice(['own', 'own', 'custom', 'none']))
    if how == 'custom':
        kw = dict(dtype=str(rng.choice(['uint16', 'uint16', 'int16', 'uint8'])), scale_factor=float(rng.choice([.5, 2., 1e-4])))
        if rng.random() < .5:
            kw['add_offset'] = 0.
            if rng.random() < .5:
                kw['add_offset'] = kw['scale_factor'] * float(rng.choice([.25, 1., 40.]))
    elif how == 'none':
        kw = {}
    if kw.get('add_offset', 1) == 0. and rng.random() < .3:
        del kw['add_offset']
    off = kw.get('add_offset', 0.)
    step = kw.get('scale_factor', 1.)
    top = {'uint16': 65535, 'int16': 32767, 'uint8': 255}[kw.get('dtype', 'uint16')]
    v = 10 ** rng.uniform(0, np.log10(top * .99), n) * step
    small = rng.random(n) < .3
    v = np.where(small, step * rng.uniform(.0001, 1.4, n), v)
    if off:
        # zero has no packed value with an offset, so it can not be marked as missing
        v = np.where(small, (step + off) * rng.uniform(.0001, 1.4, n), v + off)
    else:
        v = np.where(rng.random(n) < .3, 0, v)
    if rng.random() < .2:
        v = np.where(rng.random(n) < .2, off + step * top * rng.uniform(.9999, 3, n), v)
    if rng.random() < .3:
        v = np.where(rng.random(n) < .3, step + off, v)
    data = v.astype(str(rng.choice(['f4', 'f4', 'f8'])))
    base = data
    layout = str(rng.choice(['plain', 'flipped view', 'strided view']))
    if layout == 'flipped view':
        base = np.ascontiguousarray(np.flipud(data).T)
        data = np.flipud(base.T)
    elif layout == 'strided view':
        base = np.zeros(n + (3,), data.dtype)
        base[..., 1] = data
        data = base[..., 1]
    keep, keep_base = data.copy(), base.copy()
    case.describe(shape=n, name=name, packing=kw, layout=layout, dtype=str(data.dtype))
    case.begin('image variable')
    var = glm_image_to_var(data, name, 'a description', 'km', ('y', 'x'), **kw)
    case.check(np.array_equal(data, keep) and np.array_equal(base, keep_base), 'the source array is untouched',
               changed=int((data != keep).sum()))
    got = var.values.astype('f8')
    want = keep.astype('f8')
    if 'scale_factor' in kw and 'dtype' in kw:
        raised = (want > 0) & (want < step + off)
        want = np.where(raised, step + off, want)
        case.count('input: values beyond the range', int((want > top * step + off).sum()))
        case.count('input: packings with an offset', int(off > 0))
        want = np.minimum(want, top * step + off)
    case.close(got, want, 'values are brought into the packing range, others kept', rtol=2e-7, atol=0)
    case.check(var.name == name and var.dims == ('y', 'x'), 'named and dimensioned as asked')
    for a, w in (('standard_name', name), ('long_name', 'a description'), ('units', 'km')):
        case.check(var.attrs.get(a) == w, 'described as asked', attribute=a)
    path = os.path.join(case.tmp, 'v%d.nc' % case.index)
    xr.Dataset({name: var}).to_netcdf(path)
    with xr.open_dataset(path) as d:
        back = d[name].values.astype('f8')
    tol = (step * .5 * (1 + 1e-3) + 4e-7 * want) if 'dtype' in kw else 4e-7 * want
    zero = want == 0
    case.check(np.isnan(back[zero]).all(), 'zero is stored as missing')
    case.check(not np.isnan(back[~zero]).any(), 'values are not stored as missing', values=want[~zero & np.isnan(back)][:5])
    bad = ~zero & ~(np.abs(back - want) <= tol)
    case.check(not bad.any(), 'stored and reopened within half a step', got=back[bad][:5], want=want[bad][:5], packing=kw)
    if ((keep > 0) & (keep < step + off)).any():
        case.nontrivial(name, keep.tolist())


def read(files):
    out = []
    for f in files:
        with xr.open_dataset(f) as d:
            out.append(d.load())
    return out


def repeat(case):
    from glmtools.io.imagery import write_goes_imagery
    rng = case.rng
    g, x, y, edges, nadir = images.make_gridder(rng)
    values = images.fill(rng, g)
    flags = [bool(rng.random() < .5), bool(rng.random() < .5)]
    case.describe(shape=(len(x), len(y)), frames=len(edges) - 1, packed=flags)
    case.begin('writing')
    runs = []
    for r, packed in enumerate(flags):
        runs.append(read(write_goes_imagery(g, outpath=os.path.join(case.tmp, 'r%d' % r, '{dataset_name}'),
                                            scale_and_offset=packed)))
    case.check(len(runs[0]) == len(runs[1]), 'the same number of files')
    for f, grid in zip(g.field_names, g.outgrids):
        case.check(np.array_equal(grid, values[f]), 'the gridded result is untouched', field=f)
    for k, (a, b) in enumerate(zip(*runs)):
        case.trial()
        for f in images.FIELDS:
            va, vb = a[f].values.astype('f8'), b[f].values.astype('f8')
            case.check(np.array_equal(np.isnan(va), np.isnan(vb)), 'the same cells are missing', field=f)
            good = ~np.isnan(va)
            if flags[0] == flags[1]:
                tol = 1e-9 * np.abs(va)
            else:
                w = np.maximum(images.expected(values, f)[:, :, k].T[::-1], images.STEP[f])
                va, vb = (np.maximum(v, images.STEP[f]) for v in (va, vb))
                tol = .5 * images.STEP[f] * (1 + 1e-3) + 4e-7 * w
            bad = good & ~(np.abs(va - vb) <= tol)
            case.check(not bad.any(), 'writing again gives the same values', field=f, first=va[bad][:4],
                       second=vb[bad][:4], packed=flags)
        if (values['flash_extent_density'][:, :, k] > 0).any():
            case.nontrivial(str(edges[k]), values['flash_extent_density'][:, :, k].tolist(), flags)


def options(case):
    """The gridder writes the same images again when it is given the same options again."""
    rng = case.rng
    g, x, y, edges, nadir = images.make_gridder(rng, nx=int(rng.integers(4, 14)), ny=int(rng.integers(4, 14)))
    values = images.fill(rng, g)
    opts = {}
    if rng.random() < .8:
        opts['scale_and_offset'] = bool(rng.random() < .3)
    if rng.random() < .7:
        opts['pad'] = tuple(slice(int(rng.integers(0, n // 3 + 1)), n - int(rng.integers(0, n // 3 + 1))) for n in (len(x), len(y)))
    keep = dict(opts)
    case.describe(shape=(len(x), len(y)), frames=len(edges) - 1, options=str(opts))
    case.begin('writing with the same options')
    runs = []
    for r in range(int(rng.integers(2, 4))):
        runs.append(read(g.write_grids(outpath=os.path.join(case.tmp, 'o%d' % r, '{dataset_name}'), output_kwargs=opts)))
        case.check(opts == keep, 'the options are left as they were', got=str(opts), want=str(keep))
    for f, grid in zip(g.field_names, g.outgrids):
        case.check(np.array_equal(grid, values[f]), 'the gridded result is untouched', field=f)
    for other in runs[1:]:
        case.trial()
        case.check(len(runs[0]) == len(other), 'the same number of files')
        for a, b in zip(runs[0], other):
            for f in images.FIELDS:
                case.check(a[f].shape == b[f].shape, 'the same part of the grid', field=f, first=a[f].shape, second=b[f].shape)
                case.check(np.array_equal(a[f].values, b[f].values, equal_nan=True), 'the same options give the same image', field=f)
                case.check(a[f].encoding['dtype'] == b[f].encoding['dtype'], 'the same options give the same packing', field=f)
    case.nontrivial(str(keep), str(edges[0]), len(x), len(y))


SCENARIOS = [('variable', variable, 300, 4000), ('repeat', repeat, 25, 300), ('options', options, 15, 150)]
REQUIRED = {'stored and reopened within half a step': (300, 4000),
            'writing again gives the same values': (250, 3000),
            'the same options give the same image': (100, 1000),
            'the source array is untouched': (300, 4000)}
