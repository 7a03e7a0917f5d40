"""An eager stand-in for xarray.open_mfdataset, which needs dask (not installed here)."""
import glob

import xarray as xr


def open_mfdataset(paths, chunks=None, concat_dim=None, compat='no_conflicts', preprocess=None,
                   engine=None, data_vars='all', coords='different', combine='by_coords',
                   parallel=False, join='outer', attrs_file=None, combine_attrs='override', **kw):
    if isinstance(paths, str):
        paths = sorted(glob.glob(paths))
    paths = list(paths)
    if not paths:
        raise OSError('no files to open')
    sets = []
    for p in paths:
        with xr.open_dataset(p, engine=engine, **kw) as d:
            sets.append(d.load())
    if preprocess is not None:
        sets = [preprocess(d) for d in sets]
    if combine == 'nested':
        if isinstance(concat_dim, str) or concat_dim is None:
            concat_dim = [concat_dim]
        out = xr.combine_nested(sets, concat_dim=concat_dim, compat=compat, data_vars=data_vars,
                                coords=coords, join=join, combine_attrs=combine_attrs)
    elif combine == 'by_coords':
        out = xr.combine_by_coords(sets, compat=compat, data_vars=data_vars, coords=coords,
                                   join=join, combine_attrs=combine_attrs)
    else:
        raise ValueError('combine=%r' % combine)
    return out


def install():
    try:
        import dask  # noqa
    except ImportError:
        xr.open_mfdataset = open_mfdataset
