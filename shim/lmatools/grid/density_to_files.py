import numpy as np

from lmatools.stream.subset import coroutine


@coroutine
def flash_count_log(logfile, format_string=None):
    while True:
        flashes, frame_start = (yield)


@coroutine
def flashes_to_frames(time_edges, targets, time_key='start', do_events=False,
                      time_edges_datetime=None, flash_counter=None):
    """Send flashes (and events, when do_events names their time) to the frame they start in."""
    if time_edges_datetime is None:
        time_edges_datetime = time_edges
    assert len(time_edges) == len(time_edges_datetime) == len(targets) + 1

    def cut(table, key):
        order = np.argsort(table[key])
        idx = np.searchsorted(table[key][order], time_edges)
        table = table[order]
        return [table[a:b] for a, b in zip(idx[:-1], idx[1:])]

    while True:
        events, flashes = (yield)
        by_frame = cut(flashes, time_key)
        ev_by_frame = cut(events, do_events) if do_events else [events] * len(targets)
        for target, fl, ev, t0 in zip(targets, by_frame, ev_by_frame, time_edges_datetime):
            if flash_counter is not None:
                flash_counter.send((fl, t0))
            target.send((ev, fl))
        del events, flashes


@coroutine
def extract_events_for_flashes(target, flashID_key='flash_id'):
    while True:
        events, flashes = (yield)
        target.send((events[np.isin(events[flashID_key], flashes[flashID_key])], flashes))


@coroutine
def no_projection(x_coord, y_coord, z_coord, target, use_flashes=False):
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        target.send((events, flashes, points[x_coord], points[y_coord], points[z_coord]))


@coroutine
def project(x_coord, y_coord, z_coord, mapProj, geoProj, target, use_flashes=False,
            transform=True):
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        x, y, z = points[x_coord], points[y_coord], points[z_coord]
        if transform and len(x):
            x, y, z = mapProj.fromECEF(*geoProj.toECEF(x, y, z))
        target.send((events, flashes, x, y, z))


@coroutine
def point_density(target, weight_key=None, weight_flashes=True):
    while True:
        events, flashes, x, y, z = (yield)
        x, y = np.atleast_1d(x), np.atleast_1d(y)
        if len(x) > 0:
            weights = None
            if weight_key is not None:
                weights = (flashes if weight_flashes else events)[weight_key]
            target.send((x, y, weights))


def _batch(batch):
    """Positions, weights and cell fractions of what arrives, with or without the last."""
    x, y, weights = batch[:3]
    return np.atleast_1d(x), np.atleast_1d(y), weights, (batch[3] if len(batch) > 3 else None)


def _histogram(x, y, xedge, yedge, weights=None):
    return np.histogramdd((x, y), bins=(xedge, yedge), weights=weights)[0]


def _accumulator(combine):
    @coroutine
    def accumulate(grid, xedge, yedge, out=None, label='', grid_frac_weights=False):
        assert xedge.shape[0] == grid.shape[0] + 1
        assert yedge.shape[0] == grid.shape[1] + 1
        try:
            while True:
                x, y, weights, frac = _batch((yield))
                if len(x) > 0:
                    combine(grid, x, y, weights, frac if grid_frac_weights else None, xedge, yedge)
        except GeneratorExit:
            if out is not None:
                out['out'] = grid
    return accumulate


def _count_or_mean(grid, x, y, weights, frac, xedge, yedge):
    # the number of points, or the mean of their weights
    n = _histogram(x, y, xedge, yedge, frac)
    if weights is not None:
        w = np.asarray(weights, 'f8')
        total = _histogram(x, y, xedge, yedge, w if frac is None else w * frac)
        n = np.where(n > 0, total / np.where(n > 0, n, 1), 0)
    grid += n.astype(grid.dtype)


def _total(grid, x, y, weights, frac, xedge, yedge):
    w = None if weights is None else np.asarray(weights, 'f8')
    grid += _histogram(x, y, xedge, yedge, w).astype(grid.dtype)


def _minimum(grid, x, y, weights, frac, xedge, yedge):
    i, j = np.searchsorted(xedge, x, 'right') - 1, np.searchsorted(yedge, y, 'right') - 1
    m = (i >= 0) & (j >= 0) & (i < grid.shape[0]) & (j < grid.shape[1])
    low = np.full(grid.shape, np.inf)
    np.minimum.at(low, (i[m], j[m]), np.asarray(weights, 'f8')[m])
    seen = np.isfinite(low)
    grid[seen] = np.where(grid[seen] > 0, np.minimum(grid[seen], low[seen]), low[seen])


accumulate_points_on_grid = _accumulator(_count_or_mean)
accumulate_energy_on_grid = _accumulator(_total)
accumulate_minimum_on_grid = _accumulator(_minimum)


@coroutine
def extent_density(x0, y0, dx, dy, target, event_id_key='flash_id', flash_id_key='flash_id', weight_key=None,
                   event_grid_area_fraction_key=None):
    """One point for each flash in each cell it has events in."""
    while True:
        events, flashes, x, y, z = (yield)
        x, y = np.atleast_1d(x), np.atleast_1d(y)
        if len(x) > 0:
            key = np.column_stack([events[event_id_key].astype('i8'), np.floor((x - x0) / dx).astype('i8'),
                                   np.floor((y - y0) / dy).astype('i8')])
            first = np.sort(np.unique(key, axis=0, return_index=True)[1])
            weights = frac = None
            if weight_key is not None:
                of = dict(zip(flashes[flash_id_key].tolist(), flashes[weight_key].tolist()))
                weights = np.array([of[i] for i in events[event_id_key][first].tolist()])
            if event_grid_area_fraction_key is not None:
                frac = events[event_grid_area_fraction_key][first]
            target.send((x[first], y[first], weights, frac))


def accumulate_points_on_grid_sdev(*args, **kwargs):
    raise NotImplementedError('accumulate_points_on_grid_sdev is not part of the stand-in')
