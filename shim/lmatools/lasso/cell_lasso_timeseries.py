import numpy as np

from lmatools.grid.make_grids import time_edges, seconds_since_start_of_day


class TimeSeriesGenericFlashSubset(object):
    def __init__(self, t_start, t_end, dt, base_date=None):
        self.t_start, self.t_end, self.dt = t_start, t_end, dt
        self.t_edges, self.duration = time_edges(t_start, t_end, dt.total_seconds())
        self.t_ref, self.t_edges_seconds = seconds_since_start_of_day(t_start, self.t_edges)
        self.base_date = self.t_ref if base_date is None else base_date

    def gen_chopped_events_flashes(self):
        edges = np.asarray(self.t_edges_seconds)

        def cut(table, key):
            table = table[np.argsort(table[key])]
            idx = np.searchsorted(table[key], edges)
            return [table[a:b] for a, b in zip(idx[:-1], idx[1:])]
        for events, flashes in self.lma:
            yield cut(events, 'time'), cut(flashes, 'start')
