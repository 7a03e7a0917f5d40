class LMAh5Collection(object):
    """Events and flashes for the times in a list of files, in time order."""

    def __init__(self, filenames, base_date=None, min_points=10):
        self.base_date = base_date
        self.min_points = min_points
        self.filenames = filenames
        self._time_lookup = {}
        self.times = sorted(t for f in filenames for t in self._table_times_for_file(f))

    def __iter__(self):
        for t in self.times:
            yield self.data_for_time(t)


def parse_lma_h5_filename(filename):
    raise NotImplementedError('not part of the stand-in for lmatools')
