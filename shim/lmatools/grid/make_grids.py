import os
from datetime import datetime, timedelta

import numpy as np

from lmatools.coordinateSystems import GeographicSystem


def time_edges(start_time, end_time, frame_interval):
    frame_dt = timedelta(0, frame_interval, 0)
    duration = end_time - start_time
    n_frames = int(np.ceil(duration.total_seconds() / frame_dt.total_seconds()))
    return [start_time + i * frame_dt for i in range(n_frames + 1)], duration


def seconds_since_start_of_day(start_time, t):
    t_ref = datetime(start_time.year, start_time.month, start_time.day)
    return t_ref, [(edge - t_ref).total_seconds() for edge in t]


class FlashGridder(object):
    def __init__(self, start_time, end_time, do_3d=True, frame_interval=120.0,
                 dx=4.0e3, dy=4.0e3, dz=1.0e3, base_date=None,
                 x_bnd=(-100e3, 100e3), y_bnd=(-100e3, 100e3), z_bnd=(-20e3, 20e3),
                 ctr_lat=35.23833, ctr_lon=-97.46028, ctr_alt=0.0,
                 proj_name='aeqd', proj_datum='WGS84', proj_ellipse='WGS84', pixel_coords=None,
                 flash_count_logfile=None, energy_grids=None,
                 event_grid_area_fraction_key=None, spatial_scale_factor=1.0 / 1000.0):
        self.start_time, self.end_time, self.do_3d = start_time, end_time, do_3d
        self.frame_interval = frame_interval
        self.dx, self.dy, self.dz = dx, dy, dz
        self.x_bnd, self.y_bnd, self.z_bnd = x_bnd, y_bnd, z_bnd
        self.ctr_lat, self.ctr_lon, self.ctr_alt = ctr_lat, ctr_lon, ctr_alt
        self.proj_name, self.proj_datum, self.proj_ellipse = proj_name, proj_datum, proj_ellipse
        self.flash_count_logfile = flash_count_logfile
        self.energy_grids = () if energy_grids is None else energy_grids
        self.event_grid_area_fraction_key = event_grid_area_fraction_key
        self.spatial_scale_factor = spatial_scale_factor
        self.t_edges, self.duration = time_edges(start_time, end_time, frame_interval)
        self.t_ref, self.t_edges_seconds = seconds_since_start_of_day(start_time, self.t_edges)
        self.n_frames = len(self.t_edges) - 1
        self.base_date = self.t_ref if base_date is None else base_date
        self.xedge = np.arange(x_bnd[0], x_bnd[1] + dx, dx)
        self.yedge = np.arange(y_bnd[0], y_bnd[1] + dy, dy)
        self.zedge = np.arange(z_bnd[0], z_bnd[1] + dz, dz)
        self.geoProj = GeographicSystem()
        if pixel_coords is not None:
            self.mapProj = pixel_coords
        else:
            self.mapProj = self.geoProj
        self.pipeline_setup()
        self.output_setup()

    def write_grids(self, outpath='', output_writer=None, output_writer_3d=None, output_filename_prefix='LMA',
                    output_kwargs={}):
        """One file for each kind of grid, holding all frames; returns their names."""
        x = (self.xedge[:-1] + self.xedge[1:]) / 2
        y = (self.yedge[:-1] + self.yedge[1:]) / 2
        lon, lat, alt = self.geoProj.fromECEF(*self.mapProj.toECEF(*np.broadcast_arrays(x[:, None], y[None, :], 0.)))
        names = []
        for grid, post, name, description, fmt, units in zip(
                self.outgrids, self.outfile_postfixes, self.field_names, self.field_descriptions, self.outformats,
                self.field_units):
            out = os.path.join(outpath, '%s_%s_%d_%s' % (
                output_filename_prefix, self.start_time.strftime('%Y%m%d_%H%M%S'),
                (self.end_time - self.start_time).total_seconds(), post))
            output_writer(out, self.t_ref, np.asarray(self.t_edges_seconds[:-1]), x, y, lon, lat, self.ctr_lat, self.ctr_lon,
                          grid, name, description, format=fmt, grid_units=units, **output_kwargs)
            names.append(out)
        return names


def _unavailable(*args, **kwargs):
    raise NotImplementedError('not part of the stand-in for lmatools')


write_cf_netcdf_latlon = write_cf_netcdf_noproj = write_cf_netcdf_fixedgrid = _unavailable
dlonlat_at_grid_center = grid_h5flashfiles = _unavailable
