import numpy as np

from lmatools.coordinateSystems import GeographicSystem, GeostationaryFixedGridSystem

goesr_nadir_lon = {'east': -75.0, 'west': -137.2, 'test': -89.5}
goesr_full = {'spanEW': 0.303744, 'spanNS': 0.303744, 'centerEW': 0.0, 'centerNS': 0.0}
goesr_conus = {'spanEW': 0.14, 'spanNS': 0.084}
goesr_meso = {'spanEW': 0.028, 'spanNS': 0.028}
goesr_resolutions = {'0.5km': 14e-6, '1.0km': 28e-6, '2.0km': 56e-6, '4.0km': 112e-6,
                     '8.0km': 224e-6, '10.0km': 280e-6, '100km': 2800e-6}
_conus_centers = {'east': (-0.031360, 0.086240), 'west': (0.0, 0.086240),
                  'test': (-0.005040, 0.084560)}


def get_GOESR_coordsys(sat_lon_nadir=-75.0):
    return (GeostationaryFixedGridSystem(subsat_lon=sat_lon_nadir, sweep_axis='x'),
            GeographicSystem(r_equator=6378137.0, r_pole=6356752.31414))


def get_GOESR_grid(position='east', view='full', resolution='2.0km'):
    out = dict({'full': goesr_full, 'conus': goesr_conus, 'meso': goesr_meso}[view])
    out['nadir_lon'] = goesr_nadir_lon[position]
    out['resolution'] = goesr_resolutions[resolution]
    out['pixelsEW'] = int(np.round(out['spanEW'] / out['resolution']))
    out['pixelsNS'] = int(np.round(out['spanNS'] / out['resolution']))
    if view == 'conus':
        out['centerEW'], out['centerNS'] = _conus_centers[position]
    return out
