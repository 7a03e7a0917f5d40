"""Independent reference calculations (no glmtools code)."""
import numpy as np

RE, RP, H_SAT = 6378137.0, 6356752.31414, 35786023.0
LTG = {0: (6394140.0, 6362755.0), 1: (6392137.0, 6362755.0)}
LTG_CHANGE = np.datetime64('2018-10-15T00:00:00')


def fixed_grid(lon, lat, sat_lon, rev, re=RE, rp=RP, h=H_SAT):
    """Angles of the line of sight to the point of the lightning ellipsoid at (lon, lat).

    Built from unit vectors: the geocentric direction of the point is that of the GRS80 surface
    normal latitude, the distance along it is where that direction meets the lightning ellipsoid.
    """
    a, b = LTG[rev]
    lon = np.atleast_1d(np.asarray(lon, dtype='f8'))
    lat = np.atleast_1d(np.asarray(lat, dtype='f8'))
    dl = np.deg2rad(lon - float(sat_lon))
    ph = np.deg2rad(lat)
    # a point on GRS80 with that geodetic latitude: direction (re^2 cos, rp^2 sin)
    u = np.stack([re**2 * np.cos(ph) * np.cos(dl), re**2 * np.cos(ph) * np.sin(dl),
                  rp**2 * np.sin(ph)])
    u = u / np.sqrt((u**2).sum(axis=0))
    # (t ux/a)^2 + (t uy/a)^2 + (t uz/b)^2 = 1
    t = 1.0 / np.sqrt((u[0]**2 + u[1]**2) / a**2 + u[2]**2 / b**2)
    p = u * t
    s = np.array([re + h, 0.0, 0.0])[:, None]
    d = p - s
    d = d / np.sqrt((d**2).sum(axis=0))
    # fixed grid: x rotates about the north axis last: sin(x) = east, tan(y) = up/forward
    x = np.arcsin(d[1])
    y = np.arctan2(d[2], -d[0])
    return x, y


def visible(lon, lat, sat_lon, rev, margin=0.0):
    """True where the point faces the satellite (on the lightning ellipsoid)."""
    a, b = LTG[rev]
    dl = np.deg2rad(np.asarray(lon, 'f8') - float(sat_lon))
    ph = np.deg2rad(np.asarray(lat, 'f8'))
    u = np.stack([RE**2 * np.cos(ph) * np.cos(dl), RE**2 * np.cos(ph) * np.sin(dl),
                  RP**2 * np.sin(ph)])
    u = u / np.sqrt((u**2).sum(axis=0))
    t = 1.0 / np.sqrt((u[0]**2 + u[1]**2) / a**2 + u[2]**2 / b**2)
    p = u * t
    n = np.stack([p[0] / a**2, p[1] / a**2, p[2] / b**2])
    n = n / np.sqrt((n**2).sum(axis=0))
    los = np.array([RE + H_SAT, 0.0, 0.0])[:, None] - np.atleast_2d(p.reshape(3, -1))
    los = los / np.sqrt((los**2).sum(axis=0))
    return (n.reshape(3, -1) * los).sum(axis=0) > margin


def revision(start):
    return 0 if np.datetime64(start) < LTG_CHANGE else 1
