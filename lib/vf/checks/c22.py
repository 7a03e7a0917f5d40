"""File names and product times."""
import os
import time
from contextlib import contextmanager
from datetime import datetime, timedelta, timezone

import numpy as np
import pandas as pd

PROPERTY = 'C22'
RULE = ('one evaluation per file name; distinct non-trivial when its times are not all on a whole minute; '
        'distinct by name')
ASSUMPTIONS = ['names follow the GOES-R pattern; times in names are whole tenths of a second',
               'the clock does not jump by more than two seconds during a call']

LETTER = {'FULL': 'F', 'CONUS': 'C', 'MESO1': 'M1', 'MESO2': 'M2', 'OTHER': 'M1'}
SCENE = {'FULL': 'Full Disk', 'CONUS': 'CONUS', 'MESO1': 'Mesoscale', 'MESO2': 'Mesoscale', 'OTHER': 'Custom'}


def instant(rng, near=None):
    if near is not None:
        return near + timedelta(seconds=int(rng.integers(0, 4000)) / 10)
    u = rng.random()
    if u < .35:
        d = [datetime(2020, 2, 29), datetime(2019, 12, 31), datetime(2020, 12, 31), datetime(2017, 1, 1),
             datetime(2024, 12, 31), datetime(2000, 2, 29), datetime(2100, 3, 1), datetime(2020, 3, 1),
             datetime(2019, 3, 1)][int(rng.integers(0, 9))]
    else:
        d = datetime(int(rng.integers(2016, 2040)), 1, 1) + timedelta(days=int(rng.integers(0, 366)))
    tenths = int(rng.integers(0, 864000))
    if rng.random() < .3:
        tenths = int(rng.choice([0, 863999, 863990, 36000, 432000]))
    return d + timedelta(milliseconds=100 * tenths)


def code(t):
    """Year, day of year, time and tenths, worked out without strftime."""
    doy = (datetime(t.year, t.month, t.day) - datetime(t.year, 1, 1)).days + 1
    return '%04d%03d%02d%02d%02d%d' % (t.year, doy, t.hour, t.minute, t.second, t.microsecond // 100000)


def utc():
    return datetime.now(timezone.utc).replace(tzinfo=None)


@contextmanager
def clock_in(zone):
    """Set the time zone of this process and put it back."""
    before = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        yield
    finally:
        if before is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = before
        time.tzset()


def near(a, b):
    return abs((a - b).total_seconds()) < 1e-4


def parse(case):
    from glmtools.io.glm import parse_glm_filename, parse_glm_filename_time
    rng = case.rng
    s = instant(rng)
    e = instant(rng, s) if rng.random() < .7 else instant(rng)
    c = instant(rng, e) if rng.random() < .7 else instant(rng)
    env = str(rng.choice(['OR', 'OT', 'IR', 'DE']))
    prod = str(rng.choice(['GLM-L2-LCFA', 'GLM-L2-GLMC-M3', 'GLM-L2-GLMM1-M3', 'GLM-L2-GLMF-M3']))
    plat = str(rng.choice(['G16', 'G17', 'G18', 'G19']))
    name = '%s_%s_%s_s%s_e%s_c%s.nc' % (env, prod, plat, code(s), code(e), code(c))
    if rng.random() < .2:
        name = name[:-3]
    case.describe(name=name)
    case.begin('parsing')
    got = parse_glm_filename(name)
    case.check(len(got) == 6, 'six parts')
    case.check(tuple(got[:3]) == (env, prod, plat), 'environment, product and platform', got=got[:3], name=name)
    for g, w, what in zip(got[3:], (s, e, c), ('start', 'end', 'creation')):
        case.check(isinstance(g, datetime) and near(g, w), '%s time of the name' % what, got=str(g), want=str(w), name=name)
    one = parse_glm_filename_time(str(rng.choice(['s', 'e', 'c'])) + code(s))
    case.check(near(one, s), 'a single time string', got=str(one), want=str(s))
    if s.microsecond or s.second:
        case.nontrivial(name)


def generate(case):
    from glmtools.io.glm import parse_glm_filename
    from glmtools.io.imagery import get_glm_global_attrs
    rng = case.rng
    s = instant(rng)
    e = s + timedelta(seconds=float(rng.choice([60, 20, 300, .5, 86400, 12.3])))
    fine = rng.random() < .35
    if fine:
        # not on a tenth of a second, often in the last tenth of a second
        if rng.random() < .6:
            s, e = s.replace(microsecond=900000), e.replace(microsecond=900000) + timedelta(seconds=1)
        s, e = (t + timedelta(microseconds=int(rng.choice([1, 50001, 99999, int(rng.integers(1, 100000))]))) for t in (s, e))
    scene = str(rng.choice(list(LETTER)))
    plat = str(rng.choice(['G16', 'G17', 'G18']))
    slot = str(rng.choice(['GOES-East', 'GOES-West', 'GOES-Test']))
    inst = str(rng.choice(['GLM-1', 'GLM-2']))
    res = str(rng.choice(['2km at nadir', '4km at nadir']))
    env, src, site = str(rng.choice(['DE', 'OE'])), str(rng.choice(['Realtime', 'Postprocessed'])), 'TTU'
    case.describe(start=str(s), end=str(e), scene=scene, platform=plat)
    case.begin('global attributes')
    t0 = utc()
    m = get_glm_global_attrs(s, e, plat, slot, inst, scene, res, 'ABI Mode 3', env, src, site)
    t1 = utc()
    name = m['dataset_name']
    case.check(name.endswith('.nc'), 'the name ends in .nc', name=name)
    p = parse_glm_filename(name)
    case.check(p[2] == plat, 'the platform comes back', name=name)
    case.check(all(abs((a - b).total_seconds()) < .1001 if fine else near(a, b) for a, b in ((p[3], s), (p[4], e))),
               'the frame times come back', name=name, start=str(s), end=str(e))
    if not fine:
        case.check('_s%s_e%s_c' % (code(s), code(e)) in name, 'the name holds the frame times', name=name)
    case.check(t0 - timedelta(seconds=2) <= p[5] <= t1 + timedelta(seconds=2), 'the creation time comes back', name=name)
    made = pd.Timestamp(m['date_created']).tz_localize(None).to_pydatetime()
    case.check(abs((made - p[5]).total_seconds()) < .15, 'the creation time is that of the name', got=m['date_created'], name=name)
    case.check(p[1].split('-')[2] == 'GLM' + LETTER[scene], 'the scene letter', name=name, scene=scene)
    for a, w in (('time_coverage_start', s), ('time_coverage_end', e)):
        got = pd.Timestamp(m[a])
        case.check(near(got.tz_localize(None).to_pydatetime(), w) and got.utcoffset() == timedelta(0),
                   'coverage attributes parse to the frame times', attribute=a, got=m[a])
    for a, w in (('platform_ID', plat), ('orbital_slot', slot), ('instrument_ID', inst),
                 ('scene_id', SCENE[scene]), ('spatial_resolution', res), ('production_environment', env),
                 ('production_data_source', src), ('production_site', site), ('timeline_id', 'ABI Mode 3')):
        case.check(m[a] == w, 'attributes are those given', attribute=a, got=m[a], want=w)
    if s.microsecond or s.second:
        case.nontrivial(name[:60])


def zones(case):
    """The computer's own time zone changes neither the times read nor the times written."""
    from glmtools.io.glm import parse_glm_filename
    from glmtools.io.imagery import get_glm_global_attrs
    rng = case.rng
    s = instant(rng)
    e = s + timedelta(seconds=float(rng.choice([60, 300, 86400])))
    # the sign is reversed in this notation: CST6CDT is west of Greenwich
    zone = str(rng.choice(['CST6CDT,M3.2.0,M11.1.0', 'JST-9', 'UTC0', 'HST10', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3']))
    case.describe(zone=zone, start=str(s), end=str(e))
    case.begin('another time zone')
    with clock_in(zone):
        t0 = utc()
        m = get_glm_global_attrs(s, e, 'G16', 'GOES-East', 'GLM-1', 'FULL', '2km at nadir', 'ABI Mode 3', 'DE',
                                 'Realtime', 'TTU')
        t1 = utc()
        p = parse_glm_filename(m['dataset_name'])
    case.check(near(p[3], s) and near(p[4], e), 'frame times in any time zone', name=m['dataset_name'])
    for a, w in (('time_coverage_start', s), ('time_coverage_end', e)):
        case.check(near(pd.Timestamp(m[a]).tz_convert('UTC').tz_localize(None).to_pydatetime(), w),
                   'coverage attributes in any time zone', attribute=a, got=m[a], want=str(w))
    made = pd.Timestamp(m['date_created']).tz_convert('UTC').tz_localize(None).to_pydatetime()
    slack = timedelta(seconds=2)
    case.check(t0 - slack <= made <= t1 + slack, 'the creation time is that of creation in any time zone',
               got=m['date_created'], before=str(t0), after=str(t1), zone=zone)
    case.check(t0 - slack <= p[5] <= t1 + slack, 'the creation time of the name in any time zone',
               got=str(p[5]), before=str(t0), after=str(t1), zone=zone)
    if zone != 'UTC0':
        case.nontrivial(zone + m['dataset_name'][:60])


def days(case):
    """Every day of a span of years, one case per year."""
    from glmtools.io.glm import parse_glm_filename_time
    from glmtools.io.imagery import get_glm_global_attrs
    year = 2016 + case.index
    case.describe(year=year)
    case.begin('every day of a year')
    d = datetime(year, 1, 1)
    while d.year == year:
        case.trial()
        t = d + timedelta(milliseconds=100 * int(case.rng.integers(0, 864000)))
        case.check(near(parse_glm_filename_time('s' + code(t)), t), 'every day parses', time=str(t))
        m = get_glm_global_attrs(t, t + timedelta(seconds=60), 'G16', 'GOES-East', 'GLM-1', 'FULL', 'r',
                                 'ABI Mode 3', 'DE', 'Realtime', 'TTU')
        case.check('_s%s_' % code(t) in m['dataset_name'], 'every day is named', time=str(t), name=m['dataset_name'])
        case.nontrivial(code(t))
        d += timedelta(days=1)


SCENARIOS = [('parse', parse, 400, 5000), ('generate', generate, 300, 3000), ('days', days, 5, 20),
             ('zones', zones, 40, 400)]
REQUIRED = {'start time of the name': (400, 5000), 'the frame times come back': (300, 3000),
            'every day parses': (1800, 7000), 'frame times in any time zone': (40, 400)}
