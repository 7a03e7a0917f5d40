"""Text product conversion against the numbers written on each line."""
import os
import subprocess
import sys

import numpy as np
import xarray as xr

PROPERTY = 'C21'
RULE = ('one evaluation per converted file; distinct non-trivial when it holds at least two flashes '
        'with several groups and events; distinct by the text')
ASSUMPTIONS = ['lines follow the layout given in the converter']

FL = ('flash_id', 'flash_time_offset_of_first_event', 'flash_time_offset_of_last_event', 'flash_lat',
      'flash_lon', 'flash_energy', 'flash_area', 'flash_child_group_count')
GR = ('group_id', 'group_time_offset', 'group_lat', 'group_lon', 'group_energy', 'group_area',
      'group_parent_flash_id', 'group_child_event_count')
EV = ('event_id', 'event_time_offset', 'x_pixel', 'y_pixel', 'event_lat', 'event_lon', 'event_energy',
      'event_parent_group_id')
COORDS = {'event_id', 'event_time_offset', 'event_lat', 'event_lon', 'event_parent_group_id',
          'group_id', 'group_time_offset', 'group_lat', 'group_lon', 'group_parent_flash_id',
          'flash_id', 'flash_time_offset_of_first_event', 'flash_time_offset_of_last_event',
          'flash_lat', 'flash_lon'}
NOISE = ['', 'LCFA output', '# Flash #3', 'Header: D Flash', '  D Flashes summary', 'Total Event #4',
         'X Group #1', 'Events in file: 12', '\tnote about D Group #1 Child #0']


def text(rng):
    """Lines and, per level, the tuples of printed tokens."""
    t0 = float(rng.choice([543398228., 600000000., 1.])) + float(rng.random())
    lines, fl, gr, ev = [], [], [], []
    gid, eid = int(rng.integers(0, 5)), int(rng.integers(0, 5))
    fid0 = int(rng.choice([0, 3, 60000]))
    noise = rng.random() < .6
    places = int(rng.choice([3, 3, 6]))
    many = int(rng.choice([1, 1, 1, 9973]))      # as for lists cut short
    order = str(rng.choice(['rising', 'shuffled', 'repeating', 'large']))
    edge = int(rng.choice([0, 0, 700]))      # pixels counted from the middle
    shuffled = {}

    def ID(level, n):
        if order == 'repeating':
            return str(n % 3)
        if order == 'shuffled':
            if level not in shuffled:
                shuffled[level] = rng.permutation(2 ** 17)
            return str(int(shuffled[level][n]) * int(rng.choice([1, 1, 10000])))
        return str(n + (2 ** 55 + 1 if order == 'large' else 0))

    nf = int(rng.choice([0, 1, 2, 3, 8, 20], p=[.05, .15, .2, .2, .2, .2]))

    seen = {'T': [], 'P': []}

    def old(kind, new):
        # records often share their times and their places
        if seen[kind] and rng.random() < .3:
            return seen[kind][-int(rng.integers(1, 1 + min(3, len(seen[kind]))))]
        seen[kind].append(new)
        return new

    def T():
        return old('T', '%.*f' % (places, t0 + rng.random() * 20))

    def P():
        return old('P', ('%.*f' % (places, rng.uniform(-55, 55)), '%.*f' % (places, rng.uniform(-180, 180))))

    def E():
        return '%.3e' % (10 ** rng.uniform(-16, rng.choice([-11, 3])))

    def pad():
        while noise and rng.random() < .15:
            lines.append(str(rng.choice(NOISE)))

    for k in range(nf):
        pad()
        ng = int(rng.integers(rng.random() < .9, 5))
        f = (ID('f', fid0 + k), T(), T(), *P(), E(), '%.1f' % rng.uniform(50, rng.choice([9000, 200000])), str(int(ng * many)))
        fl.append(f)
        lines.append('D Flash #%s Start Time:%s End Time:%s Centroid Lat:%s Centroid Lon:%s Energy:%s '
                     'Footprint:%s Child_Count:%s' % f)
        for c in range(ng):
            pad()
            ne = int(rng.integers(rng.random() < .9, 5))
            g = (ID('g', gid), T(), *P(), E(), '%.1f' % rng.uniform(50, 900), f[0], str(ne * many))
            if c and rng.random() < .1:
                # alike but for the ID
                g = g[:1] + gr[-1][1:7] + g[7:]
            gr.append(g)
            lines.append('\tD Group #%s Child #%d Start Time:%s End Time:%s Centroid Lat:%s Centroid '
                         'Lon:%s Energy:%s Footprint:%s Parent_ID:%s Child_Count:%s'
                         % (g[0], c, g[1], T(), *g[2:]))
            for d in range(ne):
                pad()
                e = (ID('e', eid), T(), str(int(rng.integers(0, 1372)) - edge), str(int(rng.integers(0, 1300)) - edge),
                     *P(), E(), g[0])
                ev.append(e)
                lines.append('\t\tEvent #%s Child #%d Time:%s X_Pixel:%s Y_Pixel:%s Lat:%s Lon:%s '
                             'Energy:%s Parent_ID:%s' % (e[0], d, *e[1:]))
                eid += int(rng.integers(1, 3))
            gid += int(rng.integers(1, 4))
    pad()
    return lines, fl, gr, ev


def numbers(rows, i):
    """Field i of every row, exactly when printed as whole numbers."""
    v = [r[i] for r in rows]
    return np.array([int(t) for t in v]) if v and all(t.lstrip('-').isdigit() for t in v) else np.array([float(t) for t in v])


def command(case):
    convert(case, True)


def convert(case, command=False):
    from glmtools.io import convert_lcfa
    rng = case.rng
    lines, fl, gr, ev = text(rng)
    src = os.path.join(case.tmp, 'in.txt')
    out = os.path.join(case.tmp, 'out%d.nc' % case.index)
    with open(src, 'w') as f:
        f.write('\n'.join(lines) + ('\n' if rng.random() < .7 else ''))
    case.describe(lines=len(lines), flashes=len(fl), groups=len(gr), events=len(ev))
    case.begin('parsing')
    parsed = convert_lcfa.parse_LCFA_ASCII(src)
    for rows, names, frame, dim in zip((fl, gr, ev), (FL, GR, EV), parsed,
                                       ('number_of_flashes', 'number_of_groups', 'number_of_events')):
        case.check(len(frame) == len(rows), 'every line once', level=dim, got=len(frame), want=len(rows))
        case.check(set(names) <= set(frame.columns), 'every field has a column', level=dim)
        for i, name in enumerate(names):
            case.equal(frame[name].to_numpy(), numbers(rows, i),
                       'fields are the numbers printed', name=name)
    case.begin('converting')
    u = rng.random()
    if command:
        run = [sys.executable, '-W', 'ignore', convert_lcfa.__file__, src]
        r = subprocess.run(run, capture_output=True, text=True, cwd=case.tmp)
        case.check('sage' in r.stdout + r.stderr and set(os.listdir(case.tmp)) == {'in.txt'}, 'a missing name is explained and nothing is written',
                   got=r.stdout[-200:], error=r.stderr[-200:])
        r = subprocess.run(run + [out], capture_output=True, text=True, cwd=case.tmp)
        case.check(r.returncode == 0 and os.path.exists(out), 'the command writes the file', got=r.returncode, error=r.stderr[-300:])
        d = xr.open_dataset(out)
    elif u < .5:
        if u < .1:
            # an earlier result is replaced
            xr.Dataset({'x': ('number_of_events', np.arange(7))}).to_netcdf(out)
        convert_lcfa.main(src, out)
        d = xr.open_dataset(out)
    else:
        d = convert_lcfa.merge_dataframes_to_xarray(*parsed)
    try:
        case.check(COORDS <= set(d.coords), 'ids, times, positions and links are coordinates',
                   missing=sorted(COORDS - set(d.coords)))
        for rows, names, dim in zip((fl, gr, ev), (FL, GR, EV),
                                    ('number_of_flashes', 'number_of_groups', 'number_of_events')):
            case.check(d.sizes.get(dim) == len(rows), 'production dimension names', dim=dim, sizes=dict(d.sizes))
            for i, name in enumerate(names):
                case.check(name in d.variables and d[name].dims == (dim,), 'production variable names', name=name)
                case.equal(d[name].values, numbers(rows, i),
                           'converted values are the numbers printed', name=name)
    finally:
        d.close()
    if len(fl) > 1:
        case.nontrivial(lines)


SCENARIOS = [('convert', convert, 120, 1500), ('command', command, 3, 15)]
REQUIRED = {'the command writes the file': (3, 15),
            'fields are the numbers printed': (2500, 30000),
            'converted values are the numbers printed': (2500, 30000)}
