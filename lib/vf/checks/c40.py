"""File names reported by a gridding run against the files it left."""
import os
from datetime import timedelta

import numpy as np

from vf.checks import c15

PROPERTY = 'C40'
RULE = ('one evaluation per run; distinct non-trivial when it makes several images; distinct by files, grid, tiles and '
        'template')
ASSUMPTIONS = ['base gridder classes come from a stand-in for the missing lmatools package',
               'tiles written to one name leave the file of the last']


def report(case):
    from glmtools.grid.make_grids import grid_GLM_flashes
    rng = case.rng
    s = int(rng.choice([1, 1, 2]))
    d, interval, frames, start, nadir, packed, ev, gr, rev, inputs = c15.setup(case, [2.**-13, 2.**-12], .2)
    case.begin('gridding')
    c15.open_inputs(case, inputs, rev)
    xb, yb, nx, ny, cut = c15.grid_window(rng, inputs, d, s)
    out = os.path.join(case.tmp, 'run')
    template = str(rng.choice(['{dataset_name}', '{start_time:%Y/%j}/{dataset_name}', '{start_time:%H%M%S}_{end_time:%H%M%S}.nc']))
    case.describe(x=list(xb), y=list(yb), n=(nx, ny), tiles=s, template=template)
    kw = c15.options(rng, d, xb, yb, nadir, start, os.path.join(out, template), packed, interval, ev, gr, rev)
    if s > 1 or rng.random() < .5:
        kw['subdivide'] = s
    case.trial()
    got = grid_GLM_flashes([it[1] for it in inputs], start, start + timedelta(seconds=interval * frames), **kw)
    made = {os.path.join(p, n) for p, _, names in os.walk(out) for n in names}
    tiles = [tuple(int(v) for v in t[0]) for t in got]
    case.check(sorted(tiles) == [(i, j) for i in range(s) for j in range(s)], 'one report for each tile', got=tiles, tiles=s)
    names = [os.path.abspath(n) for t in got for n in t[1]]
    for t in got:
        case.check(len(t[1]) == frames, 'a file is reported for each frame of a tile', got=len(t[1]), want=frames)
    case.check(set(names) == made, 'the reported files are those written', got=sorted(names)[:4], want=sorted(made)[:4])
    if len(made) == len(names):
        for (i, j), files in got:
            stamps = set()
            for name in files:
                im = c15.read_image(name)
                x, y = im.x.values, im.y.values
                part = [b[0] + d * (n // s) * np.array([k, k + 1]) if k < s - 1 else np.array([b[0] + d * (n // s) * k, b[1]])
                        for b, n, k in ((xb, nx, i), (yb, ny, j))]
                case.check(all(p[0] < v.min() and v.max() < p[1] for p, v in zip(part, (x, y))), 'the reported file shows its tile',
                           tile=(i, j), x=(x.min(), x.max()), y=(y.min(), y.max()), want=[list(p) for p in part])
                stamps.add(im.attrs['time_coverage_start'])
            case.check(len(stamps) == frames, 'the reported files are of different frames', got=sorted(stamps))
    else:
        case.count('input: tiles of one name')
    case.count('input: tiles', s * s)
    if s * s * frames > 1:
        case.nontrivial(case.index, s, frames, template, list(xb))


SCENARIOS = [('report', report, 16, 120)]
REQUIRED = {'the reported files are those written': (14, 110), 'input: tiles': (20, 200), 'the reported file shows its tile': (10, 100)}
