"""Warnings written to the log when files are opened."""
import logging
import os

import numpy as np

from ..gen import make_file
from .c04 import damage

PROPERTY = 'C43'
RULE = ('one evaluation per opened file; distinct non-trivial when the file has several flashes; distinct by kind of file, '
        'options and IDs')
ASSUMPTIONS = ['files opened by name or path', 'the wording of messages is not judged, only their level and that they name the file']


class Messages(logging.Handler):
    """Records of level warning and above that reach the root logger."""
    def __init__(self):
        super().__init__(logging.WARNING)
        self.seen = []

    def emit(self, record):
        self.seen.append((record.levelname, record.getMessage()))


def closed(f):
    g2f, e2g = f.relations()
    ok = np.isin(f.group_parent_flash_id, f.flash_id).all() and np.isin(f.event_parent_group_id, f.group_id).all()
    return bool(ok and np.isin(f.flash_id, f.group_parent_flash_id).all() and np.isin(f.group_id, f.event_parent_group_id).all())


def opened(case, path, opts):
    from glmtools.io.glm import GLMDataset
    root = logging.getLogger()
    level, h = root.level, Messages()
    # the package may be quietened by an application; here it is not
    root.setLevel(min(level or logging.WARNING, logging.WARNING))
    root.addHandler(h)
    try:
        g = GLMDataset(path, **opts)
    finally:
        root.removeHandler(h)
        root.setLevel(level)
    return g, h.seen


def warnings(case):
    from pathlib import Path
    rng = case.rng
    kind = ('whole', 'damaged', 'empty', 'whole', 'damaged')[case.index % 5]
    f = make_file(rng, n_flashes=0 if kind == 'empty' else int(rng.choice([1, 2, 5, 12])))
    if kind == 'damaged':
        damage(rng, f, case)
        if closed(f):
            kind = 'whole'
        if not min(f.n('flash'), f.n('group'), f.n('event')):
            kind = 'empty and damaged'
    opts = {}
    for name in ('check_area_units', 'change_energy_units', 'calculate_parent_child', 'fix_bad_DO07_times'):
        if rng.random() < .2:
            opts[name] = False
    if kind == 'whole' and rng.random() < .2:
        opts['check_tree'] = False
    path = f.write(os.path.join(case.tmp, 'in%d.nc' % case.index))
    arg = Path(path) if rng.random() < .3 else path
    case.describe(kind=kind, options=opts, **f.style)
    case.begin('opening a file')
    case.count('input: %s files' % kind)
    g, seen = opened(case, arg, opts)
    if kind == 'whole':
        case.check(not seen, 'no warning for a complete file', seen=seen)
    elif kind == 'damaged' or opts.get('calculate_parent_child', True):
        what = 'a repair is announced' if kind == 'damaged' else 'a file without lightning is announced'
        case.check(bool([m for lev, m in seen if os.path.basename(path) in m]), what, seen=seen)
        case.check(not [m for lev, m in seen if lev not in ('WARNING', 'WARN')], 'announcements are warnings', seen=seen)
    if len(f.flash_id) > 1:
        case.nontrivial(kind, sorted(opts), f.flash_id.tolist())


SCENARIOS = [('warnings', warnings, 150, 1500)]
REQUIRED = {'no warning for a complete file': (40, 400), 'a repair is announced': (30, 300),
            'a file without lightning is announced': (15, 150)}
