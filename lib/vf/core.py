"""Case runner shared by all checks: seeding, monitors, verdicts, evidence.

A check module defines
    PROPERTY, RULE, ASSUMPTIONS
    SCENARIOS = [(name, function, quick_count, thorough_count), ...]
    REQUIRED = {counter: minimum}      # below the minimum the run is inconclusive
Each function takes a Case and reports what it saw through it.
"""
import argparse
import errno
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

HOME = os.environ.get('VERIF_HOME', os.getcwd())
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = 6
MAX_VIOLATIONS = 4
CASE_CPU_SECONDS = 200


class Violated(Exception):
    """Raised by Case.check to end a case at the first broken observation."""


class CaseHang(BaseException):
    pass


class Skip(Exception):
    """Raised by a case whose generated input turned out not to be usable."""


def jsonable(v, depth=0):
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in list(v.items())[:40]}
    if isinstance(v, (list, tuple, set, frozenset)):
        v = list(v)
        out = [jsonable(x, depth + 1) for x in v[:24]]
        if len(v) > 24:
            out.append('... %d in all' % len(v))
        return out
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return jsonable(v[()], depth)
        if v.dtype.kind in 'Mm' or v.dtype.fields:
            return {'array': list(v.shape), 'head': [str(x) for x in v.ravel()[:8]]}
        if v.size > 24:
            return {'array': list(v.shape), 'dtype': str(v.dtype),
                    'head': [jsonable(x) for x in v.ravel()[:12]]}
        return jsonable(v.tolist(), depth)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return v if np.isfinite(v) else str(v)
    if v is None or isinstance(v, str):
        return v
    return str(v)[:300]


class Case(object):
    def __init__(self, prop, scenario, index, seed, tier, tmproot):
        self.prop, self.scenario, self.index = prop, scenario, index
        self.seed, self.tier = seed, tier
        self.rng = np.random.default_rng(
            [seed & 0xffffffff, zlib.crc32(prop.encode()), zlib.crc32(scenario.encode()), index])
        self.counters = {}
        self.signatures = set()
        self.samples = []
        self.violations = []
        self.inputs = {}
        self.started = False
        self.tmproot = tmproot
        self._tmp = None
        self.stage = ''
        self.trials = 0

    # -- bookkeeping ------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='%s_%d_' % (self.scenario, self.index),
                                         dir=self.tmproot)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def describe(self, **kw):
        """Record the inputs of the case, for samples and replay files."""
        self.inputs.update(kw)

    def begin(self, stage='code under test'):
        """The input is ready: from here on exceptions belong to the code under test."""
        self.started = True
        self.stage = stage

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def trial(self):
        """Count one evaluation, for cases that make several."""
        self.trials += 1

    def nontrivial(self, *sig):
        h = hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest()
        self.signatures.add(self.scenario + ':' + h)

    # -- monitors ---------------------------------------------------------
    def fail(self, monitor, key=None, **detail):
        self.violations.append(dict(monitor=monitor, key=key or monitor, detail=jsonable(detail)))
        raise Violated(monitor)

    def check(self, ok, monitor, key=None, **detail):
        self.count(monitor)
        if not bool(np.all(ok)):
            self.fail(monitor, key=key, **detail)

    def note(self, ok, monitor, key=None, **detail):
        """As check, but carries on with the case after a violation."""
        self.count(monitor)
        if not bool(np.all(ok)):
            self.violations.append(dict(monitor=monitor, key=key or monitor,
                                        detail=jsonable(detail)))

    def equal(self, got, want, monitor, key=None, **detail):
        """Exact equality, NaN equal to NaN, shape included."""
        self.count(monitor)
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok and g.size:
            if g.dtype.kind == 'f' and w.dtype.kind == 'f':
                ok = bool(np.all((g == w) | (np.isnan(g) & np.isnan(w))))
            elif g.dtype.kind in 'mM' and w.dtype.kind in 'mM':
                ok = bool(np.all((g == w) | (np.isnat(g) & np.isnat(w))))
            else:
                ok = bool(np.all(g == w))
        if not ok:
            if g.shape == w.shape and g.size:
                bad = np.argwhere(~np.atleast_1d(g == w))[:3]
                detail['first_bad'] = bad
                detail['got_bad'] = [np.atleast_1d(g)[tuple(b)] for b in bad]
                detail['want_bad'] = [np.atleast_1d(w)[tuple(b)] for b in bad]
            self.fail(monitor, key=key, got=g, want=w, **detail)

    def close(self, got, want, monitor, rtol=1e-9, atol=0.0, key=None, **detail):
        self.count(monitor)
        g, w = np.asarray(got, dtype='f8'), np.asarray(want, dtype='f8')
        if g.shape != w.shape:
            self.fail(monitor, key=key, why='shape', got=g, want=w, **detail)
        atol = np.broadcast_to(np.asarray(atol, dtype='f8'), w.shape)
        with np.errstate(all='ignore'):
            bad = ~((np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w)) |
                    (g == w))
        if bad.any():
            i = np.argwhere(np.atleast_1d(bad))[:3]
            self.fail(monitor, key=key, n_bad=int(bad.sum()), n=int(bad.size), where=i,
                      got=[np.atleast_1d(g)[tuple(b)] for b in i],
                      want=[np.atleast_1d(w)[tuple(b)] for b in i], **detail)


class Job(object):
    """Runs in a worker process: one case at a time."""
    def __init__(self, module, seed, tier, tmproot):
        self.module, self.seed, self.tier, self.tmproot = module, seed, tier, tmproot

    def __call__(self, arg):
        scenario, index = arg
        mod = self.module
        fn = dict((s[0], s[1]) for s in mod.SCENARIOS)[scenario]
        case = Case(mod.PROPERTY, scenario, index, self.seed, self.tier, self.tmproot)
        err = None
        skipped = False

        def on_alarm(signum, frame):
            raise CaseHang()
        signal.signal(signal.SIGPROF, on_alarm)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
        np.random.seed(case.rng.integers(2**31))
        # files written to the working directory by mistake go with the rest
        here = os.getcwd()
        os.chdir(self.tmproot)
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                fn(case)
        except Violated:
            pass
        except Skip as e:
            skipped = True
            case.count('skipped: %s' % e)
        except CaseHang:
            case.violations.append(dict(
                monitor='finishes', key='hang', detail=dict(
                    why='case used more than %d s of CPU time' % CASE_CPU_SECONDS)))
        except Exception as e:
            tb = traceback.format_exc()
            environment = (isinstance(e, MemoryError) or
                           getattr(e, 'errno', None) in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE))
            in_repo = [f for f in traceback.extract_tb(e.__traceback__)
                       if f.filename.startswith(os.path.join(REPO, 'glmtools'))]
            if environment or not case.started:
                err = tb
            else:
                where = ('%s:%s' % (os.path.relpath(in_repo[-1].filename, REPO), in_repo[-1].name)
                         if in_repo else 'result')
                case.violations.append(dict(
                    monitor='no exception on valid input (%s)' % case.stage,
                    key='exception %s %s' % (type(e).__name__, where),
                    detail=dict(error='%s: %s' % (type(e).__name__, str(e)[:400]),
                                traceback=tb[-1800:])))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.chdir(here)
            case.cleanup()
        for v in case.violations:
            v.update(scenario=scenario, index=index, inputs=jsonable(case.inputs))
        sample = None
        if index < 2 and case.inputs and not skipped:
            sample = dict(scenario=scenario, index=index, case=jsonable(case.inputs),
                          observed=jsonable(case.counters))
        return dict(counters=case.counters, signatures=case.signatures, sample=sample,
                    violations=case.violations, error=err, skipped=skipped,
                    trials=max(1, case.trials))


def load_known(prop):
    """known_findings.txt lines:  known: property=<id> key=<mechanism> | <text>"""
    out = {}
    path = os.path.join(HOME, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s key=' % prop):
                key, _, text = line.split('key=', 1)[1].partition(' | ')
                out[key.strip()] = text.strip()
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--scenario', help='run only this scenario (development)')
    ap.add_argument('--serial', action='store_true')
    args = ap.parse_args(argv)
    t_start = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    except ValueError:
        seed = zlib.crc32(os.environ['VERIF_SEED'].encode())
    only = None
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        seed, tier = rep['seed'], rep['tier']
        only = (rep['scenario'], rep['index'])

    mod = importlib.import_module('vf.checks.' + args.property.lower())
    prop = mod.PROPERTY
    import glmtools
    if not os.path.abspath(glmtools.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print('ERROR: glmtools loaded from %s, not from %s' % (glmtools.__file__, REPO))
        return 2

    work = []
    for name, fn, nq, nt in mod.SCENARIOS:
        if args.scenario and name != args.scenario:
            continue
        work += [(name, i) for i in range(nq if tier == 'quick' else nt)]
    if only:
        work = [only]
    # Spread scenarios so that workers see a mixture, and deterministic order.
    order = np.random.default_rng(12345).permutation(len(work))
    work = [work[i] for i in order]

    tmproot = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    counters, signatures, samples, violations, errors = {}, set(), {}, [], []
    done = 0
    skipped = 0
    trials = 0
    job = Job(mod, seed, tier, tmproot)
    known = load_known(prop)

    def absorb(r):
        nonlocal done, skipped, trials
        done += 1
        trials += r['trials']
        skipped += bool(r['skipped'])
        for k, n in r['counters'].items():
            counters[k] = counters.get(k, 0) + n
        signatures.update(r['signatures'])
        if r['sample'] is not None:
            samples[(r['sample']['scenario'], r['sample']['index'])] = r['sample']
        violations.extend(r['violations'])
        if r['error']:
            errors.append(r['error'])

    def fresh():
        return [v for v in violations if v['key'] not in known]

    stopped = False
    try:
        if args.serial or only or len(work) < 4 or getattr(mod, 'SERIAL', False):
            for w in work:
                absorb(job(w))
                if len(fresh()) >= MAX_VIOLATIONS or len(errors) > 3:
                    stopped = True
                    break
        else:
            stopped = run_pool(job, work, absorb,
                               lambda: len(fresh()) >= MAX_VIOLATIONS or len(errors) > 3,
                               violations)
    finally:
        shutil.rmtree(tmproot, ignore_errors=True)

    bad = fresh()
    missing = {}
    if not only and not args.scenario and not stopped:
        for k, n in mod.REQUIRED.items():
            if isinstance(n, tuple):
                n = n[0] if tier == 'quick' else n[1]
            if counters.get(k, 0) < n:
                missing[k] = (counters.get(k, 0), n)

    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=trials, cases=done, distinct_nontrivial=len(signatures), rule=mod.RULE,
            cases_skipped=skipped,
            monitor_evaluations=dict(sorted((k, v) for k, v in counters.items()
                                            if not k.startswith('input: '))),
            workload=dict(sorted((k[7:], v) for k, v in counters.items()
                                 if k.startswith('input: '))),
            samples=[samples[k] for k in sorted(samples)][:8],
            known_findings_seen=sorted(set(v['key'] for v in violations if v['key'] in known)),
            inconclusive={k: '%d of %d needed' % v for k, v in missing.items()}),
        assumptions=list(mod.ASSUMPTIONS), violations=len(bad),
        wall_s=round(time.time() - t_start, 2))
    ev_dir = os.path.join(HOME, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    if not only and not args.scenario:
        with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write('\n')

    print('%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %.1f s' % (
        prop, tier, seed, done, trials, len(signatures), time.time() - t_start))
    for k in sorted(counters):
        print('   %-58s %d' % (k, counters[k]))
    for key in sorted(set(v['key'] for v in violations if v['key'] in known)):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[key], key))
    if bad:
        bad.sort(key=lambda v: (v['scenario'], v['index']))
        for n, v in enumerate(bad[:MAX_VIOLATIONS]):
            path = os.path.join('evidence', 'replay_%s_%d.json' % (prop, n))
            with open(os.path.join(HOME, path), 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
                f.write('\n')
            print('monitor "%s" failed in case %s/%d: %s' % (
                v['monitor'], v['scenario'], v['index'], json.dumps(v['detail'])[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('ERROR in the harness:\n' + errors[0])
        return 2
    if missing:
        print('INCONCLUSIVE: monitors not reached often enough: %s' % missing)
        return 2
    return 0


_job = None


def _run(arg):
    return _job(arg)


def run_pool(job, work, absorb, stop, violations):
    """Run the cases on forked workers.

    A worker that dies may have been killed from outside, so the cases that were in flight are
    run again one per process; only a case that kills its process a second time is a violation.
    """
    global _job
    _job = job
    from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
    from concurrent.futures.process import BrokenProcessPool
    ctx = multiprocessing.get_context('fork')
    pending = list(reversed(work))
    while pending:
        running = {}
        try:
            with ProcessPoolExecutor(WORKERS, mp_context=ctx) as pool:
                while pending or running:
                    while pending and len(running) < 2 * WORKERS:
                        w = pending[-1]
                        running[pool.submit(_run, w)] = w
                        pending.pop()
                    done, _ = wait(list(running), return_when=FIRST_COMPLETED)
                    for f in done:
                        result = f.result()
                        running.pop(f)
                        absorb(result)
                    if stop():
                        pool.shutdown(wait=True, cancel_futures=True)
                        return True
        except BrokenProcessPool:
            for w in list(running.values()):
                try:
                    with ProcessPoolExecutor(1, mp_context=ctx) as single:
                        absorb(single.submit(_run, w).result())
                except BrokenProcessPool:
                    violations.append(dict(
                        monitor='process survives', key='crash', scenario=w[0], index=w[1],
                        inputs={}, detail=dict(why='the process running this case died twice')))
                if stop():
                    return True
    return False
