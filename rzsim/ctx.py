""" One simulated run. """
import contextlib
import os
import shutil

import numpy as np

from . import boot, core, disk
from .core import InvalidWorkload, SimAbort, Violation


class Outcome:
    __slots__ = ('ok', 'value', 'error', 'excused', 's0', 's1', 'warnings', 'label', 'faults', 'near')

    def describe(self):
        if self.ok:
            return f'{self.label}: ok'
        return f'{self.label}: {type(self.error).__name__}: {self.error}'


class Ctx:
    def __init__(self, prop, workload, decider, root, keep_log=False):
        self.prop = prop
        self.w = workload
        self.d = decider
        self.root = os.path.join(root, 'run')
        self.sim = core.Sim(decider, workload.get('sim', {}), boot.PREFIX)
        if keep_log:
            self.sim.keep_log = []
        self.disk = disk.SimDisk(self.sim, self.root, workload.get('disk', {}))
        self.sim.disk = self.disk
        self.simulated_seconds = 0.0
        self.checks = 0
        self.cwd0 = os.getcwd()
        self.dask_cfg0 = boot.dask.config.get('array.chunk-size')

    # ------------------------------------------------------------------ set up
    def setup(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        boot.seed_uuid(0)
        self.chunk_size(self.w.get('chunk_size', '128MiB'))

    def cleanup(self):
        os.chdir(self.cwd0)
        boot.dask.config.set({'array.chunk-size': self.dask_cfg0})
        shutil.rmtree(self.root, ignore_errors=True)

    @staticmethod
    def chunk_size(size):
        boot.dask.config.set({'array.chunk-size': size})

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def write(self, rel, data):
        """ environment writes a file (not through the simulated disk) """
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with disk.REAL['open'](p, 'wb') as f:
            f.write(data)
        return p

    def client(self, name, fn):
        def body():
            t = self.sim.current
            t.warnings = []
            fn()
        t = self.sim.spawn(body, name)
        return t

    def go(self, wall=100):
        sim = self.sim
        sim.run(wall)
        if sim.deadlock:
            raise Violation('deadlock', f'threads {sim.deadlock} wait for ever')
        if sim.aborting == 'step-limit':
            raise Violation('no-progress', 'step limit reached without finishing')
        for t in sim.threads:
            if t.error is not None:
                e = t.error
                if isinstance(e, (Violation, InvalidWorkload)):
                    raise e
                raise e

    # ---------------------------------------------------------------- clients
    def attempt(self, label, fn, inject=None):
        """ run one operation of the system under test in the current client """
        sim = self.sim
        me = sim.current
        o = Outcome()
        o.label = label
        o.s0 = sim.step
        w0 = len(me.warnings)
        n0 = sim.ninject
        me.inject = inject or False
        o.value = o.error = None
        try:
            o.value = fn()
            o.ok = True
        except SimAbort:
            raise
        except Violation:
            raise
        except BaseException as e:      # noqa
            o.ok, o.error = False, e
            sim.rearm()
        me.inject = False
        o.s1 = sim.step
        o.faults = self.disk.faults_between(o.s0, o.s1, me.owner)
        o.excused = o.faults or (bool(inject) and sim.ninject > n0)
        o.warnings = me.warnings[w0:]
        sim.event('op', label, o.ok)
        return o

    @contextlib.contextmanager
    def quiet(self):
        """ the harness looks at objects of the system: no preemption meanwhile """
        me = self.sim.current
        me.notrace += 1
        try:
            yield
        finally:
            me.notrace -= 1

    def calm(self, fn):
        """ run fn with the fault plan disarmed (the environment is healthy) """
        armed, self.disk.armed = self.disk.armed, False
        try:
            return fn()
        finally:
            self.disk.armed = armed

    def probe(self, name, n=1):
        self.sim.probe(name, n)

    # ---------------------------------------------------------------- oracles
    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def must_succeed(self, o, kind='op-failed'):
        if not o.ok and not o.excused:
            import traceback
            tb = ''.join(traceback.format_exception(o.error)[-3:])
            raise Violation(kind, f'{o.describe()} although nothing failed underneath\n{tb}')
        return o.ok

    def equal(self, got, want, what, kind='wrong-data'):
        self.checks += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(kind, f'{what}: shape {got.shape}, expected {want.shape}')
        if not np.array_equal(got, want):
            bad = np.flatnonzero(np.ravel(got != want))
            raise Violation(kind, f'{what}: {len(bad)} of {got.size} values differ, first at '
                            f'{bad[0]}: {np.ravel(got)[bad[0]]!r} expected {np.ravel(want)[bad[0]]!r}')

    def close(self, got, want, what, rtol=1e-9, atol=0., kind='wrong-data'):
        """ relative to the largest expected magnitude; NaN patterns must match """
        self.checks += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(kind, f'{what}: shape {got.shape}, expected {want.shape}')
        if not got.size:
            return
        gn, wn = np.isnan(got), np.isnan(want)
        if not np.array_equal(gn, wn):
            raise Violation(kind, f'{what}: NaN at {np.argwhere(gn).tolist()[:5]}, '
                            f'expected NaN at {np.argwhere(wn).tolist()[:5]}')
        if gn.all():
            return
        scale = np.max(np.abs(want[~wn]))
        err = np.max(np.abs(got[~gn] - want[~wn]))
        if not err <= rtol * scale + atol:
            k = int(np.argmax(np.abs(np.where(gn, 0, got) - np.where(wn, 0, want))))
            raise Violation(kind, f'{what}: error {err:.3g} for a scale of {scale:.3g}, e.g. '
                            f'{np.ravel(got)[k]!r} expected {np.ravel(want)[k]!r}')
