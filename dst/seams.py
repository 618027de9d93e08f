"""Seams through which the simulator controls models, storage and threads of the repository.

No hooks are needed in /repo: cell models, degradation models and conversion operators are interfaces;
the storage is reached through the h5py classes; and threads are scheduled by tracing lines of moirae.
"""
import os
import sys
import threading
import warnings
from collections import Counter

import numpy as np
import h5py

from dst.core import REPO, InjectedError, InjectedInterrupt, InjectedOSError, HarnessError

_uninstallers = []


def preload():
    """Import the code under test once, before forking workers"""
    warnings.simplefilter('ignore')
    import moirae.simulator, moirae.interface.hdf5, moirae.estimators.online.joint  # noqa
    import moirae.estimators.online.dual, moirae.estimators.offline.scipy  # noqa
    import moirae
    where = os.path.realpath(os.path.dirname(moirae.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'moirae')):
        raise HarnessError(f'moirae is imported from {where} rather than {REPO}')
    _reference_types()


def uninstall_all():
    while _uninstallers:
        _uninstallers.pop()()
    CALLS.reset()


# ----------------------------------------------------------------------------- calls into models
class Calls:
    """Every call made by the code under test to a model, degradation model or conversion passes here"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.count = 0
        self.fault = None  # (call number, kind, where)
        self.fired = None
        self.by_site = Counter()
        self.on_call = None  # Called on each event (used to switch tasks)
        self.active = True

    def arm(self, number, kind, when='before'):
        """Make the call with this number (counting from now) fail"""
        self.count = 0
        self.fault = (number, kind, when)
        self.fired = None

    def disarm(self):
        self.fault = None

    def event(self, site, when):
        if not self.active:
            return
        if self.on_call is not None:
            self.on_call(site, when)
        if when == 'before':
            n = self.count
            self.count += 1
            self.by_site[site] += 1
        else:
            n = self.count - 1
        if self.fault is not None and self.fault[0] == n and self.fault[2] == when:
            self.fired = (site, self.fault[1], when)
            kind = self.fault[1]
            self.fault = None
            raise make_fault(kind, f'{site} {when}')


def make_fault(kind, where):
    if kind == 'interrupt':
        return InjectedInterrupt(f'dst-fault interrupt at {where}')
    if kind == 'oserror':
        return InjectedOSError(f'dst-fault I/O error at {where}')
    if kind == 'memory':
        return InjectedMemory(f'dst-fault out of memory at {where}')
    if kind == 'value':
        return InjectedValue(f'dst-fault value error at {where}')
    return InjectedError(f'dst-fault error at {where}')


class InjectedMemory(InjectedError, MemoryError):
    pass


class InjectedValue(InjectedError, ValueError):
    pass


CALLS = Calls()


def _reference_types():
    """Define the subclasses of the interfaces of moirae, once it is imported"""
    global SimECM, SimDegradation, SimConversion, SimAffine
    from moirae.models.ecm import EquivalentCircuitModel
    from moirae.models.base import DegradationModel
    from moirae.estimators.online.filters.conversions import LinearConversionOperator

    class SimECM(EquivalentCircuitModel):
        """The real ECM, observed and interrupted by the simulator"""

        def update_transient_state(self, *args, **kwargs):
            CALLS.event('update', 'before')
            out = super().update_transient_state(*args, **kwargs)
            CALLS.event('update', 'after')
            return out

        def calculate_terminal_voltage(self, *args, **kwargs):
            CALLS.event('voltage', 'before')
            out = super().calculate_terminal_voltage(*args, **kwargs)
            CALLS.event('voltage', 'after')
            return out

    class SimDegradation(DegradationModel):
        """Resistance which grows with the charge throughput"""

        def __init__(self, rate=1e-4):
            self.rate = rate

        def update_asoh(self, previous_asoh, new_inputs=None, new_transients=None, new_measurements=None):
            CALLS.event('degrade', 'before')
            new = previous_asoh.model_copy(deep=True)
            factor = 1 + self.rate * np.abs(np.mean(new_inputs.current))
            new.r0.base_values = previous_asoh.r0.base_values * factor
            CALLS.event('degrade', 'after')
            return new

    class SimConversion(LinearConversionOperator):
        """The real linear conversion, observed and interrupted by the simulator"""

        def transform_samples(self, samples):
            CALLS.event('convert', 'before')
            return super().transform_samples(samples)

        def transform_covariance(self, covariance, *args, **kwargs):
            CALLS.event('convert', 'before')
            return super().transform_covariance(covariance, *args, **kwargs)

        def inverse_transform_samples(self, transformed_samples):
            CALLS.event('convert', 'before')
            return super().inverse_transform_samples(transformed_samples)

        def inverse_transform_covariance(self, transformed_covariance, *args, **kwargs):
            CALLS.event('convert', 'before')
            return super().inverse_transform_covariance(transformed_covariance, *args, **kwargs)

    globals().update(SimECM=SimECM, SimDegradation=SimDegradation, SimConversion=SimConversion)


# ----------------------------------------------------------------------------- storage operations
class Storage:
    """Fault injection at the operations of h5py. Only the outermost of nested operations counts"""
    WRITES = [(h5py.Dataset, '__setitem__', 'write'), (h5py.Dataset, 'resize', 'grow'),
              (h5py.Dataset, 'write_direct', 'write'),
              (h5py.Group, 'create_dataset', 'create'), (h5py.Group, 'create_group', 'create'),
              (h5py.Group, 'require_dataset', 'create'), (h5py.Group, 'require_group', 'create'),
              (h5py.Group, '__setitem__', 'create'), (h5py.Group, '__delitem__', 'delete'),
              (h5py.AttributeManager, '__setitem__', 'attr'), (h5py.AttributeManager, 'create', 'attr'),
              (h5py.AttributeManager, 'modify', 'attr'), (h5py.File, 'flush', 'flush'), (h5py.Dataset, 'flush', 'flush')]
    READS = [(h5py.Dataset, '__getitem__', 'read'), (h5py.AttributeManager, '__getitem__', 'read'),
             (h5py.Dataset, 'read_direct', 'read')]

    def __init__(self):
        self.depth = 0
        self.count = 0
        self.fault = None  # (operation number, kind)
        self.fired = None
        self.trace = []

    def install(self, reads=False):
        for cls, name, site in self.WRITES + (self.READS if reads else []):
            if name not in cls.__dict__:
                continue
            orig = cls.__dict__[name]
            setattr(cls, name, self._wrap(orig, name, site))
            _uninstallers.append(lambda c=cls, n=name, o=orig: setattr(c, n, o))

    def arm(self, number, kind):
        self.count = 0
        self.fault = (number, kind)
        self.fired = None

    def disarm(self):
        self.fault = None

    def _wrap(self, orig, name, site):
        storage = self

        def operation(obj, *args, **kwargs):
            if storage.depth:
                return orig(obj, *args, **kwargs)
            n = storage.count
            storage.count += 1
            storage.depth += 1
            try:
                if storage.fault is None or storage.fault[0] != n:
                    return orig(obj, *args, **kwargs)
                kind = storage.fault[1]
                storage.fault = None
                storage.fired = (site, kind)
                if kind == 'late' or kind == 'late-interrupt':
                    orig(obj, *args, **kwargs)
                elif kind == 'torn' and name == '__setitem__' and isinstance(obj, h5py.Dataset):
                    storage._torn(orig, obj, *args)
                raise make_fault('interrupt' if 'interrupt' in kind else 'oserror', f'{site}/{kind}')
            finally:
                storage.depth -= 1

        operation.__name__ = name
        return operation

    @staticmethod
    def _torn(orig, dataset, where, value):
        """Only the first part of the value reaches the storage"""
        old = np.array(dataset[where])
        new = np.broadcast_to(np.array(value), old.shape)
        k = old.size // 2
        if k == 0:
            return
        mixed = old.ravel().copy()
        mixed[:k] = new.ravel()[:k]
        orig(dataset, where, mixed.reshape(old.shape))


# ----------------------------------------------------------------------------- threads
class LineScheduler:
    """Run functions in threads of which exactly one runs at a time, preempted at lines of moirae.

    The schedule is a list of (number of lines, choice): after this many more lines, the baton goes to the
    choice-th other live task. Once exhausted, tasks run to completion in order.
    """

    def __init__(self, schedule, limit=2_000_000):
        self.schedule = [tuple(s) for s in schedule]
        self.pos = 0
        self.left = self.schedule[0][0] if self.schedule else None
        self.limit = limit
        self.lines = 0
        self.switches = 0
        self.points = []
        self.prefix = os.path.join(os.path.realpath(REPO), 'moirae') + os.sep

    def run(self, functions):
        self.batons = [threading.Semaphore(0) for _ in functions]
        self.finished = threading.Semaphore(0)
        self.alive = list(range(len(functions)))
        self.results = [None] * len(functions)
        threads = [threading.Thread(target=self._main, args=(i, f), daemon=True) for i, f in enumerate(functions)]
        for t in threads:
            t.start()
        self.current = 0
        self.batons[0].release()
        if not self.finished.acquire(timeout=120):
            raise HarnessError('simulated threads did not finish')
        for t in threads:
            t.join(10)
        return self.results

    def _main(self, i, func):
        self.batons[i].acquire()
        sys.settrace(self._trace)
        try:
            self.results[i] = ('ok', func())
        except BaseException as e:
            self.results[i] = ('error', e)
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if self.alive:
                self.current = self.alive[0]
                self.batons[self.current].release()
            else:
                self.finished.release()

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines > self.limit:
                raise HarnessError('too many lines')
            if self.left is not None:
                self.left -= 1
                if self.left <= 0:
                    self._switch(frame)
        return self._local

    def _switch(self, frame):
        choice = self.schedule[self.pos][1]
        self.pos += 1
        self.left = self.schedule[self.pos][0] if self.pos < len(self.schedule) else None
        me = self.current
        others = [i for i in self.alive if i != me]
        if not others:
            return
        self.switches += 1
        self.points.append((os.path.basename(frame.f_code.co_filename), frame.f_code.co_name))
        other = others[choice % len(others)]
        self.current = other
        self.batons[other].release()
        self.batons[me].acquire()


# ----------------------------------------------------------------------------- data sources
class Corrupt:
    """A value which cannot be read from the source"""

    def __init__(self, kind, where):
        self.kind, self.where = kind, where

    def _fail(self, *args, **kwargs):
        raise make_fault(self.kind, self.where)

    __float__ = __array__ = __index__ = __int__ = __bool__ = _fail
    __mul__ = __rmul__ = __add__ = __radd__ = __sub__ = __rsub__ = __len__ = _fail


def break_table(row, kind):
    """Make reading the given row of any table fail (pytables)"""
    import tables
    orig = tables.Table.iterrows
    fired = []

    def iterrows(self, *args, **kwargs):
        for i, r in enumerate(orig(self, *args, **kwargs)):
            if i == row and not fired:
                fired.append(i)
                raise make_fault(kind, f'row {i} of the source')
            yield r

    tables.Table.iterrows = iterrows
    _uninstallers.append(lambda: setattr(tables.Table, 'iterrows', orig))
    return fired


def break_file(what, kind, path):
    """Make opening or closing the HDF5 file at the path fail. `late` failures come after the effect"""
    fired = []
    name = os.path.realpath(path)

    def fail():
        fired.append(what)
        raise make_fault('interrupt' if kind == 'interrupt' else 'oserror', f'{what}/{kind}')

    if what == 'open':
        orig = h5py.File.__init__

        def __init__(self, where, *args, **kwargs):
            mine = isinstance(where, (str, os.PathLike)) and os.path.realpath(where) == name and not fired
            if mine and kind != 'late':
                fail()
            orig(self, where, *args, **kwargs)
            if mine:
                h5py.File.close(self)
                fail()

        h5py.File.__init__ = __init__
        _uninstallers.append(lambda: setattr(h5py.File, '__init__', orig))
    else:
        orig = h5py.File.close
        leaked = []

        def close(self):
            mine = bool(self) and os.path.realpath(str(self.filename)) == name and not fired
            if mine and kind != 'late':
                leaked.append(self)
                fail()
            orig(self)
            if mine:
                fail()

        def undo():
            h5py.File.close = orig
            for f in leaked:
                orig(f)

        h5py.File.close = close
        _uninstallers.append(undo)
    return fired
