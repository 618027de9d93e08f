"""Reference model of a recording, and everything needed to drive and read a recorder"""
import json

import h5py
import numpy as np

from dst import worlds
from dst.core import Violation, require, sut

LEVELS = ['full', 'mean_cov', 'mean_var', 'mean', 'none']


# ----------------------------------------------------------------------------- steps to record
def gen_shape(rng):
    """Circuit and estimator which determine the size of what is recorded"""
    c = worlds.gen_circuit(rng, rich=False)
    return {'circuit': c, 'est': worlds.gen_estimator(rng, c)}


def build_shape(shape):
    return worlds.build_estimator(shape['circuit'], shape['est'])


class Step:
    """A step to be recorded. All values follow from its identifier"""

    def __init__(self, ident, cycle, ns, no, extreme=False):
        from moirae.estimators.online.filters.distributions import MultivariateGaussian
        self.ident, self.cycle = ident, cycle
        gen = np.random.default_rng([ident, ns, no])
        self.time = float(np.round(gen.uniform(-5, 1e6), 3)) if ident % 17 else float(ident // 17 % 3)

        def dist(n):
            scale = 10.0 ** gen.integers(-9, 9, size=n) if extreme else gen.uniform(0.1, 3, size=n)
            mean = gen.normal(size=n) * scale
            a = gen.normal(size=(n, n)) * np.sqrt(scale)[:, None]
            cov = a @ a.T
            return MultivariateGaussian(mean=mean, covariance=(cov + cov.T) / 2)

        self.state = dist(ns)
        self.output = dist(no)
        # Copies with which what is read is compared
        self.values = [x.copy() for d in (self.state, self.output) for x in (d.mean, d.covariance)]

    def expected(self, level):
        sm, sc, om, oc = self.values
        if level == 'mean_var':
            sc, oc = np.diag(np.diag(sc)), np.diag(np.diag(oc))
        elif level == 'mean':
            sc, oc = np.zeros_like(sc), np.zeros_like(oc)
        return [np.array([self.time]), sm, sc, om, oc]

    def equals(self, record, level):
        return all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(record, self.expected(level)))

    def unchanged(self):
        now = [x for d in (self.state, self.output) for x in (d.mean, d.covariance)]
        return all(np.array_equal(x, y) for x, y in zip(now, self.values))


def unpack(record):
    time, state, output = record
    return [np.array([float(np.ravel(time)[0])])] + [np.array(x) for d in (state, output)
                                                    for x in (d.get_mean(), d.get_covariance())]


def describe(record):
    return f'time {record[0][0]!r} state {np.array2string(record[1], precision=6)}'


# ----------------------------------------------------------------------------- reading
def read_all(source, per_timestep, what='read', limit=100000):
    """All records of a stream, as arrays"""
    from moirae.interface.hdf5 import read_state_estimates
    out = []
    with sut(what):
        for record in read_state_estimates(source, **({} if per_timestep else {'per_timestep': False})):
            out.append(unpack(record))
            if len(out) > limit:
                raise Violation('endless-stream', 'the reader does not end')
    return out


class Recording:
    """What has to be readable from a recording: the steps acknowledged, and what may follow them"""

    def __init__(self, per_timestep, per_cycle):
        self.levels = (per_timestep, per_cycle)
        self.acked = []
        self.tail = []  # Steps which failed to be stored since the last one accepted
        self.first = {}  # First accepted step of each cycle
        self.failed = {}  # Steps of each cycle which failed to be stored before one was accepted

    def accept(self, step):
        self.acked.append(step)
        self.tail = []
        self.first.setdefault(step.cycle, step)

    def fail(self, step):
        self.tail.append(step)
        if step.cycle not in self.first:
            self.failed.setdefault(step.cycle, []).append(step)

    # -- checks
    def check(self, source, when=''):
        if self.levels[0] != 'none':
            self.check_steps(read_all(source, True), when)
        if self.levels[1] != 'none':
            self.check_cycles(read_all(source, False), when)

    def check_steps(self, records, when=''):
        level = self.levels[0]
        n = len(self.acked)
        for i, (r, s) in enumerate(zip(records, self.acked)):
            require(s.equals(r, level), 'wrong-step-record',
                    lambda: f'{when}: record {i} of {n} is {describe(r)} rather than {describe(s.expected(level))}')
        require(len(records) >= n, 'lost-step', lambda: f'{when}: {len(records)} records of {n} accepted steps')
        extra = records[n:]
        require(len(extra) <= (1 if self.tail else 0), 'extra-step',
                lambda: f'{when}: {len(records)} records of {n} accepted steps, last: {describe(extra[-1])}')
        for r in extra:
            require(any(s.equals(r, level) for s in self.tail), 'torn-step',
                    lambda: f'{when}: the record after the last accepted step, {describe(r)}, is none that was stored')

    def check_cycles(self, records, when=''):
        level = self.levels[1]
        pos = 0
        cycles = sorted(set(self.first) | set(self.failed))
        for c in cycles:
            options = list(self.failed.get(c, []))
            if c in self.first:
                options.append(self.first[c])
            found = pos < len(records) and any(s.equals(records[pos], level) for s in options)
            if found:
                pos += 1
            elif c in self.first:
                got = describe(records[pos]) if pos < len(records) else 'nothing'
                later = any(s.equals(r, level) for s in options for r in records)
                raise Violation('wrong-cycle-record' if not later else 'cycle-order',
                                f'{when}: expected the first step of cycle {c}, '
                                f'{describe(self.first[c].expected(level))}, but read {got}')
        require(pos == len(records), 'extra-cycle',
                lambda: f'{when}: {len(records) - pos} records beyond the {len(self.first)} cycles: '
                        f'{describe(records[pos])}')


# ----------------------------------------------------------------------------- configuration
def gen_options(rng, cycles_needed, steps_needed, allow_none=True):
    o = {'per_timestep': rng.pick(LEVELS), 'per_cycle': rng.pick(LEVELS), 'resizable': rng.chance(0.75)}
    if o['per_timestep'] == o['per_cycle'] == 'none' or not allow_none:
        o['per_timestep'] = rng.pick(LEVELS[:-1])
    o['dataset_options'] = rng.weighted([(None, 4), ({}, 2), ({'compression': 'gzip'}, 1),
                                         ({'compression': 'gzip', 'shuffle': True}, 1), ({'fletcher32': True}, 1),
                                         ({'chunks': True}, 1)])
    exact_s, exact_c = steps_needed, max(cycles_needed, 1)
    if o['resizable']:
        o['steps'] = rng.weighted([(None, 4), (max(exact_s, 1), 2), (exact_s + rng.randrange(1, 300), 2)])
        o['cycles'] = rng.weighted([(None, 4), (exact_c, 2), (exact_c + rng.randrange(1, 30), 1)])
    else:
        o['steps'] = max(exact_s, 1) + rng.pick([0, 0, 1, 20])
        o['cycles'] = exact_c + rng.pick([0, 0, 1, 5])
    return o


def make_writer(target, o, cls=None, **kw):
    from moirae.interface.hdf5 import HDF5Writer
    default = {'per_timestep': 'mean', 'per_cycle': 'full', 'resizable': True}
    args = {k: o[k] for k, v in default.items() if o[k] != v}
    if o['dataset_options'] is not None:
        args['dataset_options'] = dict(o['dataset_options'])
    if o.get('key'):
        args['storage_key'] = o['key']
    return (cls or HDF5Writer)(hdf5_output=target, **args, **kw)


def memory_file():
    """An HDF5 file which is kept in memory"""
    import itertools
    return h5py.File(f'mem-{next(_names)}', 'w', driver='core', backing_store=False)


def _counter():
    i = 0
    while True:
        yield i
        i += 1


_names = _counter()


def snapshot(obj):
    """Everything stored below a group: names, attributes, types, shapes and contents"""
    out = {}

    def value(x):
        x = np.asarray(x)
        if x.dtype == object:
            return ('o', x.shape, tuple(str(v) for v in x.ravel()))
        return (x.dtype.str, x.shape, x.tobytes())

    def add(name, o):
        attrs = tuple((k, value(v)) for k, v in sorted(o.attrs.items()))
        if isinstance(o, h5py.Dataset):
            out[name] = ('d', attrs, o.maxshape, value(o[()]))
        else:
            out[name] = ('g', attrs)

    add('/', obj)

    def walk(prefix, group):
        for k in sorted(group.keys()):
            link = group.get(k, getlink=True)
            if isinstance(link, h5py.SoftLink):
                out[prefix + k] = ('l', link.path)
                continue
            add(prefix + k, group[k])
            if isinstance(group[k], h5py.Group):
                walk(prefix + k + '/', group[k])

    walk('', obj)
    return out


def gen_cycles(rng, n):
    """Cycle numbers of successive steps"""
    kind = rng.weighted([('steady', 4), ('gaps', 3), ('jumps', 1.5), ('revisit', 2), ('one', 1), ('each', 1)])
    c = rng.weighted([(0, 5), (1, 2), (rng.randrange(2, 40), 1)])
    out, seen = [], []
    for _ in range(n):
        out.append(c)
        if kind == 'steady' and rng.chance(0.2):
            c += 1
        elif kind == 'each':
            c += 1
        elif kind == 'gaps' and rng.chance(0.25):
            c += rng.randrange(1, 6)
        elif kind == 'jumps' and rng.chance(0.2):
            c += rng.pick([1, 2, 60, 127, 128, 129, 300])
        elif kind == 'revisit' and rng.chance(0.4):
            seen.append(c)
            late = [x for x in range(max(seen)) if x not in seen]  # Cycles which were skipped may still follow
            c = rng.pick(late) if late and rng.chance(0.35) else rng.pick(seen) if rng.chance(0.5) else \
                max(seen) + rng.randrange(1, 4)
    return out
