import gc
import hashlib
import os

import h5py
import numpy as np

from dst import recorder, seams
from dst.core import Property, Violation, is_injected, require, sut


class Reader:
    """A reader in progress, and what it may yield"""

    def __init__(self, gen, per_timestep, start):
        self.gen, self.per_timestep = gen, per_timestep
        self.start = start  # Number of records accepted when it began, or None if not begun
        self.records = []
        self.done = False


class PROPERTY(Property):
    id = 'C05'
    level = 'exploration'
    technique = 'random interleavings of one writer and several readers, with faults in what is read'
    note = ('Interleavings at the granularity of appends and records; readers fail, are abandoned, or get missing and '
            'damaged files. Not exhaustive; readers in other processes are outside the promises of HDF5.')
    rule = ('A run is an interleaving of appends with the progress of several readers, or a set of readers pointed at '
            'missing, damaged or failing files, which are checked to be released and unchanged.')
    sim_measure = 'distinct (order of starts, progress and ends of readers relative to appends) reached'
    components = {'real': ['read_state_estimates', 'HDF5Writer', 'h5py/HDF5'],
                  'stub': ['values recorded (synthetic distributions)', 'scheduler of readers and writer',
                           'failures (h5py reads, damaged files)']}
    expected_probes = ['overtaken', 'abandoned', 'exhausted', 'read-fault', 'wrong-type', 'not-recorded', 'missing',
                       'damaged', 'no-estimates', 'several-readers', 'collected']
    quick_runs = 600
    thorough_runs = 40000

    def generate(self, rng, tier, index):
        shape = recorder.gen_shape(rng)
        mode = rng.weighted([('live', 3), ('files', 2)])
        n = rng.randrange(1, 30) if rng.chance(0.9) else rng.randrange(100, 160)
        cycles = recorder.gen_cycles(rng, n)
        o = recorder.gen_options(rng, max(cycles) + 1, n)
        ops, k = [], 0
        appended = 0
        while appended < n or rng.chance(0.8):
            x = rng.random()
            if appended < n and x < 0.45:
                ops.append(['append', cycles[appended]])
                appended += 1
            elif x < 0.6:
                ops.append(['open', rng.chance(0.5)])
                k += 1
            elif k and x < 0.9:
                ops.append(['next', rng.randrange(k), rng.pick([1, 1, 2, 5])])
            elif k and x < 0.94:
                ops.append(['close', rng.randrange(k), rng.chance(0.5)])
            elif k:
                ops.append(['drain', rng.randrange(k)])
        files = []
        for _ in range(rng.randrange(2, 6)):
            files.append({'kind': rng.pick(['abandon', 'abandon', 'read-fault', 'read-fault', 'wrong-type', 'missing',
                                            'damaged', 'no-estimates', 'not-recorded', 'no-stream', 'unstarted',
                                            'not-hdf5', 'collected']),
                          'stream': rng.chance(0.6), 'n': rng.randrange(0, 25), 'text': rng.chance(0.5),
                          'fault': rng.pick(['oserror', 'interrupt', 'memory', 'value'])})
        return {'shape': shape, 'mode': mode, 'options': o, 'ops': ops, 'inputs': files, 'base': rng.randrange(10 ** 6)}

    def execute(self, plan, ctx):
        with sut('build'):
            est = recorder.build_shape(plan['shape'])
        if plan['mode'] == 'live':
            self._live(plan, ctx, est)
        else:
            self._files(plan, ctx, est)

    # -- readers while recording
    def _live(self, plan, ctx, est):
        from moirae.interface.hdf5 import read_state_estimates
        o = plan['options']
        ns, no = est.num_state_dimensions, est.num_output_dimensions
        root = recorder.memory_file()
        try:
            model = recorder.Recording(o['per_timestep'], o['per_cycle'])
            with sut('session'):
                w = recorder.make_writer(root, o)
                w.__enter__()
                w.prepare(est, expected_steps=o['steps'], expected_cycles=o['cycles'])
            group = root['state_estimates']
            readers = []
            trace = []
            for i, op in enumerate(plan['ops']):
                if op[0] == 'append':
                    step = recorder.Step(plan['base'] + i, op[1], ns, no)
                    with sut('append'):
                        w.append_step(step.time, step.cycle, step.state, step.output)
                    model.accept(step)
                    ctx.steps += 1
                elif op[0] == 'open':
                    if o['per_timestep' if op[1] else 'per_cycle'] == 'none':
                        readers.append(None)
                        continue
                    with sut('open'):
                        readers.append(Reader(read_state_estimates(group, per_timestep=op[1]), op[1], None))
                    if sum(r is not None and not r.done for r in readers) > 1:
                        ctx.probes['several-readers'] += 1
                elif op[1] < len(readers) and readers[op[1]] is not None:
                    r = readers[op[1]]
                    if op[0] == 'close':
                        if op[2]:
                            r.gen.close()
                        else:
                            readers[op[1]] = None
                            r = None
                            gc.collect(0)
                        ctx.probes['abandoned'] += 1
                        if r is not None:
                            r.done = True
                    else:
                        self._advance(r, op[2] if op[0] == 'next' else 10 ** 6, model, ctx, i)
                trace.append(op[0][0] + str(op[1] if op[0] in ('next', 'close', 'drain') else ''))
                if len(trace) <= 12:
                    ctx.sig(trace)
            for r in readers:
                if r is not None:
                    self._advance(r, 10 ** 6, model, ctx, 'end')
            model.check(group, 'after all readers')
            with sut('exit'):
                w.__exit__(None, None, None)
            model.check(group, 'after the session')
            ctx.log(len(model.acked), [len(r.records) if r else None for r in readers])
            ctx.nontrivial = any(r is not None and r.records for r in readers)
            ctx.sim_time += len(model.acked)
        finally:
            root.close()

    def _advance(self, r, count, model, ctx, i):
        if r.done:
            return
        level = model.levels[0 if r.per_timestep else 1]
        if r.start is None:
            r.start = len(model.acked) if r.per_timestep else set(model.first)
        for _ in range(count):
            try:
                with sut('next'):
                    record = next(r.gen, None)
            except Violation:
                r.done = True
                raise
            if record is None:
                r.done = True
                ctx.probes['exhausted'] += 1
                if r.per_timestep:
                    require(len(r.records) >= r.start, 'reader-lost',
                            lambda: f'operation {i}: a reader ended after {len(r.records)} of the {r.start} steps there '
                                    'were when it started')
                else:
                    missing = set(r.start) - set(r.records)
                    require(not missing, 'reader-lost', lambda: f'operation {i}: a reader missed cycles {sorted(missing)}')
                return
            arrays = recorder.unpack(record)
            if r.per_timestep:
                k = len(r.records)
                require(k < len(model.acked), 'reader-ahead',
                        lambda: f'operation {i}: a reader yields {recorder.describe(arrays)} after all {k} steps')
                require(model.acked[k].equals(arrays, level), 'reader-wrong',
                        lambda: f'operation {i}: a reader yields {recorder.describe(arrays)} as step {k}')
                r.records.append(k)
                if k >= r.start:
                    ctx.probes['overtaken'] += 1
            else:
                found = [c for c, s in model.first.items() if s.equals(arrays, level)]
                require(len(found) == 1, 'reader-wrong',
                        lambda: f'operation {i}: a reader yields {recorder.describe(arrays)}, which was not recorded')
                require(not r.records or found[0] > r.records[-1], 'reader-order',
                        lambda: f'operation {i}: a reader yields cycle {found[0]} after {r.records[-1]}')
                r.records.append(found[0])
                if found[0] not in r.start:
                    ctx.probes['overtaken'] += 1

    # -- readers of files
    def _files(self, plan, ctx, est):
        from moirae.interface.hdf5 import read_state_estimates
        from moirae.estimators.online.filters.distributions import DeltaDistribution
        from pathlib import Path
        o = plan['options']
        ns, no = est.num_state_dimensions, est.num_output_dimensions
        path = ctx.path('rec.h5')
        model = recorder.Recording(o['per_timestep'], o['per_cycle'])
        with sut('record'), recorder.make_writer(path, o) as w:
            w.prepare(est, expected_steps=o['steps'], expected_cycles=o['cycles'])
            for i, op in enumerate([op for op in plan['ops'] if op[0] == 'append'][:12]):
                step = recorder.Step(plan['base'] + i, op[1], ns, no)
                w.append_step(step.time, step.cycle, step.state, step.output)
                model.accept(step)
                ctx.steps += 1
        empty = ctx.path('empty.h5')
        with h5py.File(empty, 'w') as f:
            f['x'] = 1
        damaged = ctx.path('damaged.h5')
        raw = open(path, 'rb').read()
        with open(damaged, 'wb') as f:
            f.write(raw[:len(raw) // 2])
        text = ctx.path('text.h5')
        with open(text, 'w') as f:
            f.write('time,voltage\n1,2\n')
        gutted = ctx.path('gutted.h5')
        with open(gutted, 'wb') as f:
            f.write(raw)
        with h5py.File(gutted, 'r+') as f:
            del f['state_estimates'].attrs['write_settings']
        storage = seams.Storage()
        storage.install(reads=True)
        for i, q in enumerate(plan['inputs']):
            kind = q['kind']
            stream = q['stream']
            level = model.levels[0 if stream else 1]
            target = {'missing': ctx.path('none.h5'), 'damaged': damaged, 'no-estimates': empty, 'not-hdf5': text,
                      'no-stream': gutted}.get(kind, path)
            before = _digest(target)
            kw = {}
            if kind == 'wrong-type':
                kw['dist_type'] = DeltaDistribution
            if kind == 'not-recorded':
                stream = model.levels[0] == 'none'
                level = model.levels[0 if stream else 1]
            storage.disarm()
            storage.fired = None
            if kind == 'read-fault':
                storage.arm(q['n'], q['fault'])
            error, records, gen = None, [], None
            stop = q['n'] % (len(model.acked) + 1) if kind in ('abandon', 'collected') else 10 ** 6
            try:
                gen = read_state_estimates(target if q['text'] else Path(target), per_timestep=stream, **kw)
                if kind != 'unstarted':
                    for record in gen:
                        records.append(recorder.unpack(record))
                        if len(records) >= stop:
                            break
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt) and not is_injected(e):
                    raise
                error = e
            storage.disarm()
            if kind == 'collected':
                gen = None
                gc.collect(0)
            elif gen is not None:
                gen.close()
            ctx.probes['abandoned' if kind == 'abandon' else kind] += 1
            # What was read is what was recorded
            should_fail = kind in ('missing', 'damaged', 'no-estimates', 'not-hdf5', 'no-stream') or level == 'none' \
                or (kind == 'wrong-type' and level == 'full')
            if kind == 'unstarted':
                should_fail = False
            if should_fail:
                require(error is not None, 'wrong-data',
                        lambda: f'reading {kind} (stream stored as {level}) gave {len(records)} records, no error')
                require(not records, 'wrong-data', lambda: f'reading {kind} gave {len(records)} records')
            elif kind == 'read-fault' and storage.fired is not None:
                ctx.faults[f'{storage.fired[0]}-{q["fault"]}'] += 1
                if error is not None:
                    require(is_injected(error), 'cause-lost', lambda: f'{type(error).__name__}: {error}')
                self._prefix(model, stream, level, records, kind, complete=error is None)
            else:
                require(error is None, f'unexpected-error/read/{type(error).__name__}', lambda: f'{kind}: {error}')
                self._prefix(model, stream, level, records, kind,
                             complete=kind not in ('abandon', 'unstarted', 'collected'))
            # The file is released and unchanged (while the exception is alive)
            if os.path.exists(target):
                require(_digest(target) == before, 'changed-by-reader', f'reading ({kind}) changed the file')
            else:
                require(kind == 'missing', 'removed', 'the file is gone')
            if kind == 'missing':
                require(not os.path.exists(target), 'created-by-reader', 'reading a missing file created it')
            if target in (path, empty, gutted):
                try:
                    h5py.File(target, 'r+').close()
                except Exception as e:
                    raise Violation('not-released', f'{kind} (records read: {len(records)}, {error!r}): {e}')
                if _digest(target) != before:
                    with open(target, 'rb') as f:  # Opening for writing may touch the header
                        raw_now = f.read()
                    if target == path:
                        raw = raw_now
            ctx.sig(kind, stream, level, q['text'], min(len(records), 3), type(error).__name__)
            ctx.log(kind, len(records), error is None)
            error = None
        storage.disarm()
        seams.uninstall_all()
        model.check(path, 'after all readers')
        ctx.sim_time += len(model.acked)

    @staticmethod
    def _prefix(model, stream, level, records, kind, complete):
        steps = model.acked if stream else [model.first[c] for c in sorted(model.first)]
        require(len(records) <= len(steps), 'reader-ahead', f'{kind}: more records than were stored')
        for k, (r, s) in enumerate(zip(records, steps)):
            require(s.equals(r, level), 'reader-wrong', lambda: f'{kind}: record {k} is {recorder.describe(r)}')
        require(not complete or len(records) == len(steps), 'reader-lost',
                lambda: f'{kind}: {len(records)} of {len(steps)} records')


def _digest(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()
