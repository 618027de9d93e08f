import gc
import os
import resource
import signal
from pathlib import Path

import h5py
import numpy as np

from dst import recorder, seams, worlds
from dst.core import Property, Violation, is_injected, require, sut


class Expected(recorder.Step):
    """What an uninterrupted run records for a step"""

    def __init__(self, ident, time, cycle, state, output):
        self.ident, self.time, self.cycle = ident, float(time), int(cycle)
        self.values = [*worlds.dist_arrays(state), *worlds.dist_arrays(output)]

    def equals(self, record, level):
        return all(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True)
                   for x, y in zip(record, self.expected(level)))


def reference_steps(plan):
    """Step a fresh estimator by hand through the data"""
    est = worlds.build_estimator(plan['circuit'], plan['est'], sim_model=plan['sim'], **first_row(plan))
    out = []
    for i, r in enumerate(plan['rows']):
        t = r[2] if np.isfinite(r[2]) else 25.
        state, output = est.step(worlds.make_input(r[0], r[1], t), worlds.make_meas(r[3]))
        out.append(Expected(i, r[0], plan['cycles'][i] if plan['cycles'] else 0, state, output))
    return out


def first_row(plan):
    r = plan['rows'][0]
    return {'first': (r[0], r[1], r[2] if np.isfinite(r[2]) else 25.)}


class PROPERTY(Property):
    id = 'C03'
    level = 'exploration'
    technique = 'errors and interrupts at random points of recorded runs, up to the disk and the closing of the file'
    note = ('Real driver, estimators, recorder and HDF5 files; a failure at one point per run, over all layers. '
            'After a failure reported by the disk itself only the reporting is checked, as HDF5 promises no more.')
    rule = ('A run is one recorded estimation which is interrupted at one point (source, model, storage, opening, closing '
            'or disk), compared with the uninterrupted run, after which the recorder is used again.')
    sim_measure = 'distinct (layer and kind of the failure, output and source type, progress when it hit) reached'
    components = {'real': ['run_online_estimate', 'JointEstimator/DualEstimator', 'HDF5Writer', 'read_state_estimates',
                           'battdat streaming', 'HDF5 files on a RAM disk', 'write errors of the kernel (file size limit)'],
                  'stub': ['cell (simulated)', 'points of failure (model subclasses, h5py operations, corrupt records)']}
    assumptions = ['The process survives; losing the process while a file is open is outside the promises of HDF5']
    expected_probes = ['model', 'source', 'storage', 'close', 'disk-write', 'not-hit', 'reused', 'before-first-step']
    quick_runs = 1200
    thorough_runs = 20000
    max_shrink_s = 45

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng, rich=False, max_rc=1)
        e = worlds.gen_estimator(rng, c, rare=0.2)
        n = rng.randrange(1, 14 if tier == 'quick' else 40)
        drive = worlds.gen_drive(rng, n, qt=c['qt'])
        rows, _ = worlds.simulate_rows(c, drive, noise=e['sensor'], noise_seed=rng.randrange(10 ** 6))
        rows = worlds.deliver(rows, worlds.gen_link(rng, n)) if rng.chance(0.5) else rows
        n = len(rows)
        cycles = None
        if rng.chance(0.75):
            cycles = recorder.gen_cycles(rng, n)
        o = {'per_timestep': rng.pick(recorder.LEVELS), 'per_cycle': rng.pick(recorder.LEVELS), 'resizable': True,
             'dataset_options': rng.pick([None, {}])}
        if o['per_timestep'] == 'none':
            o['per_timestep'] = rng.pick(recorder.LEVELS)
        where = rng.weighted([('model', 3), ('source', 2), ('storage', 4), ('open', 0.6), ('close', 1.2), ('disk', 0.8)])
        kind = rng.pick(['error', 'interrupt', 'oserror', 'memory', 'value'])
        f = {'where': where, 'kind': kind}
        if where == 'model':
            f['call'] = rng.randrange(0, 7 * n + 3)
        elif where == 'source':
            f['row'] = rng.randrange(0, n)
        elif where == 'storage':
            f['n'] = rng.randrange(0, 30) if rng.chance(0.3) else rng.randrange(10, 30 + 9 * n)
            f['kind'] = rng.pick(['fail', 'late', 'torn', 'interrupt', 'late-interrupt'])
        elif where in ('close', 'open'):
            f['kind'] = rng.pick(['fail', 'late', 'interrupt'])
        elif where == 'disk':
            f['limit'] = rng.randrange(0, 45000)
        sim = where == 'model' or rng.chance(0.3)
        return {'circuit': c, 'est': e, 'sim': sim, 'rows': rows, 'cycles': cycles, 'options': o, 'fault': f,
                'source': 'memory' if where == 'model' or rng.chance(0.6) else 'file',
                'output': rng.weighted([('path', 3), ('str', 1), ('group', 2), ('writer-path', 3), ('writer-group', 2)]),
                'states': rng.chance(0.5)}

    def simplify(self, plan):
        if len(plan['rows']) > 1:
            for k in (len(plan['rows']) // 2, len(plan['rows']) - 1):
                yield {**plan, 'rows': plan['rows'][:k], 'cycles': plan['cycles'] and plan['cycles'][:k]}
        if plan['cycles'] is not None:
            yield {**plan, 'cycles': None}
        for k in ('call', 'n', 'row', 'limit'):
            v = plan['fault'].get(k)
            if v:
                for w in (v // 2, v - 1):
                    yield {**plan, 'fault': {**plan['fault'], k: w}}
        if plan['source'] == 'file':
            yield {**plan, 'source': 'memory'}

    # -- pieces
    def _dataset(self, plan, ctx):
        data = worlds.dataset(plan['rows'], plan['cycles'])
        f = plan['fault']
        if plan['source'] == 'file':
            src = ctx.path('source.h5')
            data.to_hdf(src)
            return src
        if f['where'] == 'source' and f['row'] < len(plan['rows']):
            col = data.raw_data['voltage'].astype(object)
            col.iloc[f['row']] = seams.Corrupt(f['kind'], f'row {f["row"]} of the source')
            data.raw_data['voltage'] = col
        return data

    def execute(self, plan, ctx):
        from moirae.interface import run_online_estimate
        f, o = plan['fault'], plan['options']
        seams.CALLS.reset()
        with sut('reference'):
            expected = reference_steps(plan)
        if f['where'] == 'disk':
            return self._disk(plan, ctx, expected)
        with sut('build'):
            est = worlds.build_estimator(plan['circuit'], plan['est'], sim_model=plan['sim'], **first_row(plan))
        data = self._dataset(plan, ctx)
        path = ctx.path('out.h5')
        root = recorder.memory_file() if 'group' in plan['output'] else None
        levels = (o['per_timestep'], o['per_cycle'])
        target, writer = self._target(plan, path, root)
        if not plan['output'].startswith('writer'):
            levels = ('mean', 'full')

        # Count the steps which were completed
        done = []
        real_step = est.step

        def step(*args, **kwargs):
            out = real_step(*args, **kwargs)
            done.append(1)
            return out

        est.step = step
        storage = seams.Storage()
        hit = lambda: None  # noqa: E731
        if f['where'] == 'model':
            seams.CALLS.arm(f['call'], f['kind'], 'after' if f['call'] % 5 == 0 else 'before')
            hit = lambda: seams.CALLS.fired  # noqa: E731
        elif f['where'] == 'source':
            if plan['source'] == 'file':
                fired = seams.break_table(f['row'], f['kind'])
                hit = lambda: fired or None  # noqa: E731
            else:
                hit = lambda: f['row'] < len(plan['rows']) or None  # noqa: E731
        elif f['where'] == 'storage':
            storage.install()
            storage.arm(f['n'], f['kind'])
            hit = lambda: storage.fired  # noqa: E731
        elif f['where'] in ('close', 'open'):
            fired = seams.break_file(f['where'], f['kind'], path)
            hit = lambda: fired or None  # noqa: E731

        error = None
        try:
            result = run_online_estimate(data, est, hdf5_output=target, output_states=plan['states'])
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt) and not is_injected(e):
                raise
            error = e
        fault = hit()
        storage.disarm()
        seams.CALLS.disarm()
        n = len(done)
        if fault is not None:
            ctx.faults[f'{f["where"]}-{f["kind"]}'] += 1
            ctx.probes[f['where']] += 1
            if n == 0:
                ctx.probes['before-first-step'] += 1
        else:
            ctx.probes['not-hit'] += 1
        ctx.steps += n
        ctx.sim_time += plan['rows'][min(n, len(plan['rows'])) - 1][0] if n else 0.0
        ctx.nontrivial = fault is not None
        ctx.sig(f['where'], f['kind'], str(fault)[:40] if f['where'] != 'model' else fault and fault[0], plan['output'],
                plan['source'], min(n, 3), error is None)

        if fault is None:
            if error is not None:
                raise Violation(f'unexpected-error/run/{type(error).__name__}', f'{error} without a fault')
            require(n == len(expected), 'steps', f'{n} steps for {len(expected)} records')
        elif error is None:
            # The failure was coped with: then everything has to be there
            ctx.probes['absorbed'] += 1
            require(n == len(expected), 'unreported', lambda: f'the run succeeded after {n} of {len(expected)} records '
                                                              f'despite {fault}')
        else:
            require(is_injected(error), 'cause-lost', lambda: f'the caller got {type(error).__name__}: {error}')
        complete = error is None

        # The file is closed, and holds what was completed (while the exception is still being handled)
        lo = hi = n
        if not complete and f['where'] in ('storage',):
            lo = max(n - 1, 0)
        if f['where'] == 'close' and fault and f['kind'] != 'late' and not complete and root is None:
            ctx.log('not closed', n)
        elif root is not None:
            require(bool(root), 'closed-foreign-file', 'the group of the caller was closed')
            self._content(root['state_estimates'] if 'state_estimates' in root else None, levels, expected, lo, hi,
                          complete, ctx)
        elif os.path.exists(path):
            try:
                again = h5py.File(path, 'r+')
            except Exception as e:
                raise Violation('not-released', f'the file cannot be opened after {type(error).__name__}: {e}')
            try:
                self._content(again.get('state_estimates'), levels, expected, lo, hi, complete, ctx)
            finally:
                again.close()
            if lo > 0:
                self._content(path, levels, expected, lo, hi, complete, ctx)
        else:
            require(n == 0, 'no-file', f'{n} steps were completed but there is no file')
        ctx.log(n, complete, str(fault)[:60])
        seams.uninstall_all()

        # The recorder works again, for another file
        if writer is not None and (root is not None or f['where'] != 'close' or complete or f['kind'] == 'late'):
            require(not writer.is_ready, 'still-ready', 'the recorder is still ready to write after the run')
            self._reuse(plan, ctx, writer, expected, levels)
        if root is not None and root:
            root.close()
        del error

    def _target(self, plan, path, root):
        out = plan['output']
        if out == 'path':
            return Path(path), None
        if out == 'str':
            return path, None
        if out == 'group':
            return root, None
        with sut('construct'):
            w = recorder.make_writer(root if out == 'writer-group' else path, plan['options'])
        return w, w

    def _content(self, source, levels, expected, lo, hi, complete, ctx):
        if source is None or isinstance(source, h5py.Group) and 'write_settings' not in source.attrs:
            require(hi == 0, 'nothing-recorded', f'{hi} steps were completed but nothing was recorded')
            return
        if hi == 0 and not complete:
            try:  # Preparation may have failed: there is nothing, or nothing readable
                records = recorder.read_all(source, True) if levels[0] != 'none' else []
            except Violation:
                return
            require(not records, 'invented', 'records without any step')
            return
        model = recorder.Recording(*levels)
        for s in expected[:lo]:
            model.accept(s)
        for s in expected[lo:hi]:
            model.fail(s)
        model.check(source, f'{hi} steps completed')
        ctx.probes['content-checked'] += 1

    def _reuse(self, plan, ctx, writer, expected, levels):
        from moirae.interface import run_online_estimate
        other = ctx.path('other.h5')
        with sut('reuse'):
            writer.hdf5_output = other
            est = worlds.build_estimator(plan['circuit'], plan['est'], sim_model=plan['sim'], **first_row(plan))
            run_online_estimate(worlds.dataset(plan['rows'], plan['cycles']), est, hdf5_output=writer,
                                output_states=False)
        model = recorder.Recording(*levels)
        for s in expected:
            model.accept(s)
        model.check(other, 'recorder used again')
        ctx.probes['reused'] += 1

    def _disk(self, plan, ctx, expected):
        """The disk is full: the kernel refuses to write beyond a size. Done in a child, as HDF5 cannot recover"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = b'?'
            try:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
                os.dup2(null, 1)
                code = self._disk_child(plan, ctx, expected)
            except BaseException:
                code = b'?'
            finally:
                os.write(w, code)
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as pipe:
            code = pipe.read()
        os.waitpid(pid, 0)
        ctx.log('disk', plan['fault']['limit'], code.decode())
        ctx.sig('disk', code.decode(), plan['output'])
        ctx.nontrivial = code != b'f'
        require(code != b'L', 'unreported-disk-error',
                f'the run reported success although the disk was full at {plan["fault"]["limit"]} bytes')
        if code != b'f':
            ctx.faults['disk-write'] += 1
        ctx.probes['disk-write' if code != b'f' else 'not-hit'] += 1

    def _disk_child(self, plan, ctx, expected):
        from moirae.interface import run_online_estimate
        gc.enable()
        est = worlds.build_estimator(plan['circuit'], plan['est'], sim_model=plan['sim'], **first_row(plan))
        data = worlds.dataset(plan['rows'], plan['cycles'])
        path = ctx.path('out.h5')
        plan = {**plan, 'output': plan['output'].replace('group', 'path')}
        target, writer = self._target(plan, path, None)
        levels = (plan['options']['per_timestep'], plan['options']['per_cycle']) if writer else ('mean', 'full')
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
        resource.setrlimit(resource.RLIMIT_FSIZE, (plan['fault']['limit'], hard))
        try:
            run_online_estimate(data, est, hdf5_output=target, output_states=plan['states'])
        except BaseException:
            return b'e'
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
        model = recorder.Recording(*levels)
        for s in expected:
            model.accept(s)
        try:
            model.check(path)
        except BaseException:
            return b'L'
        return b'f'
