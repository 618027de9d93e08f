import os

import h5py
import numpy as np

from dst import recorder, seams, worlds
from dst.core import Property, Violation, is_injected, require, sut

KEYS = ['state_estimates', 'state_estimates', 'second', 'deep/run']
PLACES = ['', '', 'cell-1', 'x/y']


class PROPERTY(Property):
    id = 'C04'
    level = 'exploration'
    technique = 'random sequences of recording sessions which are refused or fail, with snapshots of the whole file'
    note = ('Sequences of complete, refused, failing and misused sessions on one file; every object in the file is '
            'compared byte by byte. Not exhaustive; trusts h5py/HDF5.')
    rule = ('A run is a sequence of recording sessions over one file: complete, interrupted, refused, failing while being '
            'opened or prepared, misused, or given a damaged file, with a snapshot of the whole file before and after each.')
    sim_measure = 'distinct (fate of a session, what existed before, detail levels before and after) reached'
    components = {'real': ['HDF5Writer', 'run_online_estimate', 'read_state_estimates', 'estimators',
                           'HDF5 files on a RAM disk or in memory'],
                  'stub': ['values recorded (synthetic distributions)', 'failures (h5py operations, conversions)']}
    assumptions = ['A recording in which neither stream is stored does not count as existing',
                   'Groups prepared by a session that failed before storing data may be refused or used by the next']
    expected_probes = ['refused', 'complete', 'prepare-fault', 'estimator-fault', 'no-sizes', 'outside', 'bad-options',
                       'bad-key', 'interrupted', 'driver-refused', 'read-only', 'damaged', 'retry-after-failed-prepare']
    quick_runs = 900
    thorough_runs = 30000

    def generate(self, rng, tier, index):
        sessions = []
        for s in range(rng.randrange(2, 7 if tier == 'quick' else 12)):
            fate = rng.weighted([('complete', 6), ('interrupted', 2), ('prepare-fault', 3), ('estimator-fault', 1),
                                 ('no-sizes', 1), ('outside', 1), ('bad-options', 1), ('bad-key', 0.7), ('driver', 1.5),
                                 ('read-only', 0.7), ('damaged', 1)])
            n = rng.randrange(0, 6)
            cycles = recorder.gen_cycles(rng, n)
            o = recorder.gen_options(rng, (max(cycles) + 1) if cycles else 1, n)
            if fate == 'driver':
                o = {'per_timestep': 'mean', 'per_cycle': 'full'}
            sessions.append({'fate': fate, 'key': 'state_estimates' if fate == 'driver' else rng.pick(KEYS),
                             'place': '' if fate == 'driver' else rng.pick(PLACES), 'cycles': cycles, 'options': o,
                             'est': rng.randrange(2), 'n': rng.randrange(0, 40), 'base': rng.randrange(10 ** 6),
                             'kind': rng.pick(['fail', 'late', 'interrupt', 'late-interrupt']),
                             'open': rng.pick(['path', 'group'])})
        return {'shapes': [recorder.gen_shape(rng), recorder.gen_shape(rng)], 'ops': sessions,
                'rows': worlds.gen_drive(rng, 3)}

    def simplify(self, plan):
        for i, s in enumerate(plan['ops']):
            if len(s['cycles']) > 1:
                yield {**plan, 'ops': plan['ops'][:i] + [{**s, 'cycles': s['cycles'][:1]}] + plan['ops'][i + 1:]}
            if s['n'] > 0:
                yield {**plan, 'ops': plan['ops'][:i] + [{**s, 'n': s['n'] - 1}] + plan['ops'][i + 1:]}

    def execute(self, plan, ctx):
        path = ctx.path('file.h5')
        with sut('build'):
            ests = [worlds.build_estimator(s['circuit'], s['est'], sim_model=True) for s in plan['shapes']]
        with h5py.File(path, 'w') as f:
            f.attrs['owner'] = 'someone else'
            f['other/data'] = np.arange(6.).reshape(2, 3)
            f['other/data'].attrs['units'] = 'V'
            f['blocked'] = np.arange(3)
            for p in PLACES:
                if p:
                    f.require_group(p)
        existing = {}  # Full name -> (model, snapshot)
        dubious = set()
        for i, s in enumerate(plan['ops']):
            self._session(plan, ctx, path, ests, i, s, existing, dubious)
            ctx.steps += 1
            ctx.sim_time += len(s['cycles'])
        ctx.nontrivial = len(plan['ops']) > 1

    def _session(self, plan, ctx, path, ests, i, s, existing, dubious):
        name = (s['place'] + '/' if s['place'] else '') + s['key']
        o, fate = s['options'], s['fate']
        est = ests[s['est']]
        was_there = name in existing
        before = self._snap(path)
        if fate == 'bad-key':
            s = {**s, 'key': 'blocked', 'place': ''}
            name, was_there = 'blocked', False
        # -- the session
        error, model, hit = None, recorder.Recording(o['per_timestep'], o['per_cycle']), None
        file = None
        in_group = s['open'] == 'group' or s['place'] or fate == 'read-only'
        seams.CALLS.reset()
        try:
            if fate == 'driver':
                error = self._driver(plan, path, est, s, model)
            elif fate == 'outside':
                self._outside(path, est, s, ctx)
            elif fate == 'damaged':
                self._damaged(plan, path, est, s, ctx)
            else:
                if in_group:
                    file = h5py.File(path, 'r' if fate == 'read-only' else 'r+')
                target = (file[s['place']] if s['place'] else file) if in_group else path
                if fate == 'bad-options':
                    o = {**o, 'dataset_options': {'compression': 'no-such-compression'}}
                error, hit = self._recorder(target, o, s, est, model, fate)
        finally:
            if file is not None:
                require(bool(file), 'closed-foreign-file', 'the recorder closed the file of the caller')
                file.close()
        # -- what was allowed
        prepared = error is None and fate in ('complete', 'interrupted', 'driver', 'prepare-fault', 'estimator-fault',
                                              'bad-options', 'no-sizes', 'read-only', 'bad-key')
        if was_there and prepared and fate not in ('outside', 'damaged'):
            raise Violation('not-refused', f'session {i} ({fate}) over the existing {name} was not refused')
        if fate in ('complete', 'interrupted', 'driver') and error is not None and not was_there and name not in dubious:
            raise Violation(f'refused-wrongly/{type(error).__name__}', f'session {i} ({fate}) over {name}: {error}')
        if fate in ('bad-options', 'no-sizes', 'read-only', 'bad-key'):
            require(error is not None, 'not-refused', lambda: f'session {i} ({fate}) over {name} was not refused')
        if hit is not None:
            ctx.faults[f'{fate}-{hit}'] += 1
            if error is not None and not was_there:
                require(is_injected(error), 'cause-lost', lambda: f'{type(error).__name__}: {error}')
        key = 'refused' if was_there and error is not None else fate
        if fate == 'driver' and was_there:
            key = 'driver-refused'
        ctx.probes[key] += 1
        if name in dubious:
            ctx.probes['retry-after-failed-prepare'] += 1
        ctx.sig(fate, was_there, name in dubious, o['per_timestep'], o['per_cycle'],
                existing[name][0].levels if was_there else None, error is None)

        # -- what is there
        after = self._snap(path)
        mine = {k for k in set(before) | set(after) if k == name or k.startswith(name + '/')
                or name.startswith(k + '/')}
        if was_there or fate in ('outside', 'damaged', 'read-only', 'bad-key'):
            mine = set()
        for k in sorted(set(before) | set(after)):
            if k not in mine and before.get(k) != after.get(k):
                what = 'removed' if k not in after else 'added' if k not in before else 'changed'
                raise Violation(f'{what}-object', f'session {i} ({fate}, {"refused" if error else "accepted"}) on {name} '
                                                  f'{what} {k!r} in the file')
        for k in sorted(mine):  # Parents may only gain children
            if name.startswith(k + '/') and k in before:
                require(before[k] == after.get(k), 'changed-parent', lambda: f'session {i} on {name} changed {k!r}')
        if not was_there and error is None and fate in ('complete', 'interrupted', 'driver') \
                and model.levels != ('none', 'none'):
            existing[name] = (model, None)
            dubious.discard(name)
        elif not was_there and fate in ('prepare-fault', 'estimator-fault', 'bad-options', 'no-sizes'):
            if error is None:
                if model.levels != ('none', 'none'):
                    existing[name] = (model, None)  # The fault did not occur
                    dubious.discard(name)
            else:
                dubious.add(name)
        with h5py.File(path, 'r') as f:
            for n, (m, _) in existing.items():
                m.check(f[n], f'after session {i} ({fate} on {name}), recording {n}')
            if name in dubious and error is not None and name in f and o['per_timestep'] != 'none':
                try:
                    records = recorder.read_all(f[name], True)
                except Violation:
                    records = []
                require(not records, 'invented', f'{len(records)} records were read from a session that failed')
        ctx.log(i, fate, name, error is None, sorted(existing), sorted(after))

    @staticmethod
    def _snap(path):
        with h5py.File(path, 'r') as f:
            return recorder.snapshot(f)

    def _recorder(self, target, o, s, est, model, fate):
        storage = seams.Storage()
        hit = None
        ns, no = est.num_state_dimensions, est.num_output_dimensions
        try:
            with sut('construct'):
                w = recorder.make_writer(target, {**o, 'key': s['key']})
            if fate == 'no-sizes':
                w.resizable = False
            if fate == 'prepare-fault':
                storage.install()
                storage.arm(s['n'], s['kind'])
            if fate == 'estimator-fault':
                seams.CALLS.arm(s['n'] % 3, 'interrupt' if 'interrupt' in s['kind'] else 'error')
            with w:
                if fate == 'no-sizes':
                    w.prepare(est, **([{}, {'expected_steps': 4}, {'expected_cycles': 4}][s['n'] % 3]))
                else:
                    w.prepare(est, expected_steps=o.get('steps'), expected_cycles=o.get('cycles'))
                storage.disarm()
                seams.CALLS.disarm()
                n = len(s['cycles']) if fate != 'interrupted' else s['n'] % (len(s['cycles']) + 1)
                for k, c in enumerate(s['cycles'][:n]):
                    step = recorder.Step(s['base'] + k, c, ns, no)
                    with sut('append'):
                        w.append_step(step.time, c, step.state, step.output)
                    model.accept(step)
                if fate == 'interrupted':
                    raise seams.make_fault('interrupt', 'between steps')
        except Violation:
            raise
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt) and not is_injected(e):
                raise
            hit = storage.fired and storage.fired[0] or seams.CALLS.fired and seams.CALLS.fired[0]
            if fate == 'interrupted' and is_injected(e):
                return None, hit
            return e, hit
        finally:
            storage.disarm()
            seams.CALLS.reset()
            seams.uninstall_all()
        return None, storage.fired and storage.fired[0]

    def _driver(self, plan, path, est, s, model):
        from moirae.interface import run_online_estimate
        from dst.props.c03 import Expected
        rows = [[*r[:3], 3.6] for r in plan['rows']]
        twin_plan = {'rows': rows}
        shape = plan['shapes'][s['est']]
        twin = worlds.build_estimator(shape['circuit'], shape['est'], sim_model=True)
        mine = worlds.build_estimator(shape['circuit'], shape['est'], sim_model=True)
        try:
            run_online_estimate(worlds.dataset(rows), mine, hdf5_output=path, output_states=False)
        except Exception as e:
            return e
        twin._u = None
        with sut('twin'):
            for k, r in enumerate(twin_plan['rows']):
                state, output = twin.step(worlds.make_input(*r[:3]), worlds.make_meas(r[3]))
                model.accept(Expected(k, r[0], 0, state, output))
        return None

    def _damaged(self, plan, path, est, s, ctx):
        """Record to a path holding something which is not (or no longer) an HDF5 file, which may not be replaced"""
        other = ctx.path(f'damaged-{s["base"]}.h5')
        with open(path, 'rb') as f:
            data = f.read()
        kind = ['text', 'zeros', 'truncated', 'header', 'directory'][s['base'] % 5]
        if kind == 'directory':
            os.mkdir(other)
        else:
            data = {'text': b'time,voltage\n0.0,3.5\n' * (1 + s['n']), 'zeros': bytes(10 + 100 * s['n']),
                    'truncated': data[:len(data) * (1 + s['n'] % 9) // 10], 'header': b'\x00' * 8 + data[8:]}[kind]
            with open(other, 'wb') as f:
                f.write(data)
        ctx.faults[f'file-{kind}'] += 1
        if s['n'] % 2:
            error = self._driver(plan, other, est, s, recorder.Recording('mean', 'full'))
        else:
            error, _ = self._recorder(other, s['options'], s, est, recorder.Recording('mean', 'full'), 'complete')
        require(error is not None, 'not-refused', lambda: f'a file which is damaged ({kind}) was recorded to')
        if kind == 'directory':
            require(os.listdir(other) == [], 'changed-other', 'a directory was written to')
            os.rmdir(other)
            return
        with open(other, 'rb') as f:
            require(f.read() == data, 'changed-other', lambda: f'a file which is damaged ({kind}) was changed')
        os.unlink(other)

    def _outside(self, path, est, s, ctx):
        other = ctx.path(f'never-{s["base"]}.h5')
        step = recorder.Step(s['base'], 0, est.num_state_dimensions, est.num_output_dimensions)
        for target in (path, other):
            w = recorder.make_writer(target, {**s['options'], 'key': s['key']})
            for call in (lambda: w.prepare(est, expected_steps=2, expected_cycles=2),
                         lambda: w.append_step(step.time, 0, step.state, step.output)):
                try:
                    call()
                except Exception:
                    continue
                raise Violation('used-outside', 'a recorder was used outside of a session without an error')
        require(not os.path.exists(other), 'created-file', 'using a recorder outside of a session created a file')
        # A session which is over
        with sut('session'):
            w = recorder.make_writer(other, {**s['options'], 'key': 'k'})
            with w:
                w.prepare(est, expected_steps=5, expected_cycles=5)
                w.append_step(step.time, 0, step.state, step.output)
        snap = self._snap(other)
        try:
            w.append_step(step.time, 1, step.state, step.output)
        except Exception:
            pass
        else:
            raise Violation('used-outside', 'a recorder was used after its session without an error')
        require(self._snap(other) == snap, 'changed-after-session', 'the file was changed after the session')
        os.unlink(other)
