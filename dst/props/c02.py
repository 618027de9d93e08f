from dst import recorder, seams
from dst.core import Property, Violation, require, sut

KINDS = ['fail', 'fail', 'late', 'late', 'torn', 'interrupt', 'late-interrupt']



def gen_position(rng):
    return rng.weighted([(rng.randrange(0, 6), 4), (rng.randrange(0, 14), 3), (rng.randrange(0, 34), 1)])


class PROPERTY(Property):
    id = 'C02'
    level = 'exploration'
    technique = 'storage faults at random operations within appends against a model of the recording'
    note = ('Failures before, after and in the middle of the h5py operations of appends, at random positions. '
            'Not exhaustive; power loss inside HDF5 itself is outside its scope.')
    rule = ('A run is one history of appends in which storage operations fail at chosen positions, followed by retrying '
            'or abandoning the step. What is readable is checked after every failure and at the end.')
    sim_measure = 'distinct (operation that failed, kind of failure, position within the append, follow-up) reached'
    components = {'real': ['HDF5Writer', 'read_state_estimates', 'estimators used to prepare', 'h5py/HDF5'],
                  'stub': ['values recorded (synthetic distributions)', 'disk (HDF5 core driver)',
                           'failures (injected at the operations of h5py)']}
    assumptions = ['A storage operation that fails either took effect, or did not, or did for the first part of an array',
                   'Failures of a single scalar write are not torn']
    expected_probes = ['retried', 'abandoned', 'failed-again', 'fault-while-growing', 'tail-visible', 'tail-absent',
                       'new-cycle-failed', 'recording-full']
    quick_runs = 800
    thorough_runs = 50000

    def generate(self, rng, tier, index):
        shape = recorder.gen_shape(rng)
        long = rng.chance(0.12)
        n = rng.randrange(124, 136) if long else rng.randrange(1, 14)
        cycles = recorder.gen_cycles(rng, n)
        o = recorder.gen_options(rng, max(cycles) + 1, n)
        if long:
            o['steps'], o['resizable'], o['cycles'] = None, True, None
        full = not long and rng.chance(0.15)  # A recording of limited size, which gets full
        if o['steps'] is not None and o['steps'] <= n:
            o['steps'] = n + 3
        if o['resizable'] and o['cycles'] is not None:
            o['cycles'] += 2
        if full:
            o['resizable'] = False
            which = rng.pick(['steps', 'cycles', 'both'])
            o['steps'] = rng.randrange(1, n + 1) if which != 'cycles' else n + 3
            o['cycles'] = rng.randrange(1, max(cycles) + 2) if which != 'steps' else max(cycles) + 2
        faults = []
        at = [n - 1 - k for k in range(min(n, 12))] if long else list(range(n))
        for i in at:
            if rng.chance(0.35):
                for attempt in range(rng.weighted([(1, 5), (2, 2), (3, 1)])):
                    faults.append({'at': i, 'attempt': attempt, 'n': gen_position(rng), 'kind': rng.pick(KINDS)})
        ops = [[c, rng.weighted([('retry', 5), ('abandon', 2), ('other', 1)])] for c in cycles]
        return {'shape': shape, 'options': o, 'ops': ops, 'faults': faults, 'reads': rng.chance(0.3),
                'base': rng.randrange(10 ** 6), 'key': rng.chance(0.2)}

    def simplify(self, plan):
        for i, f in enumerate(plan['faults']):
            for n in (0, f['n'] // 2, f['n'] - 1):
                if 0 <= n < f['n']:
                    yield {**plan, 'faults': plan['faults'][:i] + [{**f, 'n': n}] + plan['faults'][i + 1:]}
        if plan['ops']:  # Drop the first operation and shift the faults
            yield {**plan, 'ops': plan['ops'][1:], 'faults': [{**f, 'at': f['at'] - 1} for f in plan['faults']
                                                             if f['at'] > 0]}
        if plan['options'].get('dataset_options') is not None:
            yield {**plan, 'options': {**plan['options'], 'dataset_options': None}}

    @staticmethod
    def full(o, model, step):
        """Whether the recording cannot take a step, as it has a fixed size"""
        return not o['resizable'] and (
            o['per_timestep'] != 'none' and len(model.acked) >= o['steps'] or
            o['per_cycle'] != 'none' and step.cycle >= o['cycles'])

    def execute(self, plan, ctx):
        o = plan['options']
        storage = seams.Storage()
        with sut('build'):
            est = recorder.build_shape(plan['shape'])
            ns, no = est.num_state_dimensions, est.num_output_dimensions
        root = recorder.memory_file()
        try:
            key = 'run/7' if plan['key'] else 'state_estimates'
            writer = recorder.make_writer(root, {**o, 'key': key})
            model = recorder.Recording(o['per_timestep'], o['per_cycle'])
            with sut('enter'):
                writer.__enter__()
                writer.prepare(est, expected_steps=o['steps'], expected_cycles=o['cycles'])
            group = root[key]
            storage.install(reads=plan['reads'])
            faults = {(f['at'], f['attempt']): f for f in plan['faults']}
            serial = 0
            for i, (cycle, follow) in enumerate(plan['ops']):
                step = recorder.Step(plan['base'] + 100 * i, cycle, ns, no)
                for attempt in range(4):
                    f = faults.get((i, attempt))
                    storage.disarm()
                    if f is not None:
                        storage.arm(f['n'], f['kind'])
                    storage.fired = None
                    try:
                        writer.append_step(step.time, step.cycle, step.state, step.output)
                    except BaseException as e:
                        if isinstance(e, KeyboardInterrupt) and storage.fired is None:
                            raise
                        if storage.fired is None and self.full(o, model, step):
                            storage.fired = 'recording', 'full'
                            ctx.probes['recording-full'] += 1
                        if storage.fired is None:
                            raise Violation('unexpected-error/append', f'{type(e).__name__}: {e} without a fault, '
                                            f'attempt {attempt} of operation {i}')
                        failed = True
                    else:
                        failed = False
                    storage.disarm()
                    ctx.steps += 1
                    require(step.unchanged(), 'altered-argument', 'append_step altered its arguments')
                    if storage.fired is not None:
                        site, kind = storage.fired
                        ctx.faults[f'{site}-{kind}'] += 1
                        ctx.sig(site, kind, f['n'] if f else -1, follow, attempt, failed)
                        if site == 'grow':
                            ctx.probes['fault-while-growing'] += 1
                    if not failed:
                        model.accept(step)
                        if storage.fired is not None:
                            ctx.probes['fault-absorbed'] += 1
                            model.check(group, f'after operation {i}, which absorbed a fault')
                        if attempt:
                            ctx.probes['retried'] += 1
                        break
                    if attempt:
                        ctx.probes['failed-again'] += 1
                    if cycle not in model.first:
                        ctx.probes['new-cycle-failed'] += 1
                    model.fail(step)
                    model.check(group, f'after the failure ({storage.fired}, operation {i}, attempt {attempt})')
                    if o['per_timestep'] != 'none':
                        k = len(recorder.read_all(group, True))
                        ctx.probes['tail-visible' if k > len(model.acked) else 'tail-absent'] += 1
                    if follow == 'abandon':
                        ctx.probes['abandoned'] += 1
                        break
                    if follow == 'other':  # Another step of the same cycle instead
                        serial += 1
                        step = recorder.Step(plan['base'] + 100 * i + serial, cycle, ns, no)
                ctx.sim_time += 1.0
            # The storage works again: another step can always be stored
            storage.disarm()
            last = recorder.Step(plan['base'] + 99, plan['ops'][-1][0] if plan['ops'] else 0, ns, no)
            if not self.full(o, model, last):
                with sut('append-after-faults'):
                    writer.append_step(last.time, last.cycle, last.state, last.output)
                model.accept(last)
            model.check(group, 'at the end')
            with sut('exit'):
                writer.__exit__(None, None, None)
            model.check(group, 'after the session')
            ctx.log([s.ident for s in model.acked], sorted(ctx.faults.items()))
            ctx.log([r for t in (True, False) if o['per_timestep' if t else 'per_cycle'] != 'none'
                     for r in recorder.read_all(group, t)])
            ctx.nontrivial = bool(ctx.faults)
        finally:
            seams.uninstall_all()
            root.close()
