from dst import recorder, seams
from dst.core import Property, require, sut


class PROPERTY(Property):
    id = 'C01'
    level = 'exploration'
    technique = 'random recorder histories against an executable model of the recording'
    note = ('Random histories, storage options and cycle numberings with interleaved reads, compared exactly with a '
            'model. Not exhaustive; trusts h5py/HDF5.')
    rule = ('A run is one history of a recorder: storage kind, options, detail levels, and a sequence of appends, reads '
            'and flushes, after which everything is read back. Its event log holds every record which was read.')
    sim_measure = 'distinct (detail levels, storage options, sizes, cycle pattern) reached'
    components = {'real': ['HDF5Writer', 'read_state_estimates', 'estimators used to prepare', 'h5py/HDF5'],
                  'stub': ['values recorded (synthetic distributions)', 'disk of in-memory runs (HDF5 core driver)']}
    assumptions = ['Times recorded are not NaN (NaN marks the end of a recording)', 'Cycle numbers are not negative']
    expected_probes = ['grown', 'cycle-gap', 'cycle-revisited', 'beyond-expected', 'path', 'group', 'unsized-full']
    quick_runs = 800
    thorough_runs = 30000

    def generate(self, rng, tier, index):
        shape = recorder.gen_shape(rng)
        n = rng.weighted([(rng.randrange(0, 4), 1), (rng.randrange(1, 25), 4), (rng.randrange(120, 150), 1.2),
                          (rng.randrange(250, 420 if tier == 'quick' else 900), 0.5)])
        cycles = recorder.gen_cycles(rng, n)
        need_c = max(cycles) + 1 if cycles else 1
        o = recorder.gen_options(rng, need_c, n)
        over = n > 2 and rng.chance(0.12)
        if over:  # More steps or cycles arrive than announced
            if rng.chance(0.5):
                o['steps'] = rng.randrange(1, n)
            else:
                o['cycles'] = rng.randrange(1, need_c + 1)
            o['steps'] = o['steps'] or (None if o['resizable'] else n)
            o['cycles'] = o['cycles'] or (None if o['resizable'] else need_c)
        if rng.chance(0.3):
            o['key'] = rng.pick(['state_estimates', 'run-1', 'a/b'])
        ops = []
        for c in cycles:
            ops.append(['append', c])
            if rng.chance(0.06 if n < 50 else 0.006):
                ops.append(['read'])
            if rng.chance(0.03):
                ops.append(['flush'])
        return {'shape': shape, 'options': o, 'target': rng.weighted([('group', 5), ('path', 3), ('pathstr', 1),
                                                                      ('subgroup', 2)]),
                'ops': ops, 'extreme': rng.chance(0.3), 'base': rng.randrange(10 ** 6)}

    def simplify(self, plan):
        for k, v in [('dataset_options', None), ('key', None), ('steps', None), ('cycles', None)]:
            if plan['options'].get(k) != v and (plan['options']['resizable'] or k not in ('steps', 'cycles')):
                yield {**plan, 'options': {**plan['options'], k: v}}
        if plan['target'] != 'group':
            yield {**plan, 'target': 'group'}
        if plan['extreme']:
            yield {**plan, 'extreme': False}
        cycles = sorted({o[1] for o in plan['ops'] if o[0] == 'append'})
        for i, c in enumerate(cycles):
            if c != i:
                m = {c: i for i, c in enumerate(cycles)}
                yield {**plan, 'ops': [[o[0], m[o[1]]] if o[0] == 'append' else o for o in plan['ops']]}
                break

    def execute(self, plan, ctx):
        from pathlib import Path
        from moirae.interface.hdf5 import HDF5Writer  # noqa
        o = plan['options']
        with sut('build'):
            est = recorder.build_shape(plan['shape'])
            ns, no = est.num_state_dimensions, est.num_output_dimensions
        key = o.get('key') or 'state_estimates'
        path = ctx.path('out.h5')
        root = None
        if plan['target'] in ('group', 'subgroup'):
            root = recorder.memory_file()
            if plan['target'] == 'subgroup':
                root.create_group('x/y')
            where = root['x/y'] if plan['target'] == 'subgroup' else root
            target = where
            ctx.probes['group'] += 1
        else:
            target = Path(path) if plan['target'] == 'path' else path
            ctx.probes['path'] += 1
        model = recorder.Recording(o['per_timestep'], o['per_cycle'])
        try:
            with sut('construct'):
                writer = recorder.make_writer(target, o)
            with sut('enter'):
                writer.__enter__()
            try:
                with sut('prepare'):
                    writer.prepare(est, expected_steps=o['steps'], expected_cycles=o['cycles'])
                self._drive(plan, ctx, writer, model, where[key] if root is not None else None, ns, no)
            finally:
                with sut('exit'):
                    writer.__exit__(None, None, None)
            require(root is None or bool(root), 'closed-foreign-file', 'the recorder closed a file it did not open')
            if root is not None:
                model.check(where[key], 'after the session')
            elif key == 'state_estimates':
                model.check(Path(path) if plan['base'] % 2 else path, 'after the session')
            import h5py
            if root is None:
                with sut('reopen'):
                    f = h5py.File(path, 'r+')
                try:
                    model.check(f[key], 'after reopening')
                finally:
                    f.close()
        finally:
            if root is not None and root:
                root.close()
        ctx.log([s.ident for s in model.acked], [s.expected('full') for s in model.acked[:50]])
        ctx.log([[c, s.ident] for c, s in model.first.items()])
        ctx.sig(o['per_timestep'], o['per_cycle'], o['resizable'], str(o['dataset_options']), o['steps'] is None,
                o['cycles'] is None, plan['target'], min(len(model.acked) // 64, 4), min(len(model.first), 4))

    def _drive(self, plan, ctx, writer, model, group, ns, no):
        o = plan['options']
        last = None
        for i, op in enumerate(plan['ops']):
            if op[0] == 'append':
                step = recorder.Step(plan['base'] + i, op[1], ns, no, plan['extreme'])
                over = ((o['steps'] is not None and len(model.acked) >= o['steps'] and o['per_timestep'] != 'none')
                        or (o['cycles'] is not None and op[1] >= o['cycles'] and o['per_cycle'] != 'none'))
                if op[1] in model.first and op[1] != last:
                    ctx.probes['cycle-revisited'] += 1
                if last is not None and op[1] > last + 1:
                    ctx.probes['cycle-gap'] += 1
                if len(model.acked) == 128 and o['steps'] is None:
                    ctx.probes['grown'] += 1
                if not over:
                    with sut('append'):
                        writer.append_step(step.time, step.cycle, step.state, step.output)
                    model.accept(step)
                else:  # Storing more than announced may be refused, but what was accepted has to remain
                    ctx.probes['beyond-expected'] += 1
                    try:
                        writer.append_step(step.time, step.cycle, step.state, step.output)
                    except Exception:
                        model.fail(step)
                    else:
                        model.accept(step)
                require(step.unchanged(), 'altered-argument', 'append_step altered the distributions it was given')
                last = op[1]
                ctx.steps += 1
                ctx.sim_time += 1.0
            elif op[0] == 'read' and group is not None:
                model.check(group, f'after {i} operations')
                ctx.probes['read-while-recording'] += 1
            elif op[0] == 'flush' and group is not None:
                group.file.flush()
        if o['steps'] is None and len(model.acked) > 256:
            ctx.probes['unsized-full'] += 1
