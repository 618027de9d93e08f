import copy

import numpy as np

from dst import seams, worlds
from dst.core import Property, Violation, require, sut

ACTORS = ['joint', 'dual', 'joint-custom', 'dual-custom', 'simulator', 'loss']


class Actor:
    """An estimator, simulator or loss built from parts which belong to the caller"""

    def __init__(self, kind, parts, e, rows, c):
        from moirae.simulator import Simulator
        from moirae.estimators.offline.loss import MeanSquaredLoss
        self.kind, self.pos, self.rows = kind, 0, rows
        self.last = None
        if kind == 'simulator':
            self.obj = Simulator(cell_model=parts['model'], asoh=parts['asoh'], transient_state=parts['transients'],
                                 initial_input=parts['inputs'], keep_history=True,
                                 degradation_model=seams.SimDegradation(1e-3))
        elif kind == 'loss':
            self.obj = MeanSquaredLoss(cell_model=parts['model'], asoh=parts['asoh'],
                                       transient_state=parts['transients'], observations=parts['data'])
        else:
            base, _, custom = kind.partition('-')
            e = {**e, 'kind': base, 'degrade': 1e-4 if custom else 0}
            self.obj = build_shared(c, e, parts) if custom else worlds.build_estimator(c, e, parts=parts)

    @property
    def left(self):
        return 10 ** 9 if self.kind == 'loss' else len(self.rows) - self.pos

    def step(self, x, y, factor):
        """Returns what the caller sees, and keeps the objects returned"""
        if self.kind == 'loss':
            x0 = self.obj.get_x0()
            point = np.atleast_2d(x0 * factor)
            value = self.obj(point)
            self.last = [x0, point, value]
            return [np.array(value, copy=True)]
        self.pos += 1
        if self.kind == 'simulator':
            t, m = self.obj.step(x)
            self.last = [t, m]
            return [t.to_numpy().copy(), m.to_numpy().copy(), self.obj.transient.to_numpy().copy()]
        state, output = self.obj.step(x, y)
        kept = self.obj.state
        t, a = self.obj.get_estimated_state()
        self.last = [state, output, kept, t, a]
        return [*worlds.dist_arrays(state), *worlds.dist_arrays(output), *worlds.dist_arrays(kept), t.to_numpy().copy(),
                a.get_parameters().copy()]

    def look(self):
        if self.kind == 'loss':
            return [self.obj.get_x0().copy()]
        if self.kind == 'simulator':
            h = self.obj
            return [h.to_dataframe().to_numpy(), h.transient.to_numpy().copy(), h.measurement.to_numpy().copy(),
                    all_values(h.asoh), np.concatenate([all_values(a) for a in h.asoh_history])]
        t, a = self.obj.get_estimated_state()
        return [*worlds.dist_arrays(self.obj.state), t.to_numpy().copy(), all_values(a)]

    def objects(self):
        return list(self.last or [])


def build_shared(c, e, p):
    """An estimator which uses conversion operators that belong to the caller"""
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper
    base = dict(cell_model=p['model'], asoh=p['asoh'], transients=p['transients'], inputs=p['inputs'])
    cov = dict(covariance_transient=p['ct'], covariance_asoh=p['ca'], transient_covariance_process_noise=p['wt'],
               asoh_covariance_process_noise=p['wa'], covariance_sensor_noise=p['v'])
    deg = seams.SimDegradation(e['degrade'])
    if e['kind'] == 'joint':
        w = JointCellModelWrapper(**base, degradation_model=deg,
                                  converters={'hidden_conversion_operator': p['conv-joint']})
        return JointEstimator.initialize_ukf_from_wrapper(joint_wrapper=w, filter_args=worlds.tuning(e), **cov)
    wt = CellModelWrapper(**base, converters={'hidden_conversion_operator': p['conv-trans']})
    wa = DegradationModelWrapper(**base, degradation_model=deg, converters={'hidden_conversion_operator': p['conv-asoh']})
    return DualEstimator.initialize_ukf_from_wrappers(
        transient_wrapper=wt, asoh_wrapper=wa, filter_args={'transient': worlds.tuning(e), 'asoh': worlds.tuning(e)}, **cov)


def all_values(a):
    return np.concatenate([np.ravel(v) for _, v in a.iter_parameters(updatable_only=False)])


def arrays_in(obj):
    """Arrays which make up an object returned to, or owned by, the caller"""
    if isinstance(obj, np.ndarray):
        return [obj]
    if hasattr(obj, 'iter_parameters'):
        return [v for _, v in obj.iter_parameters(updatable_only=False)]
    out = []
    for name in getattr(type(obj), 'model_fields', {}):
        v = getattr(obj, name)
        if isinstance(v, np.ndarray):
            out.append(v)
    return out


def scribble(obj, factor):
    """Change all the values of an object in place"""
    for a in arrays_in(obj):
        if a.flags.writeable and a.dtype.kind == 'f':
            a *= factor
            a += 1e-3


class PROPERTY(Property):
    id = 'C08'
    level = 'exploration'
    technique = 'random interleavings of steps, and of lines in simulated threads, of actors that share all their parts'
    note = ('Differential: each estimator, simulator and loss against one alone with its own copies. Threads are preempted '
            'between lines of moirae, at sampled points; not inside of numpy.')
    rule = ('A run interleaves steps of two to five actors built from the same objects with changes by the caller to these '
            'objects, to inputs and to results; a third of the runs use simulated threads preempted at random lines.')
    sim_measure = 'distinct (kinds of actors, kind of change, its target, next actor to step) and preemption points reached'
    components = {'real': ['JointEstimator', 'DualEstimator', 'UnscentedKalmanFilter', 'Simulator', 'MeanSquaredLoss',
                           'EquivalentCircuitModel', 'containers'],
                  'stub': ['thread scheduler (one thread at a time, seeded)', 'degradation model']}
    assumptions = ['Models and datasets are shared on purpose and not changed by the caller',
                   'Each estimator is stepped from one thread at a time']
    expected_probes = ['threads', 'shared-changed', 'result-changed', 'input-reused', 'built-late', *ACTORS]
    quick_runs = 1000
    thorough_runs = 8000

    def generate(self, rng, tier, index):
        worlds_ = []
        for _ in range(rng.weighted([(1, 3), (2, 1)])):
            c = worlds.gen_circuit(rng, rich=rng.chance(0.3))
            e = worlds.gen_estimator(rng, c, rare=0.2)
            drive = worlds.gen_drive(rng, 12, qt=c['qt'])
            rows, _ = worlds.simulate_rows(c, drive, e['behavior'], noise=e['sensor'], noise_seed=rng.randrange(10 ** 6))
            worlds_.append({'circuit': c, 'est': e, 'rows': rows, 'more': rng.chance(0.3)})
        actors = [[rng.randrange(len(worlds_)), rng.pick(ACTORS)] for _ in range(rng.randrange(2, 6))]
        threads = rng.chance(0.33)
        plan = {'worlds': worlds_, 'actors': actors, 'threads': threads}
        if threads:
            plan['actors'] = actors[:3]
            plan['steps'] = rng.randrange(1, 4)
            plan['schedule'] = [[int(rng.logu(1, 3000)), rng.randrange(4)] for _ in range(rng.randrange(3, 60))]
            return plan
        ops = []
        for i in range(len(actors)):
            ops.append(['build', i])
        rng.shuffle(ops)
        late = rng.chance(0.4)
        n = rng.randrange(6, 40)
        for _ in range(n):
            op = rng.weighted([('step', 6), ('shared', 1), ('result', 2), ('input', 1)])
            if op == 'step':
                o = ['step', rng.randrange(len(actors)), rng.r(0.9, 1.1, 3)]
            elif op == 'shared':
                o = ['shared', rng.randrange(len(worlds_)), rng.randrange(12), rng.pick([0.5, 0.9, 1.5])]
            elif op == 'result':
                o = ['result', rng.randrange(len(actors)), rng.randrange(5), rng.pick([0.0, 0.5, 1.5])]
            else:
                o = ['input', rng.randrange(len(worlds_)), rng.pick([0.0, 2.0, -1.0])]
            at = rng.randrange(len(ops) + 1) if late and rng.chance(0.2) else len(ops)
            ops.insert(at, o)
        plan['ops'] = ops
        return plan

    def simplify(self, plan):
        if plan['threads']:
            if plan['steps'] > 1:
                yield {**plan, 'steps': plan['steps'] - 1}
            for i in range(len(plan['actors'])):
                if len(plan['actors']) > 1:
                    yield {**plan, 'actors': plan['actors'][:i] + plan['actors'][i + 1:]}
            for i, (n, k) in enumerate(plan['schedule'][:10]):
                if n > 1:
                    yield {**plan, 'schedule': plan['schedule'][:i] + [[n // 2, k]] + plan['schedule'][i + 1:]}

    # ------------------------------------------------------------------------- building blocks
    def _parts(self, w):
        c, e = w['circuit'], w['est']
        p = worlds.estimator_parts(c, {**e, 'degrade': 0}, sim_model=w['more'], first=w['rows'][0][:3])
        nt = worlds.num_transients(c)
        x = p['asoh'].get_parameters().flatten()
        from moirae.estimators.online.filters.conversions import LinearConversionOperator
        scale = np.where(x == 0, 1., x)
        p['conv-joint'] = LinearConversionOperator(multiplicative_array=np.hstack([np.ones(nt), scale]))
        p['conv-trans'] = LinearConversionOperator(multiplicative_array=np.diag(np.full(nt, 2.)))
        p['conv-asoh'] = LinearConversionOperator(multiplicative_array=scale, additive_array=np.zeros(len(scale)))
        p['data'] = worlds.dataset(w['rows'][:6])
        return p

    @staticmethod
    def _targets(p):
        return [p[k] for k in ('asoh', 'transients', 'inputs', 'ct', 'ca', 'wt', 'wa', 'v', 'conv-joint', 'conv-trans',
                               'conv-asoh')]

    def _values(self, p):
        return [np.array(a, copy=True) for t in self._targets(p) for a in arrays_in(t)] + [p['data'].raw_data.to_numpy()]

    @staticmethod
    def _clone(p):
        return {k: v if k == 'model' else copy.deepcopy(v) for k, v in p.items()}

    def execute(self, plan, ctx):
        with sut('prepare'):
            parts = [self._parts(w) for w in plan['worlds']]
        if plan['threads']:
            return self._threads(plan, ctx, parts)
        owned = [self._values(p) for p in parts]
        inputs = [worlds.make_input(0., 0.) for _ in parts]  # Reused for each step, as in a loop over data
        actors, alone = {}, {}
        changed = None
        for k, op in enumerate(plan['ops']):
            kind = op[0]
            if kind == 'build':
                i, (w, what) = op[1], plan['actors'][op[1]]
                world = plan['worlds'][w]
                with sut('build'):
                    alone[i] = Actor(what, self._clone(parts[w]), world['est'], world['rows'], world['circuit'])
                    actors[i] = Actor(what, parts[w], world['est'], world['rows'], world['circuit'])
                ctx.probes['built-late'] += k > len(plan['actors'])
                ctx.probes[what] += 1
            elif kind == 'step':
                i = op[1]
                if i not in actors or actors[i].left < 1:
                    continue
                w = plan['actors'][i][0]
                a, b = actors[i], alone[i]
                r = a.rows[a.pos] if a.kind != 'loss' else a.rows[0]
                u = inputs[w]
                u.time[...], u.current[...], u.temperature[...] = r[0], r[1], r[2]
                y = worlds.make_meas(r[3])
                with sut('step-alone'):
                    expected = b.step(worlds.make_input(*r[:3]), worlds.make_meas(r[3]), op[2])
                with sut('step'):
                    got = a.step(u, y, op[2])
                self._compare(got, expected, f'step of {a.kind}', changed)
                require(float(u.time) == r[0] and float(u.current) == r[1] and float(u.temperature) == r[2]
                        and float(y.terminal_voltage) == r[3], 'changed-input', f'{a.kind} changed what it was given')
                if changed:
                    ctx.sig(changed, a.kind)
                ctx.steps += 1
                ctx.probes['input-reused'] += 1
                ctx.log(k, a.kind, got)
            elif kind == 'shared':
                targets = self._targets(parts[op[1]])
                scribble(targets[op[2] % len(targets)], op[3])
                owned[op[1]] = self._values(parts[op[1]])
                changed = f'shared object {op[2] % len(targets)}'
                ctx.faults['shared-changed'] += 1
                ctx.probes['shared-changed'] += 1
            elif kind == 'result':
                if op[1] not in actors:
                    continue
                objects = actors[op[1]].objects()
                if objects:
                    j = op[2] % len(objects)
                    scribble(objects[j], op[3])
                    changed = f'result {j} of {actors[op[1]].kind}'
                    ctx.faults['result-changed'] += 1
                    ctx.probes['result-changed'] += 1
            elif kind == 'input':
                scribble(inputs[op[1]], op[2])
                changed = 'input'
                ctx.faults['input-changed'] += 1
            for w, (p, v) in enumerate(zip(parts, owned)):
                require(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(self._values(p), v)), 'changed-owned',
                        lambda: f'{op} changed an object of the caller')
        for i in actors:
            with sut('look'):
                got, expected = actors[i].look(), alone[i].look()
            self._compare(got, expected, f'final state of {actors[i].kind}', changed)

    @staticmethod
    def _compare(got, expected, what, changed):
        for j, (x, y) in enumerate(zip(got, expected)):
            require(worlds.same(x, y), f'interference/{what.split()[-1]}',
                    lambda: f'{what}, item {j}: {np.ravel(x)[:6]} rather than {np.ravel(y)[:6]} alone, last change: {changed}')

    def _threads(self, plan, ctx, parts):
        ctx.probes['threads'] += 1
        results, expected, functions, actors = [], [], [], []
        for i, (w, what) in enumerate(plan['actors']):
            world = plan['worlds'][w]

            def work(world=world, what=what, p=None):
                a = Actor(what, p, world['est'], world['rows'], world['circuit'])
                out = []
                for s in range(plan['steps']):
                    r = world['rows'][s]
                    out.append(a.step(worlds.make_input(*r[:3]), worlds.make_meas(r[3]), 1 + 0.01 * s))
                out.append(a.look())
                return out

            with sut('alone'):
                expected.append(work(p=self._clone(parts[w])))
            functions.append(lambda work=work, p=parts[w]: work(p=p))
        owned = [self._values(p) for p in parts]
        sched = seams.LineScheduler(plan['schedule'])
        results = sched.run(functions)
        for (w, what), (status, got), want in zip(plan['actors'], results, expected):
            ctx.probes[what] += 1
            if status == 'error':
                with sut(f'thread/{what}'):
                    raise got
            for s, (x, y) in enumerate(zip(got, want)):
                self._compare(x, y, f'step {s} in threads of {what}', f'{sched.switches} switches')
            ctx.steps += len(got)
            ctx.log(what, got[-1])
        for p, v in zip(parts, owned):
            require(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(self._values(p), v)), 'changed-owned',
                    'an object of the caller was changed')
        ctx.faults['preemption'] += sched.switches
        for pt in sched.points:
            ctx.sig(pt)
