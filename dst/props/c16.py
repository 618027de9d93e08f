import json
import math

import h5py
import numpy as np

from dst import recorder, refs, seams, worlds
from dst.core import Property, is_injected, require, sut

STYLES = ['linear', 'nearest', 'previous', 'next', 'quadratic', 'cubic', 'slinear', 'zero']


class PROPERTY(Property):
    id = 'C16'
    level = 'exploration'
    technique = 'crash at any model call of a recorded estimation and restart in a process which only has the recording'
    note = ('Resumed estimations are compared with one which never stopped, within the round-off a restart implies. What is not '
            'in the recording (noise, tuning, records of the dataset) is known to the operator.')
    rule = ('A run records an estimation which crashes a few times. Each time, a new estimator is built only from the last '
            'record and the metadata, after passing health and states through JSON again, and continues.')
    sim_measure = ('distinct (estimator, parameters, circuit, normalisation, stream used, number of crashes, call failing, '
                   'interpolation) reached')
    components = {'real': ['HDF5Writer', 'read_state_estimates', 'run_online_estimate', 'JointEstimator', 'DualEstimator',
                           'JSON of HealthVariable and GeneralContainer', 'h5py'],
                  'stub': ['telemetry link', 'crashes (exceptions in the model)']}
    assumptions = ['Resuming needs the full distribution or mean and covariance to be recorded',
                   'The noise, the tuning and the previous record are known']
    expected_probes = ['joint', 'dual', 'resumed', 'resumed-twice', 'from-cycle', 'from-step', 'normalize', 'json-after-use',
                       'interpolation', 'pinpoints', 'resumed-at-first', 'batch-json', 'path', 'group']
    quick_runs = 700
    thorough_runs = 9000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng)
        if len(c['r0']) > 1 and rng.chance(0.5):
            inner = sorted({rng.r(0.05, 0.95, 2) for _ in range(len(c['r0']) - 2)})
            c['r0_soc'] = [0., *inner, 1.]
            c['r0'] = c['r0'][:len(c['r0_soc'])]
        e = worlds.gen_estimator(rng, c, rare=0.2)
        e['cov_rel'] = rng.pick([0.02, 0.05])
        e['kappa'] = rng.pick([0., 0., 1.])
        n = rng.weighted([(rng.randrange(2, 8), 2), (rng.randrange(8, 30), 2)])
        drive = worlds.gen_drive(rng, n, qt=c['qt'])
        rows, _ = worlds.simulate_rows(c, drive, e['behavior'], noise=e['sensor'], noise_seed=rng.randrange(10 ** 6))
        crashes = [rng.randrange(int(1 + 4.5 * n)) for _ in range(rng.pick([1, 1, 2, 3]))]
        style = rng.pick(STYLES) if len(c['r0']) > 3 and rng.chance(0.5) else 'linear'
        return {'circuit': c, 'est': e, 'rows': rows, 'link': worlds.gen_link(rng, n) if rng.chance(0.6) else [],
                'faults': [[x, rng.pick(['interrupt', 'error', 'memory'])] for x in crashes],
                'cycles': recorder.gen_cycles(rng, n * 3) if rng.chance(0.7) else None,
                'stream': rng.pick(['step', 'step', 'cycle']), 'level': rng.pick(['full', 'mean_cov']),
                'json': rng.randrange(3), 'style': style, 'target': rng.pick(['path', 'group']),
                'batch': worlds.gen_batch(rng, c, rng.randrange(2, 4)) if rng.chance(0.4) else None}

    def simplify(self, plan):
        for k, v in [('json', 0), ('style', 'linear'), ('cycles', None), ('stream', 'step'), ('batch', None),
                     ('target', 'path')]:
            if plan[k] != v:
                yield {**plan, k: v}
        e = plan['est']
        for k, v in [('names', ['r0.base_values']), ('normalize', False), ('degrade', 0), ('behavior', 'constant')]:
            if e[k] != v:
                yield {**plan, 'est': {**e, k: v}}

    # -- JSON
    def through_json(self, obj, times, what):
        for _ in range(times):
            with sut('json'):
                text = obj.model_dump_json()
                new = type(obj).model_validate_json(text)
            self.same_settings(new, obj, what)
            obj = new
        return obj

    def same_settings(self, a, b, what):
        """Every field of two containers is equal, whatever its kind"""
        require(type(a) is type(b), 'json-type', lambda: f'{what}: {type(a)} rather than {type(b)}')
        for name in type(b).model_fields:
            x, y = getattr(a, name), getattr(b, name)
            if hasattr(y, 'model_dump_json'):
                self.same_settings(x, y, f'{what}.{name}')
            elif isinstance(y, (list, tuple)) and y and hasattr(y[0], 'model_dump_json'):
                require(len(x) == len(y), 'json-value', lambda: f'{what}.{name}: {len(x)} rather than {len(y)} elements')
                for i, (p, q) in enumerate(zip(x, y)):
                    self.same_settings(p, q, f'{what}.{name}.{i}')
            elif isinstance(y, np.ndarray) and x is not None:
                require(isinstance(x, np.ndarray) and x.shape == y.shape and np.array_equal(x, y), 'json-value',
                        lambda: f'{what}.{name}: {x!r} rather than {y!r}')
            else:
                if name == 'soc_pinpoints' and x is not None and y is None:
                    y = np.linspace(0, 1, b.base_values.shape[-1])  # Filled in when the values are used
                require(np.array_equal(x, y), 'json-value', lambda: f'{what}.{name}: {x!r} rather than {y!r}')

    def predictions(self, asoh, transients, c):
        from moirae.models.ecm import EquivalentCircuitModel
        m = EquivalentCircuitModel()
        out = []
        for u, w in [([0, 1., 20.], [10., -2., 30.]), ([5., 0.3, 25.], [900., 0.3, 25.])]:
            s = m.update_transient_state(worlds.make_input(*u), worlds.make_input(*w), transients, asoh)
            out += [s.to_numpy(), m.calculate_terminal_voltage(worlds.make_input(*w), s, asoh).to_numpy()]
        return out

    def check_json(self, plan, ctx):
        """Health and states saved and loaded, before and after being used"""
        c, b = plan['circuit'], plan['batch'] or {'size': 1, 'factors': {}, 'soc': None}
        with sut('build'):
            a, t = worlds.build_batch(c, b)
            a.r0.interpolation_style = plan['style']
            for n in plan['est']['names']:
                a.mark_updatable(n)
        fresh = self.through_json(a, 1, 'health'), self.through_json(t, 1, 'states')
        with sut('predict'):
            want = self.predictions(a, t, c)
            first = self.predictions(*fresh, c)
        used = self.through_json(a, 1, 'health used'), self.through_json(t, 1, 'states used')
        with sut('predict'):
            second = self.predictions(*used, c)
        for k, (x, y, z) in enumerate(zip(want, first, second)):
            require(np.array_equal(x, y), 'json-prediction', lambda: f'{y} rather than {x} after loading')
            require(np.array_equal(x, z), 'json-prediction-used', lambda: f'{z} rather than {x} after loading what was used')
        for x in (fresh[0], used[0]):
            require(x.updatable_names == a.updatable_names, 'json-names', lambda: f'{x.updatable_names}, {a.updatable_names}')
            require(x.batch_size == a.batch_size, 'json-batch', lambda: f'{x.batch_size}, {a.batch_size}')
        ctx.probes['json-after-use'] += 1
        ctx.probes['batch-json'] += b['size'] > 1
        ctx.probes['interpolation'] += plan['style'] != 'linear'

    # -- estimation
    def parts(self, plan, rows):
        c, e = plan['circuit'], plan['est']
        a = worlds.build_asoh(c)
        a.r0.interpolation_style = plan['style']
        for n in e['names']:
            a.mark_updatable(n)
        a.update_parameters(a.get_parameters(e['names']) * e['asoh_err'], e['names'])
        t = worlds.build_transients(c, soc=min(max(0.5 + e['soc_err'], 0.05), 0.95))
        return worlds.estimator_parts(c, e, sim_model=True, asoh=a, transients=t, first=self.input_of(rows[0]))

    def input_of(self, r):
        return [r[0], r[1], r[2] if math.isfinite(r[2]) else 25.]

    def execute(self, plan, ctx):
        from moirae.interface import run_online_estimate
        from moirae.interface.hdf5 import HDF5Writer
        from moirae.models.ecm import ECMASOH, ECMTransientVector
        c, e = plan['circuit'], plan['est']
        seams.CALLS.active = False
        self.check_json(plan, ctx)
        rows = worlds.deliver(plan['rows'], plan['link'], ctx.faults)
        if not rows:
            return
        if all(math.isnan(r[2]) for r in rows):
            rows[0][2] = 25.
        cycles = plan['cycles'][:len(rows)] if plan['cycles'] else None
        nt = worlds.num_transients(c)
        with sut('build'):
            p = self.parts(plan, rows)
            whole = worlds.build_estimator(c, e, parts=p, sim_model=True)
            est = worlds.build_estimator(c, e, parts=p, sim_model=True)
            original = p['asoh'].model_copy(deep=True), p['transients'].model_copy(deep=True)
        want = []
        for k, r in enumerate(rows):
            with sut('step'):
                w = whole.step(worlds.make_input(*self.input_of(r)), worlds.make_meas(r[3]))
            w = [x for d in w for x in worlds.dist_arrays(d)]
            if not all(np.all(np.isfinite(x)) for x in w) or abs(w[0][0]) > 10 or np.max(np.abs(w[0][:nt])) > 1e4 \
                    or abs(w[2][0]) > 100:
                rows = rows[:k]  # Estimates which left the range of the circuit are out of scope
                ctx.probes['diverged'] += 1
                break
            want.append(w)
        if not rows:
            return
        cycles = cycles[:len(rows)] if cycles else None
        start = 0  # First record of the dataset the estimator has not seen
        tolerance = 0.
        for attempt, fault in enumerate([*plan['faults'], None]):
            name = f'{attempt}.h5'
            path = ctx.path(name)
            file = group = None
            stream = plan['stream'] if cycles is not None else 'step'
            levels = {'per_timestep': plan['level'] if stream == 'step' else 'mean',
                      'per_cycle': plan['level'] if stream == 'cycle' else 'none'}
            if plan['target'] == 'group':
                file = h5py.File(path, 'w')
                group = file.create_group('state_estimates')
                target = HDF5Writer(hdf5_output=file, **levels)
            else:
                target = HDF5Writer(hdf5_output=path, **levels)
            data = worlds.dataset(rows[start:], None if cycles is None else cycles[start:])
            if 'temperature' not in data.raw_data:
                data.raw_data['temperature'] = 25.
            model = type(est.cell_model).__name__
            kind = type(est).__name__
            first = original if attempt == 0 else (asoh, transients)
            names, outputs = list(est.state_names), list(est.output_names)
            seams.CALLS.active = True
            seams.CALLS.arm(*(fault or [-1, 'error']))
            failed = None
            try:
                run_online_estimate(data, est, hdf5_output=target)
            except BaseException as x:
                if not is_injected(x):
                    with sut('run'):
                        raise
                failed = x
            fired = seams.CALLS.fired
            seams.CALLS.disarm()
            seams.CALLS.active = False
            require((failed is not None) == (fired is not None), 'failure-lost', lambda: f'fault {fired}, error {failed!r}')
            if file is not None:
                file.close()
            # What a new process finds
            with h5py.File(path, 'r') as f:
                empty = 'per_timestep' not in f['state_estimates']  # Storage is made for the first step
            steps = [] if empty else recorder.read_all(path, True)
            require(len(steps) <= len(rows) - start, 'extra-records', lambda: f'{len(steps)} of {len(rows) - start} records')
            if fired is None:
                require(len(steps) == len(rows) - start, 'lost-records', lambda: f'{len(steps)} of {len(rows) - start} records')
            for k, s in enumerate(steps):
                w = want[start + k]
                sd = np.sqrt(np.abs(np.diag(w[1])))
                level = 1e-9 if tolerance == 0 else 1e-3
                err = np.abs(s[1] - w[0]) - level * sd - 1e-9 * np.abs(w[0])
                j = int(np.argmax(err))
                require(err[j] <= 0, 'resumed-state', lambda: f'attempt {attempt}, record {start + k} of {len(rows)}: '
                        f'{names[j]} is {s[1][j]!r} rather than {w[0][j]!r} +- {sd[j]}')
                if stream == 'step':
                    cov = np.abs(s[2] - w[1]) - level * np.outer(sd, sd)
                    require(np.max(cov) <= 0, 'resumed-covariance', lambda: f'attempt {attempt}, record {start + k}: {s[2]}, {w[1]}')
                require(np.abs(s[3] - w[2])[0] <= level * math.sqrt(w[3][0, 0]) + 1e-9, 'resumed-output',
                        lambda: f'attempt {attempt}, record {start + k}: {s[3]} rather than {w[2]}')
                ctx.log(attempt, k, s[1], s[3])
            ctx.steps += len(steps)
            ctx.sig(e['kind'], e['names'], len(c['rc']), c['c0'] is None, e['normalize'], stream, attempt, fired and fired[0],
                    plan['style'], plan['target'], plan['level'])
            ctx.probes[plan['target']] += 1
            with h5py.File(path, 'r') as f:
                attrs = dict(f['state_estimates'].attrs)
            if empty:  # The preparation failed: the operator begins again
                require(fired is not None, 'lost-records', 'nothing was prepared')
                asoh, transients = (x.model_copy(deep=True) for x in first)
            else:
                asoh, transients = self.metadata(attrs, kind, model, names, outputs, first, ECMASOH, ECMTransientVector)
            if fired is None:
                break
            ctx.faults[f'crash ({fired[1]}) in {fired[0]}'] += 1
            records = steps if stream == 'step' or empty else recorder.read_all(path, False)
            if not records:
                # Nothing was recorded: start from the initial conditions in the file
                last = None
                ctx.probes['resumed-at-first'] += 1
            else:
                last = records[-1]
                if stream == 'step':
                    start += len(records)
                    ctx.probes['from-step'] += 1
                else:
                    done = cycles[start:start + len(steps)]
                    start += done.index(max(done)) + 1
                    ctx.probes['from-cycle'] += 1
            # A new estimator from what was read
            asoh = self.through_json(asoh, plan['json'], 'metadata health')
            transients = self.through_json(transients, plan['json'], 'metadata states')
            q = dict(p, model=seams.SimECM(e['behavior']))
            with sut('resume'):
                if last is not None:
                    mean, cov = last[1], last[2]
                    transients = transients.make_copy(values=mean[None, :nt])
                    asoh = asoh.make_copy(values=mean[None, nt:], names=asoh.updatable_names)
                    q.update(ct=cov[:nt, :nt], ca=cov[nt:, nt:])
                    if e['kind'] == 'joint':
                        q['cj'] = cov
                    p = dict(p, **{k: q[k] for k in ('ct', 'ca', 'cj') if k in q})
                q.update(asoh=asoh, transients=transients,
                         inputs=worlds.make_input(*self.input_of(rows[max(start - 1, 0)])))
                est = worlds.build_estimator(c, e, parts=q, sim_model=True)
            tolerance = 1.
            ctx.probes['resumed'] += 1
            ctx.probes['resumed-twice'] += attempt > 0
            if start >= len(rows):
                break
        ctx.sim_time += rows[-1][0] - rows[0][0]
        ctx.probes[e['kind']] += 1
        ctx.probes['normalize'] += e['normalize']
        ctx.probes['pinpoints'] += bool(c.get('r0_soc'))

    def metadata(self, attrs, kind, model, names, outputs, first, health, states):
        with sut('metadata'):
            got = {k: attrs[k] for k in ('estimator_name', 'cell_model', 'distribution_type')}
            got_names = [str(x) for x in attrs['state_names']]
            got_outputs = [str(x) for x in attrs['output_names']]
            asoh = health.model_validate_json(attrs['initial_asoh'])
            transients = states.model_validate_json(attrs['initial_transient_state'])
            json.loads(attrs['write_settings'])
        require(got['estimator_name'] == kind, 'metadata-estimator', lambda: f'{got}')
        require(got['cell_model'] == model, 'metadata-model', lambda: f'{got}')
        require(got['distribution_type'] == 'MultivariateGaussian', 'metadata-distribution', lambda: f'{got}')
        require(got_names == names and got_outputs == outputs, 'metadata-names', lambda: f'{got_names}, {got_outputs}')
        self.same_settings(asoh, first[0], 'metadata health')
        self.same_settings(transients, first[1], 'metadata states')
        return asoh, transients
