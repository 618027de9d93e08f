import json

import numpy as np

from dst import worlds
from dst.core import INJECTED, Property, is_injected, require, sut, Violation
from dst.seams import CALLS

KINDS = ['error', 'interrupt', 'value', 'oserror', 'memory']


class PROPERTY(Property):
    id = 'C07'
    level = 'exploration'
    technique = 'failures at random calls of steps into models and conversions, against a twin without failures'
    note = ('Differential: an estimator whose steps fail, are retried or skipped, against one which never failed. '
            'Failures are raised by the interfaces a step calls, at sampled calls; not between arbitrary instructions.')
    rule = ('A run steps one estimator over up to forty records of a simulated cell; steps fail up to three times, before or '
            'after a call to a cell model, degradation model or conversion, and are retried or skipped.')
    sim_measure = 'distinct (estimator, site, kind, when, retried, first step, repeated) combinations which fired'
    components = {'real': ['JointEstimator', 'DualEstimator', 'UnscentedKalmanFilter', 'model wrappers',
                           'LinearConversionOperator', 'EquivalentCircuitModel'],
                  'stub': ['degradation model', 'measured cell (simulated)', 'points of failure (subclasses)']}
    assumptions = ['Failures are exceptions raised by models, degradation models or conversions, or interrupts during them']
    expected_probes = ['joint', 'dual', 'retried', 'skipped', 'first-step', 'fails-again', 'update', 'voltage', 'degrade',
                       'convert', 'after', 'not-hit']
    quick_runs = 1500
    thorough_runs = 12000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng, rich=rng.chance(0.3))
        e = worlds.gen_estimator(rng, c, rare=0.2)
        if rng.chance(0.6):
            e['degrade'] = rng.pick([1e-5, 1e-3])
        n = rng.weighted([(rng.randrange(2, 5), 2), (rng.randrange(5, 15), 4), (rng.randrange(15, 40), 1)])
        drive = worlds.gen_drive(rng, n, qt=c['qt'])
        rows, _ = worlds.simulate_rows(c, drive, e['behavior'], noise=e['sensor'], noise_seed=rng.randrange(10 ** 6))
        rows = [[x if np.isfinite(x) else 25. for x in r] for r in worlds.deliver(rows, worlds.gen_link(rng, n))]
        rate = rng.pick([0.1, 0.3, 0.7])
        ops = []
        for r in rows:
            faults = []
            while rng.chance(rate) and len(faults) < 3:
                faults.append([rng.r(0, 1, 4), rng.pick(KINDS), 'after' if rng.chance(0.35) else 'before'])
            ops.append({'row': r, 'faults': faults, 'skip': bool(faults) and rng.chance(0.3)})
        return {'circuit': c, 'est': e, 'ops': ops}

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            for j in range(len(op['faults'])):
                yield {**plan, 'ops': plan['ops'][:i] + [{**op, 'faults': op['faults'][:j] + op['faults'][j + 1:]}]
                       + plan['ops'][i + 1:]}
            for f in op['faults'][:1]:
                if f[1] != 'error':
                    yield {**plan, 'ops': plan['ops'][:i] + [{**op, 'faults': [[f[0], 'error', f[2]]] + op['faults'][1:]}]
                           + plan['ops'][i + 1:]}
        for k, v in [('degrade', 0), ('normalize', False), ('names', ['r0.base_values'])]:
            if plan['est'][k] != v:
                yield {**plan, 'est': {**plan['est'], k: v}}
        if plan['circuit']['rc']:
            names = [n for n in plan['est']['names'] if not n.startswith('rc')] or ['r0.base_values']
            yield {**plan, 'circuit': {**plan['circuit'], 'rc': []}, 'est': {**plan['est'], 'names': names}}

    def execute(self, plan, ctx):
        c, e = plan['circuit'], plan['est']
        if not plan['ops']:
            return
        first = plan['ops'][0]['row'][:3]
        with sut('build'):
            est, twin, probe = [worlds.build_estimator(c, e, sim_model=True, first=first) for _ in range(3)]
            CALLS.reset()
            probe.step(worlds.make_input(*first), worlds.make_meas(plan['ops'][0]['row'][3]))
            calls = CALLS.count
        done = 0
        for k, op in enumerate(plan['ops']):
            r = op['row']
            x, y = worlds.make_input(*r[:3]), worlds.make_meas(r[3])
            complete = None
            failures = 0
            for where, kind, when in op['faults']:
                before = self._look(est)
                CALLS.arm(int(where * calls) % max(calls, 1), kind, when)
                try:
                    complete = est.step(x, y)
                except BaseException as exc:
                    if isinstance(exc, np.linalg.LinAlgError) and not is_injected(exc) \
                            and self._diverged(twin, x, y):
                        ctx.probes['diverged'] += 1
                        return
                    if isinstance(exc, Violation) or not (isinstance(exc, INJECTED) or is_injected(exc)):
                        with sut(f'step'):
                            raise
                    fired = CALLS.fired
                    require(fired is not None, 'stale-error', lambda: f'{exc} raised although nothing failed')
                    failures += 1
                    ctx.faults[f'{fired[0]}-{kind}'] += 1
                    ctx.probes[fired[0]] += 1
                    ctx.probes['after'] += when == 'after'
                    ctx.probes['first-step'] += done == 0
                    ctx.sig(e['kind'], fired, op['skip'], done == 0, failures)
                else:
                    require(CALLS.fired is None, 'swallowed-error',
                            lambda: f'the failure {CALLS.fired} during step {k} did not reach the caller')
                    ctx.probes['not-hit'] += 1
                CALLS.disarm()
                if complete is not None:
                    break
                after = self._look(est)
                for name, a, b in zip(('mean', 'covariance', 'transient', 'health', 'filter inputs'), before, after):
                    require(worlds.same(b, a, 1e-13), f'changed-by-failure/{name}',
                            lambda: f'step {k} failed at {fired} and changed the {name} from {a} to {b}')
            ctx.probes['fails-again'] += failures > 1
            if complete is None:
                if op['skip']:
                    ctx.probes['skipped'] += 1
                    continue
                with sut('retry' if failures else 'step'):
                    try:
                        complete = est.step(x, y)
                    except np.linalg.LinAlgError:
                        if not self._diverged(twin, x, y):
                            raise
                        ctx.probes['diverged'] += 1
                        return
                ctx.probes['retried'] += failures > 0
            with sut('twin'):
                expected = twin.step(x, y)
            for name, a, b in zip(('state', 'output'), complete, expected):
                require(worlds.same_dist(a, b), f'differs-from-twin/{name}',
                        lambda: f'step {k}: {name} {a.get_mean()} rather than {b.get_mean()} without the failures')
            require(worlds.same_dist(est.state, twin.state), 'differs-from-twin/kept',
                    lambda: f'step {k}: the estimate kept differs from that without failures')
            done += 1
            ctx.steps += 1
            ctx.log(k, complete[0].get_mean(), complete[0].get_covariance(), failures)
        ctx.probes[e['kind']] += 1
        ctx.sim_time += max(plan['ops'][-1]['row'][0] - first[0], 0)
        a, b = self._look(est), self._look(twin)
        require(all(worlds.same(x, y) for x, y in zip(a, b)), 'differs-from-twin/end', 'the final estimates differ')

    @staticmethod
    def _diverged(twin, x, y):
        """Whether the filter fails without any failures as well, as its estimates are no longer meaningful"""
        CALLS.disarm()
        try:
            twin.step(x, y)
        except np.linalg.LinAlgError:
            return True
        return False

    @staticmethod
    def _look(est):
        with sut('look'):
            t, a = est.get_estimated_state()
            return [*worlds.dist_arrays(est.state), t.to_numpy().copy(), a.get_parameters().copy()]
