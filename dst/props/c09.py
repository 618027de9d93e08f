import math

import numpy as np

from dst import refs, worlds
from dst.core import Property, require, sut


def expected_names(c, e):
    cell = refs.Cell(c, ocv=worlds.ocv_points('linear'))
    out = cell.names()
    for name in refs.health_order(e['names']):
        n = len(cell._get(name))
        out += [name] if n == 1 else [f'{name}[{i}]' for i in range(n)]
    return tuple(out)


def check_distribution(d, n, what, detail):
    mean, cov = worlds.dist_arrays(d)
    require(mean.shape == (n,) and cov.shape == (n, n) and d.num_dimensions == n, f'wrong-size/{what}',
            lambda: f'{detail}: mean {mean.shape} and covariance {cov.shape} rather than of size {n}')
    require(np.all(np.isfinite(mean)), f'not-finite/{what}', lambda: f'{detail}: mean {mean}')
    require(np.all(np.isfinite(cov)), f'not-finite/{what}', lambda: f'{detail}: covariance {cov}')
    norm = np.linalg.norm(cov)
    asym = np.max(np.abs(cov - cov.T))
    require(asym <= 1e-12 * norm, f'not-symmetric/{what}', lambda: f'{detail}: asymmetry {asym} of norm {norm}')
    require(np.min(np.diag(cov)) >= 0, f'negative-variance/{what}', lambda: f'{detail}: variances {np.diag(cov)}')
    low = np.min(np.linalg.eigvalsh((cov + cov.T) / 2))
    require(low >= -1e-12 * norm, f'not-positive/{what}', lambda: f'{detail}: eigenvalue {low} of norm {norm}')
    return mean, cov


class PROPERTY(Property):
    id = 'C09'
    level = 'exploration'
    technique = 'long runs over a faulty telemetry link with extreme records, checking invariants after every step'
    note = ('Invariants of every distribution returned in sampled histories with bounded but implausible telemetry; '
            'numerical tolerances are relative to the norm of the covariance.')
    rule = ('A run steps one estimator over up to some hundred records from a link which loses, repeats, delays and corrupts '
            'them. The variance from the prediction alone comes from an estimator restarted there with a useless sensor.')
    sim_measure = 'distinct (estimator, parameters, coordinates, current behaviour, fault active, sign of innovation) reached'
    components = {'real': ['JointEstimator', 'DualEstimator', 'UnscentedKalmanFilter', 'conversions (linear, absolute)',
                           'EquivalentCircuitModel'],
                  'stub': ['cell (simulated)', 'telemetry link']}
    assumptions = ['Voltages within 0 and 10 V, currents within 10 C, gaps up to a day',
                   'The weights of the sigma points are not negative',
                   'Runs end if the state of charge leaves -10 to 10 or the prediction 100 V', 'RC and capacity are kept positive when estimated']
    expected_probes = ['joint', 'dual', 'absolute', 'normalize', 'long-gap', 'repeated-time', 'big-spike', 'zero-noise-state',
                       'prediction-compared', 'singular']
    quick_runs = 700
    thorough_runs = 9000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng, rich=rng.chance(0.3))
        e = worlds.gen_estimator(rng, c, rare=0.2)
        # Others make the equations overflow if they leave their range
        e['names'] = [x for x in e['names'] if x in worlds.updatable_options(c) or x.startswith(('ce', 'ocv', 'h0.base'))] \
            or ['r0.base_values']
        for k in range(len(c['rc'])):
            c['rc'][k] = [[x[0]] for x in c['rc'][k]]
        e['kappa'] = rng.pick([0.0, 0.0, 1.0, 3.0])
        e['cov_rel'] = rng.pick([0.1, 0.19])  # No sigma point with a capacity of exactly zero
        e['beta'] = rng.pick([2.0, 2.0, 0.0, 1.0])
        needs = any(n.startswith(('q_t', 'rc')) for n in e['names'])
        absolute = needs or rng.chance(0.1)
        if absolute:
            e['normalize'] = False
        n = rng.weighted([(rng.randrange(3, 20), 3), (rng.randrange(20, 80), 3), (rng.randrange(100, 300), 1)])
        if tier == 'thorough' and rng.chance(0.05):
            n = 1500
        drive = worlds.gen_drive(rng, n, qt=c['qt'], amp=rng.pick([0.5, 1, 3]))
        rows, _ = worlds.simulate_rows(c, drive, e['behavior'], noise=rng.pick([0, e['sensor'], 5 * e['sensor']]),
                                       noise_seed=rng.randrange(10 ** 6))
        link = worlds.gen_link(rng, n, rate=rng.pick([0.02, 0.1, 0.3])) if rng.chance(0.9) else []
        kinds = [k for k in ('big', 'zero', 'gap', 'repeat', 'current', 'hot', 'swap') if rng.chance(0.3)]
        faults = []
        for i in range(len(rows)):
            for k in kinds:
                if rng.chance(0.05):
                    faults.append([i, k, rng.r(-1, 1, 3)])
        zero = rng.pick(['no', 'no', 'no', 'hyst', 'all'])  # States known exactly, and without process noise
        return {'circuit': c, 'est': e, 'rows': rows, 'link': link, 'faults': faults, 'absolute': absolute, 'zero': zero,
                'every': rng.pick([1, 3, 10])}

    def simplify(self, plan):
        for k, v in [('zero', 'no')]:
            if plan[k] != v:
                yield {**plan, k: v}
        for k, v in [('degrade', 0), ('kappa', 0.0), ('beta', 2.0)]:
            if plan['est'][k] != v:
                yield {**plan, 'est': {**plan['est'], k: v}}

    def _rows(self, plan, ctx):
        rows = [[x if math.isfinite(x) else 25. for x in r]
                for r in worlds.deliver(plan['rows'], plan['link'], ctx.faults)]
        active = {}
        shift = 0.0
        qt = plan['circuit']['qt']
        extra = {}
        for i, k, x in plan['faults']:
            if i >= len(rows):
                continue
            active[i] = k
            ctx.faults[k] += 1
            if k == 'big':
                rows[i][3] = 5 + 5 * x
                ctx.probes['big-spike'] += 1
            elif k == 'zero':
                rows[i][3] = 0.0
            elif k == 'gap':
                extra[i] = 86400 * abs(x) ** 3
                ctx.probes['long-gap'] += 1
            elif k == 'repeat' and i:
                extra[i] = None
            elif k == 'current':
                rows[i][1] = 10 * x * qt
            elif k == 'hot':
                rows[i][2] = 25 + 40 * x
            elif k == 'swap':
                rows[i][3], rows[i - 1][3] = rows[i - 1][3], rows[i][3]
        out = []
        for i, r in enumerate(rows):
            shift += extra.get(i) or 0.0
            t = r[0] + shift
            if i in extra and extra[i] is None and out:
                t = out[-1][0]
                ctx.probes['repeated-time'] += 1
            out.append([max(t, out[-1][0]) if out else t, *r[1:]])
        return out, active

    def execute(self, plan, ctx):
        c, e = plan['circuit'], plan['est']
        rows, active = self._rows(plan, ctx)
        if not rows:
            return
        with sut('build'):
            p = worlds.estimator_parts(c, e, first=rows[0][:3])
            nt = worlds.num_transients(c)
            if plan['zero'] != 'no':
                k = nt - 1
                p['ct'][k, k] = 0
                if plan['zero'] == 'all':
                    p['ct'][:] = p['wt'][:] = 0
                ctx.probes['zero-noise-state'] += 1
            est = worlds.build_estimator(c, e, parts=p, absolute=plan['absolute'])
            names = tuple(est.state_names)
            outputs = tuple(est.output_names)
        want = expected_names(c, e)
        require(names == want, 'wrong-names', lambda: f'{names} rather than {want}')
        require(outputs == ('terminal_voltage',), 'wrong-names', lambda: f'outputs {outputs}')
        with sut('names'):
            controls = tuple(est.control_names)
        require(controls == ('time', 'current', 'temperature'), 'wrong-names', lambda: f'controls {controls}')
        n = len(want)
        require(est.num_state_dimensions == n and est.num_output_dimensions == 1, 'wrong-size/dimensions',
                lambda: f'{est.num_state_dimensions}, {est.num_output_dimensions} dimensions rather than {n}, 1')
        noise = float(p['v'][0, 0])
        previous = p['inputs']
        for k, r in enumerate(rows):
            what = f'step {k} of {len(rows)}'
            x, y = worlds.make_input(*r[:3]), worlds.make_meas(r[3])
            prior = None
            # Singular covariances are shifted by round-off of their largest entry, which includes the sensor noise
            if k % plan['every'] == 0 and np.min(np.linalg.eigvalsh(worlds.dist_arrays(est.state)[1])) > 1e-12:
                with sut('restart'):
                    blind = worlds.restart(est, c, e, p, previous, sensor=np.array([[1.]]), absolute=plan['absolute'])
                    prior = worlds.dist_arrays(blind.step(x, y)[0])[1]
            m0, before = worlds.dist_arrays(est.state)
            with sut('step'):
                state, output = est.step(x, y)
            previous = x
            mean, cov = check_distribution(state, n, 'state', what)
            ym, yc = check_distribution(output, 1, 'output', what)
            require(yc[0, 0] >= noise * (1 - 1e-9), 'below-sensor-noise',
                    lambda: f'{what}: variance of the output {yc[0, 0]} with a sensor noise of {noise}')
            require(worlds.same_dist(est.state, state), 'kept-differs', f'{what}: the state kept is not the one returned')
            if prior is not None:
                big = np.linalg.norm(prior) + np.linalg.norm(before)
                excess = np.diag(cov) - np.diag(prior) * (1 + 1e-6) - 1e-10 * big \
                    - (1e-12 * np.maximum(np.abs(m0), np.abs(mean))) ** 2  # Round-off of estimates which diverged
                j = int(np.argmax(excess))
                require(excess[j] <= 0, 'variance-increased',
                        lambda: f'{what}: {names[j]} has variance {cov[j, j]} although {prior[j, j]} without measurement')
                ctx.probes['prediction-compared'] += 1
            ctx.probes['singular'] += bool(np.min(np.linalg.eigvalsh(before)) <= 1e-14)
            ctx.steps += 1
            ctx.log(k, mean, cov, ym, yc)
            ctx.sig(e['kind'], e['names'], plan['absolute'], e['normalize'], e['behavior'], active.get(k), r[3] > ym[0])
            if abs(mean[0]) > 10 or abs(ym[0]) > 100:
                # The open-circuit voltage is extrapolated by a cubic, so such estimates soon reach the limits of
                # floating point numbers. No circuit has a meaning there
                ctx.probes['diverged'] += 1
                break
        ctx.sim_time += rows[-1][0] - rows[0][0]
        ctx.probes[e['kind']] += 1
        ctx.probes['absolute'] += plan['absolute']
        ctx.probes['normalize'] += e['normalize']
