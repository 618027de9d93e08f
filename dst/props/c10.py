import copy
import math

import numpy as np

from dst import refs, worlds
from dst.core import Property, require, sut

TOL = 1e-6


def correlate(diagonal, seed):
    """Full covariance with the given variances"""
    n = len(diagonal)
    if seed is None or n < 2:
        return np.array(diagonal)
    gen = np.random.default_rng(seed)
    a = gen.normal(size=(n, 2 * n + 1))
    c = a @ a.T
    d = np.sqrt(np.diag(c))
    s = np.sqrt(np.diag(diagonal))
    return (c / np.outer(d, d)) * np.outer(s, s)


def conditioned(cov, low=1e-6):
    d = np.diag(cov)
    if not np.all(np.isfinite(cov)) or np.any(d <= 0):
        return False
    d = np.sqrt(d)
    return np.min(np.linalg.eigvalsh(cov / np.outer(d, d))) > low


def aging(rate):
    """Degradation by the same factor every step"""
    from moirae.models.base import DegradationModel

    class Aging(DegradationModel):
        def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
            new = previous_asoh.model_copy(deep=True)
            new.r0.base_values = previous_asoh.r0.base_values * (1 + rate)
            return new
    return Aging()


def reference(c, e, mean, cov, p, previous, new, y, names, rate=0., absolute=()):
    """Distributions expected after the step, from those before it. Missing if not decided by double precision"""
    base = refs.Cell(c, e['behavior'], ocv=worlds.ocv_points('linear'))
    nt = len(base.names())
    factor = np.concatenate([np.full(k, 1 + rate * (name == 'r0.base_values'))
                             for name, k in zip(names, base.lengths(names))])
    ukf = refs.Ukf(e['alpha'], e['beta'], e['kappa'])
    ukf2 = refs.Ukf(*e['second']) if e.get('second') else ukf
    meas = np.array([y])
    absolute = list(absolute)

    def health(x):
        x = np.array(x, copy=True)
        x[absolute] = np.abs(x[absolute])
        return x

    if e['kind'] == 'joint':
        def f(x):
            theta = health(x[nt:])
            return np.concatenate([base.with_health(names, theta).step(x[:nt], previous, new), theta * factor])

        def h(x):
            return np.array([base.with_health(names, health(x[nt:])).voltage(x[:nt], new)])
        n = len(mean)
        w = np.zeros((n, n))
        w[:nt, :nt], w[nt:, nt:] = p['wt'], p['wa']
        w = p.get('wj', w)
        r = ukf.step(f, h, mean, cov, w, p['v'], meas)
        return None if r is None else [('state', slice(0, n), r)], r
    fixed = base.with_health(names, mean[nt:])
    t = ukf.step(lambda x: fixed.step(x, previous, new), lambda x: np.array([fixed.voltage(x, new)]),
                 mean[:nt], cov[:nt, :nt], p['wt'], p['v'], meas)
    x0 = mean[:nt]

    def g(theta):
        cell = base.with_health(names, health(theta))
        return np.array([cell.voltage(cell.step(x0, previous, new), new)])
    a = ukf2.step(lambda x: health(x) * factor, g, mean[nt:], cov[nt:, nt:], p['wa'], p['v'], meas)
    out = []
    if t is not None:
        out.append(('transient', slice(0, nt), t))
    if a is not None:
        out.append(('health', slice(nt, len(mean)), a))
    return out, t


def magnitudes(r, part, nt, absolute):
    """The posterior as given by coordinates which enter by their magnitude. Missing if its signs are not decided"""
    mean, cov = r['posterior']
    sign = np.ones(len(mean))
    for i in absolute:
        j = nt + i - part.start
        if 0 <= j < len(mean):
            if abs(mean[j]) < 1e-4 * np.sqrt(abs(r['prior'][1][j, j])):
                return None
            sign[j] = np.sign(mean[j])
    return {**r, 'posterior': (mean * sign, cov * np.outer(sign, sign)), 'mirrored': bool(np.any(sign < 0))}


# Parameters which are estimated in few runs
RARE = ['ce', 'ocv.ocv_ref.reference_temperature', 'ocv.ocv_ent.base_values', 'r0.temperature_dependence_factor', 'h0.gamma',
        'ocv.ocv_ref.base_values', 'c0.base_values', 'r.temperature_dependence_factor', 'c.base_values']


class PROPERTY(Property):
    id = 'C10'
    level = 'exploration'
    technique = 'refinement of every step along faulty telemetry against an independent filter and circuit'
    note = ('Each step starts from the estimate of the estimator itself, so errors do not accumulate. Steps which double '
            'precision does not decide (singular covariances, negative variance of the output) are skipped and counted.')
    rule = ('A run steps one estimator over records of a link with faults. Before each step, the reference computes the '
            'distributions which the step has to return.')
    sim_measure = ('distinct (estimator, parameters, tuning, conversions, noise structure, current behaviour, circuit size, '
                   'kind of record) reached')
    components = {'real': ['JointEstimator', 'DualEstimator', 'UnscentedKalmanFilter', 'model wrappers',
                           'LinearConversionOperator', 'AbsoluteValueConversionOperator', 'EquivalentCircuitModel', 'ECMASOH'],
                  'stub': ['cell (simulated)', 'telemetry link']}
    assumptions = ['Degradation does not depend on the inputs', 'Linear conversions which are scalar, diagonal or triangular']
    expected_probes = ['joint', 'dual', 'conversion-none', 'conversion-normalize', 'conversion-linear', 'compared',
                       'correlated', 'alpha<1', 'long-gap', 'current-reversal', 'repeated-time', 'negative-weight',
                       'several-values', 'conversion-wrappers', 'default-noise', 'joint-covariance', 'joint-noise',
                       'degradation', 'reordered', 'not-estimated', 'uncertain-inputs', 'different-outputs', 'own-tuning', 'mixed', *RARE, 'zero-valued',
                       'conversion-absolute', 'mirrored', 'scalar', 'one-default']
    quick_runs = 1500
    thorough_runs = 16000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng)
        if rng.chance(0.4):
            c['extra'] = worlds.gen_extra(rng, c, styles=worlds.SMOOTH)
        e = worlds.gen_estimator(rng, c, rare=0.35)
        e['degrade'] = 0
        e['alpha'] = rng.pick([1.0, 1.0, 0.5, 0.1])
        e['cov_rel'] = rng.pick([0.02, 0.05])
        e['kappa'] = rng.pick([0.0, 0.0, 1.0, 2.5, 'automatic'])
        # The filter of the health parameters may have a tuning of its own, or that which is the default
        tuning2 = rng.weighted([(None, 4), ('default', 1), ('own', 2)]) if e['kind'] == 'dual' else None
        if tuning2 == 'own':
            e['second'] = [rng.pick([1.0, 0.5, 0.1]), rng.pick([2.0, 0.0, 1.0]), rng.pick([0.0, 1.0, 'automatic'])]
        elif tuning2 == 'default':
            e['second'] = [1.0, 2.0, 0.0]
        if rng.chance(0.3) and e['behavior'] == 'constant':
            e['behavior'] = 'linear'
        conv = rng.weighted([('none', 2), ('normalize', 2), ('linear', 2), ('wrappers', 2), ('absolute', 1)])
        e['normalize'] = conv == 'normalize'
        n = rng.weighted([(rng.randrange(2, 8), 3), (rng.randrange(8, 40), 2)])
        drive = worlds.gen_drive(rng, n, qt=c['qt'], amp=rng.pick([0.5, 1, 2]))
        if rng.chance(0.5):  # A current which changes with every record
            for d in drive:
                d[1] = round(d[1] * rng.r(-1.2, 1.2, 3), 4)
        if rng.chance(0.5):
            for d in drive:
                d[2] = rng.r(-5, 45, 1)
        rows, _ = worlds.simulate_rows(c, drive, e['behavior'], noise=e['sensor'], noise_seed=rng.randrange(10 ** 6))
        link = worlds.gen_link(rng, n, rate=rng.pick([0, 0.05, 0.15]))
        lin = None
        if conv == 'linear':
            k = worlds.num_transients(c) + 60
            lin = {'scale': [rng.logu(0.05, 20) for _ in range(k)],
                   'shift': [rng.r(-2, 2, 3) if rng.chance(0.5) else 0. for _ in range(k)],
                   # The two filters of a dual estimator may use different coordinates
                   'out': [[rng.logu(0.1, 10), rng.r(-3, 3, 2)] for _ in range(2)],
                   'mixed': rng.randrange(10 ** 6) if rng.chance(0.4) else None, 'scalar': rng.chance(0.25),
                   # A current of zero stays exactly zero, as its sign decides on the coulombic efficiency
                   'ctl': [[[rng.logu(0.1, 10) for _ in range(3)], [rng.r(-5, 5, 2), 0., rng.r(-5, 5, 2)]]
                           for _ in range(2)]}
            if lin['scalar']:
                lin['mixed'] = None
        names = refs.health_order(e['names'])
        extra = []
        if conv in ('linear', 'wrappers', 'absolute') and rng.chance(0.5):
            rng.shuffle(names)
            extra = [o for o in worlds.updatable_options(c) if o not in names and rng.chance(0.5)]
        return {'circuit': c, 'est': e, 'rows': rows, 'link': link, 'conv': conv, 'linear': lin,
                'full': rng.randrange(10 ** 6) if rng.chance(0.5) else None,
                'order': names, 'extra': extra, 'rate': rng.pick([0, 1e-3, 0.02]) if conv in ('linear', 'wrappers', 'absolute') else 0,
                'absolute': [rng.chance(0.7) for _ in range(60)] if conv == 'absolute' else None,
                'boost': rng.pick([1, 20, 40]) if conv == 'absolute' else 1,
                'one_default': rng.pick([None, 'wt', 'wa']) if e['kind'] == 'dual' else None,
                'default': [rng.chance(0.3), rng.chance(0.3)] if conv in ('none', 'wrappers', 'absolute') else [False, False],
                'joint': [rng.chance(0.4), rng.chance(0.4)] if e['kind'] == 'joint' else [False, False],
                'second': tuning2, 'inputs_none': rng.chance(0.5), 'inputs_cov': rng.randrange(10 ** 6) if rng.chance(0.3) else None}

    def simplify(self, plan):
        for k, v in [('full', None), ('extra', []), ('rate', 0), ('default', [False, False]), ('joint', [False, False]),
                     ('inputs_cov', None), ('boost', 1), ('one_default', None), ('order', refs.health_order(plan['order']))]:
            if plan[k] != v:
                yield {**plan, k: v}
        if plan['conv'] != 'none':
            yield {**plan, 'conv': 'none', 'linear': None, 'absolute': None, 'boost': 1, 'est': {**plan['est'], 'normalize': False}, 'rate': 0,
                   'extra': [], 'order': refs.health_order(plan['order'])}
        if plan['linear'] and plan['linear']['scalar']:
            yield {**plan, 'linear': {**plan['linear'], 'scalar': False}}
        if plan['linear'] and plan['linear']['mixed'] is not None:
            yield {**plan, 'linear': {**plan['linear'], 'mixed': None}}
        if plan['second'] is not None:
            yield {**plan, 'second': None, 'est': {k: v for k, v in plan['est'].items() if k != 'second'}}
        for k, v in [('kappa', 0.0), ('beta', 2.0), ('alpha', 1.0), ('behavior', 'constant')]:
            if plan['est'][k] != v:
                yield {**plan, 'est': {**plan['est'], k: v}}
        if len(plan['order']) > 1 or plan['order'] != ['r0.base_values']:
            for n in plan['order'][:1] + ['r0.base_values']:
                yield {**plan, 'est': {**plan['est'], 'names': [n]}, 'order': [n], 'extra': []}
        c = plan['circuit']
        if c.get('extra'):
            yield {**plan, 'circuit': {**c, 'extra': {}}}
        for k, v in [('rc', []), ('c0', None), ('ocv', 'linear'), ('ce', 1.0), ('tdep', 0.), ('ent', 0.)]:
            if c[k] != v and not (k == 'rc' and any(n.startswith('rc') for n in plan['est']['names'])):
                yield {**plan, 'circuit': {**c, k: v}}

    def _parts(self, plan, first):
        """Everything needed to build the estimator"""
        p = worlds.estimator_parts(plan['circuit'], plan['est'], first=first)
        names, full = plan['order'], plan['full']
        for n in plan['extra']:
            p['asoh'].mark_updatable(n)
        if names != refs.health_order(names):
            canonical = {n: p['asoh'].get_parameters([n]).shape[1] for n in refs.health_order(names)}
            index, pos = {}, 0
            for n, k in canonical.items():
                index[n] = list(range(pos, pos + k))
                pos += k
            index = [i for n in names for i in index[n]]
            p['ca'], p['wa'] = p['ca'][np.ix_(index, index)], p['wa'][np.ix_(index, index)]
        if plan['boost'] != 1:  # Some sigma points of resistances become negative
            b = np.concatenate([np.full(p['asoh'].get_parameters([n]).shape[1],
                                        plan['boost'] if n.startswith(('r0.base', 'h0.base')) or n.endswith('.r.base_values')
                                        else 1.) for n in names])
            p['ca'] = p['ca'] * np.outer(b, b)
        for i, k in enumerate(['ct', 'ca', 'wt', 'wa']):
            p[k] = correlate(p[k], None if full is None else full + i)
        if plan['joint'][0]:
            from scipy.linalg import block_diag
            p['cj'] = correlate(block_diag(p['ct'], p['ca']), 5 if full is None else full + 5)
        if plan['joint'][1]:
            from scipy.linalg import block_diag
            p['wj'] = correlate(block_diag(p['wt'], p['wa']), 6 if full is None else full + 6)
        if plan['inputs_cov'] is not None:
            p['u'] = correlate(np.diag([1e-2, 1e-1, 1.]), plan['inputs_cov'])
        return p

    def _build(self, plan, p):
        c, e, lin = plan['circuit'], plan['est'], plan['linear']
        from moirae.estimators.online.filters.conversions import LinearConversionOperator as Lin, AbsoluteValueConversionOperator as Abs
        from moirae.estimators.online.joint import JointEstimator
        from moirae.estimators.online.dual import DualEstimator
        from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper
        joint = e['kind'] == 'joint'
        args = dict(covariance_transient=p['ct'], covariance_asoh=p['ca'], covariance_sensor_noise=p['v'],
                    transient_covariance_process_noise=p['wt'], asoh_covariance_process_noise=p['wa'],
                    inputs_uncertainty=p.get('u'),
                    filter_args=worlds.tuning(e) if joint else {'transient': worlds.tuning(e), 'asoh': worlds.tuning(e)})
        if plan['second'] == 'default':
            del args['filter_args']['asoh']
        elif plan['second'] == 'own':
            args['filter_args']['asoh'] = worlds.tuning(dict(zip(['alpha', 'beta', 'kappa'], e['second'])))
        if plan['default'][0]:
            if plan['one_default'] != 'wa':
                del args['transient_covariance_process_noise']
            if plan['one_default'] != 'wt':
                del args['asoh_covariance_process_noise']
        if plan['default'][1]:
            del args['covariance_sensor_noise']
        if 'cj' in p:
            args['covariance_joint'] = p['cj']
            del args['covariance_transient'], args['covariance_asoh']
        if 'wj' in p and not plan['default'][0]:
            args['joint_covariance_process_noise'] = p['wj']
            del args['transient_covariance_process_noise'], args['asoh_covariance_process_noise']
        if plan['conv'] in ('none', 'normalize'):
            return (JointEstimator if joint else DualEstimator).initialize_unscented_kalman_filter(
                cell_model=p['model'], initial_asoh=p['asoh'], initial_transients=p['transients'],
                initial_inputs=p['inputs'], normalize_asoh=e['normalize'], **args)
        nt, na = len(p['ct']), len(p['ca'])

        def conv(part, k):
            if plan['absolute']:
                index = self._absolute(plan, p)
                if part == slice(0, nt):
                    return {}
                if part == slice(None):
                    index = [nt + i for i in index]
                elif len(index) == na:
                    index = None  # All of them
                return {'converters': {'hidden_conversion_operator': Abs(indices=index)}}
            if lin is None:
                return {}
            scale, shift = np.array(lin['scale'][:nt + na]), np.array(lin['shift'][:nt + na])
            # Parameters of very different size, so that the scale follows them
            size = np.abs(p['asoh'].get_parameters(plan['order']).flatten())
            size = np.where(size == 0, 1., size)
            scale[nt:] *= size
            shift[nt:] *= size
            out, ctl = lin['out'][k], lin['ctl'][k]
            multi = scale[part]
            if lin['scalar']:  # All are scaled by the same factor
                f = scale[0]
                return {'converters': {
                    'hidden_conversion_operator': Lin(multiplicative_array=np.array(f), additive_array=shift[part])
                    if np.any(shift[part]) else Lin(multiplicative_array=np.array(f)),
                    'output_conversion_operator': Lin(multiplicative_array=np.array(out[0]), additive_array=np.array(out[1])),
                    'control_conversion_operator': Lin(multiplicative_array=np.array(ctl[0][0]),
                                                       additive_array=np.array(ctl[1]))}}
            if lin['mixed'] is not None:  # Coordinates are mixed such that the sigma points remain the same
                sd = np.sqrt(np.concatenate([np.diag(p['ct']), np.diag(p['ca'])]))[part]
                mix = np.triu(np.random.default_rng(lin['mixed']).uniform(-0.6, 0.6, (len(sd), len(sd))), 1)
                multi = np.diag(multi) + mix * multi[:, None] * sd / sd[:, None]
                p.setdefault('mixed', {})[str(part)] = multi
            return {'converters': {
                'hidden_conversion_operator': Lin(multiplicative_array=multi, additive_array=shift[part]),
                'output_conversion_operator': Lin(multiplicative_array=np.array(out[:1]), additive_array=np.array(out[1:])),
                'control_conversion_operator': Lin(multiplicative_array=np.array(ctl[0]), additive_array=np.array(ctl[1]))}}
        base = dict(cell_model=p['model'], asoh=p['asoh'], transients=p['transients'], inputs=p['inputs'])
        health = dict(asoh_inputs=tuple(plan['order']))
        if plan['inputs_none'] and plan['order'] == refs.health_order(plan['order']) and not plan['extra']:
            health = {}  # All which are marked as updatable
        if plan['rate']:
            health['degradation_model'] = aging(plan['rate'])
        if joint:
            return JointEstimator.initialize_ukf_from_wrapper(
                joint_wrapper=JointCellModelWrapper(**base, **health, **conv(slice(None), 0)), **args)
        return DualEstimator.initialize_ukf_from_wrappers(
            transient_wrapper=CellModelWrapper(**base, **conv(slice(0, nt), 0)),
            asoh_wrapper=DegradationModelWrapper(**base, **health, **conv(slice(nt, None), 1)), **args)

    @staticmethod
    def _absolute(plan, p):
        """Health parameters which enter by their magnitude"""
        if not plan['absolute']:
            return []
        values = p['asoh'].get_parameters(plan['order']).flatten()
        return [i for i, v in enumerate(values) if v > 0 and plan['absolute'][i % 60]]

    @staticmethod
    def _summed(p, e, nt, part, cov):
        """Deviations of what is added up to obtain the values from mixed coordinates"""
        multi = p['mixed'][str(slice(None) if e['kind'] == 'joint' else part if part.start == 0 else slice(nt, None))]
        inverse = np.linalg.inv(multi)
        return (np.abs(multi) * np.sqrt(np.abs(np.diag(inverse.T @ cov @ inverse)))[:, None]).sum(axis=0)

    @staticmethod
    def _same_state(est, mean, cov, what, mixed=False):
        with sut('state'):
            m, c = worlds.dist_arrays(est.state)
        sd = np.sqrt(np.abs(np.diag(cov)))
        size = np.abs(mean) + sd
        if mixed:  # The states are combined to obtain those of the filter
            sd, size = np.full(len(sd), np.max(sd)), np.full(len(sd), np.max(size))
        require(m.shape == mean.shape and np.all(np.abs(m - mean) <= 1e-9 * size), 'state-mean',
                lambda: f'{what}: the mean of the state is {m} rather than {mean}')
        require(c.shape == cov.shape and np.all(np.abs(c - cov) <= 1e-9 * np.outer(sd, sd)), 'state-covariance',
                lambda: f'{what}: the covariance of the state is {c} rather than {cov}')

    def execute(self, plan, ctx):
        c, e = plan['circuit'], plan['est']
        rows = [[x if math.isfinite(x) else 25. for x in r] for r in worlds.deliver(plan['rows'], plan['link'], ctx.faults)]
        if not rows:
            return
        full = plan['full']
        with sut('build'):
            p = self._parts(plan, rows[0][:3])
            noise = copy.deepcopy({k: p[k] for k in ('wt', 'wa', 'v', 'wj') if k in p})
            est = self._build(plan, p)
        if plan['default'][0]:  # As documented
            noise.pop('wj', None)
            noise.update({k: 1e-8 * np.eye(len(noise[k])) for k in ('wt', 'wa') if plan['one_default'] in (None, k)})
        if plan['default'][1]:
            noise['v'] = 1e-8 * np.eye(1)
        # The estimator begins with what it was given
        t0, a0 = p['transients'].to_numpy()[0], p['asoh'].get_parameters(plan['order'])[0]
        nt = len(t0)
        given = np.zeros((nt + len(a0),) * 2)
        given[:nt, :nt], given[nt:, nt:] = p['ct'], p['ca']
        given = p.get('cj', given)
        self._same_state(est, np.concatenate([t0, a0]), given, 'initially', 'mixed' in p)
        fixed = {n: np.array(v) for n, v in p['asoh'].iter_parameters(updatable_only=False) if n not in plan['order']}
        previous = rows[0][:3]
        absolute = self._absolute(plan, p)
        for k, r in enumerate(rows):
            new, y = r[:3], r[3]
            mean, cov = worlds.dist_arrays(est.state)
            if not np.all(np.isfinite(mean)) or np.max(np.abs(mean)) > 1e6 or abs(mean[0]) > 5:
                ctx.probes['diverged'] += 1
                break
            parts, predicted = reference(c, e, mean, cov, noise, previous, new, y, plan['order'], plan['rate'],
                                         absolute) \
                if conditioned(cov, 1e-7) else ([], None)
            if 'mixed' in p and parts:
                n = len(mean)
                if any(np.any(self._summed(p, e, nt, q, cov[q, q]) > 300 * np.sqrt(np.diag(cov)[q]))
                       for q in ([slice(0, n)] if e['kind'] == 'joint' else [slice(0, nt), slice(nt, n)])):
                    parts, predicted = [], None
                    ctx.probes['skipped-mixed'] += 1
            if predicted is not None and not all(np.all(np.abs(x) < 1e12) for r in [predicted] + [q[2] for q in parts]
                                                 for key in ('prior', 'output', 'posterior') for x in r[key]):
                ctx.probes['diverged'] += 1
                break
            if predicted is not None and any(abs(r['output'][0][0]) > 30 for r in [predicted] + [q[2] for q in parts]):
                ctx.probes['diverged'] += 1  # Digits are lost when slopes multiplied by time constants cancel
                break
            with sut('step'):
                state, output = est.step(worlds.make_input(*new), worlds.make_meas(y))
            m1, c1 = worlds.dist_arrays(state)
            ym, yc = worlds.dist_arrays(output)
            what = f'step {k} of {len(rows)}'
            if predicted is not None and predicted['output'][1][0, 0] > 0.5 * noise['v'][0, 0]:
                rm, rc = predicted['output']
                tol = TOL * predicted['total']
                sd = np.sqrt(rc[0, 0])
                require(abs(ym[0] - rm[0]) <= tol * sd + 1e-9, 'output-mean',
                        lambda: f'{what}: predicted output {ym[0]} rather than {rm[0]} +- {sd}')
                require(abs(yc[0, 0] - rc[0, 0]) <= tol * rc[0, 0], 'output-variance',
                        lambda: f'{what}: variance of the output {yc[0, 0]} rather than {rc[0, 0]}')
            for label, part, ref in parts or []:
                ref = magnitudes(ref, part, nt, absolute)
                if ref is None:
                    ctx.probes['skipped-sign'] += 1
                    continue
                ctx.probes['mirrored'] += ref['mirrored']
                if ref['output'][1][0, 0] < 0.5 * noise['v'][0, 0]:
                    ctx.probes['skipped-negative-output'] += 1
                    continue
                rm, rc = ref['posterior']
                if not conditioned(rc):
                    ctx.probes['skipped-singular'] += 1
                    continue
                sd = np.sqrt(np.abs(np.diag(ref['prior'][1])))
                if 'mixed' in p:
                    alone, sd = sd, self._summed(p, e, nt, part, ref['prior'][1])
                    if np.any(sd > 300 * alone):
                        ctx.probes['skipped-mixed'] += 1
                        continue
                gain = max(1., abs(y - ref['output'][0][0]) / np.sqrt(ref['output'][1][0, 0]))
                tol = TOL * ref['total'] * gain
                err = np.abs(m1[part] - rm) / (tol * sd + 1e-9 * np.abs(rm))
                j = int(np.argmax(err))
                require(err[j] <= 1, f'posterior-mean/{label}',
                        lambda: f'{what}: {label} {j} is {m1[part][j]} rather than {rm[j]}, with deviation {sd[j]} before')
                err2 = np.abs(c1[part, part] - rc) / (tol * np.outer(sd, sd))
                i, j = np.unravel_index(np.argmax(err2), err2.shape)
                require(err2[i, j] <= 1, f'posterior-covariance/{label}',
                        lambda: f'{what}: covariance of {label} {i}, {j} is {c1[part, part][i, j]} rather than {rc[i, j]}')
                ctx.probes['compared'] += 1
                ctx.probes['negative-weight'] += ref['total'] > 4
            if not parts:
                ctx.probes['skipped-singular'] += 1
            if np.all(np.isfinite(m1)) and k % 5 == 0:
                self._same_state(est, m1, c1, what, 'mixed' in p)
                with sut('estimates'):
                    t2, a2 = est.get_estimated_state()
                    have = np.concatenate([t2.to_numpy()[0], a2.get_parameters(plan['order'])[0]])
                    left = {n: np.array(v) for n, v in a2.iter_parameters(updatable_only=False) if n not in plan['order']}
                require(np.allclose(have, m1, rtol=1e-9, atol=1e-12), 'estimated-state', lambda: f'{what}: {have} rather than {m1}')
                require(list(left) == list(fixed) and all(np.array_equal(left[n], fixed[n]) for n in fixed), 'not-estimated-changed',
                        lambda: f'{what}: {[n for n in fixed if not np.array_equal(left.get(n), fixed[n])]}')
            if e['kind'] == 'dual':
                nt = len(noise['wt'])
                require(not np.any(c1[:nt, nt:]) and not np.any(c1[nt:, :nt]), 'posterior-covariance/cross',
                        lambda: f'{what}: filters of the dual estimator are correlated')
            gap = new[0] - previous[0]
            kind = ('first' if k == 0 else 'repeat' if gap == 0 else 'gap' if gap > 40 else 'normal',
                    np.sign(previous[1]) * np.sign(new[1]))
            ctx.probes['repeated-time'] += k > 0 and gap == 0
            ctx.probes['long-gap'] += gap > 40
            ctx.probes['current-reversal'] += previous[1] * new[1] < 0
            previous = new
            ctx.steps += 1
            ctx.log(k, m1, c1, ym, yc)
            ctx.sig(e['kind'], plan['order'], bool(plan['rate']), plan['joint'], plan['default'], e['alpha'], e['kappa'] == 'automatic', plan['conv'], full is None, e['behavior'],
                    len(c['rc']), c['c0'] is None, *kind)
        ctx.sim_time += rows[-1][0] - rows[0][0]
        for n in plan['order']:
            if n.split('.', 2)[-1] in RARE or n in RARE:
                ctx.probes[n if n in RARE else n.split('.', 2)[-1]] += 1
        ctx.probes['zero-valued'] += bool(np.any(a0 == 0))
        ctx.probes[e['kind']] += 1
        ctx.probes['conversion-' + plan['conv']] += 1
        ctx.probes['scalar'] += bool(plan['linear'] and plan['linear']['scalar'])
        ctx.probes['one-default'] += bool(plan['default'][0] and plan['one_default'])
        ctx.probes['correlated'] += full is not None
        ctx.probes['alpha<1'] += e['alpha'] < 1
        ctx.probes['several-values'] += len(c['r0']) > 1
        ctx.probes['default-noise'] += any(plan['default'])
        ctx.probes['joint-covariance'] += plan['joint'][0]
        ctx.probes['joint-noise'] += plan['joint'][1] and not plan['default'][0]
        ctx.probes['degradation'] += bool(plan['rate'])
        ctx.probes['reordered'] += plan['order'] != refs.health_order(plan['order'])
        ctx.probes['not-estimated'] += bool(plan['extra'])
        ctx.probes['uncertain-inputs'] += plan['inputs_cov'] is not None
        ctx.probes['mixed'] += plan['conv'] == 'linear' and plan['linear']['mixed'] is not None
        ctx.probes['own-tuning'] += plan['second'] is not None
        ctx.probes['different-outputs'] += plan['conv'] == 'linear' and e['kind'] == 'dual'
