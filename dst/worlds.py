"""Simulated deployments: cells, drive profiles, telemetry links and estimators, built from JSON"""
import math

import numpy as np

from dst import refs, seams


# ----------------------------------------------------------------------------- circuits
def gen_circuit(rng, rich=True, max_rc=2):
    c = {
        'qt': rng.r(1, 12, 2), 'ce': 1.0 if rng.chance(0.6) else rng.r(0.9, 0.999, 3),
        'r0': [rng.r(0.01, 0.08, 4)], 'h0': [0.0] if rng.chance(0.4) else [rng.r(0.01, 0.08, 3)],
        'c0': None, 'rc': [], 'ocv': 'linear' if rng.chance(0.5) else 'default', 'gamma': 0.9,
        'tdep': 0.0025, 'ent': 0.005,
    }
    if rng.chance(0.35):
        c['c0'] = [rng.r(2000, 20000, 0)]
    for _ in range(rng.randrange(max_rc + 1)):
        c['rc'].append([[rng.r(0.005, 0.05, 4)], [rng.r(200, 8000, 0)]])
    if rich:
        if rng.chance(0.25):
            c['r0'] = [rng.r(0.01, 0.08, 4) for _ in range(rng.randrange(2, 5))]
        if rng.chance(0.2) and c['h0'] != [0.0]:
            c['h0'] = [rng.r(0.01, 0.08, 3) for _ in range(rng.randrange(2, 4))]
        if rng.chance(0.2) and c['c0']:
            c['c0'] = [rng.r(2000, 20000, 0) for _ in range(3)]
        for k in range(len(c['rc'])):
            if rng.chance(0.2):
                c['rc'][k][0] = [rng.r(0.005, 0.05, 4) for _ in range(3)]
            if rng.chance(0.15):
                c['rc'][k][1] = [rng.r(200, 8000, 0) for _ in range(2)]
        if rng.chance(0.3):
            c['tdep'] = rng.r(0, 0.01, 4)
        if rng.chance(0.3):
            c['ent'] = rng.r(0, 0.01, 4)
        if rng.chance(0.3):
            c['gamma'] = rng.r(0, 5, 2)
    return c


STYLES = ['linear', 'slinear', 'quadratic', 'cubic', 'nearest', 'nearest-up', 'zero', 'previous', 'next']
SMOOTH = STYLES[:4]


def gen_extra(rng, c, styles=STYLES):
    """How the components interpolate their values and depend on the temperature, if they differ from the default"""
    sizes = {'r0': len(c['r0']), 'h0': len(c['h0']), 'ref': 20 if c['ocv'] == 'default' else 9}
    if c['c0'] is not None:
        sizes['c0'] = len(c['c0'])
    for k, rc in enumerate(c['rc']):
        sizes[f'rc{k}r'], sizes[f'rc{k}c'] = len(rc[0]), len(rc[1])
    values = {'r0': c['r0'], 'h0': c['h0'], 'c0': c['c0']}
    for k, (r, f) in enumerate(c['rc']):
        values[f'rc{k}r'], values[f'rc{k}c'] = r, f
    extra = {}
    if rng.chance(0.3):
        sizes['ent'] = rng.randrange(2, 5)
        extra['ent'] = {'rel': [rng.r(-1, 2, 2) for _ in range(sizes['ent'])]}
    for part, n in sizes.items():
        e = extra.get(part, {})
        if n > 1 and rng.chance(0.6):
            e['style'] = rng.pick([s for s in styles if n > {'quadratic': 2, 'cubic': 3}.get(s, 1)])
        if n > 1 and rng.chance(0.5):
            for _ in range(20):
                grid = [0.] + sorted(rng.r(0.02, 0.98, 3) for _ in range(n - 2)) + [1.]
                if all(b - a > 0.3 / n for a, b in zip(grid, grid[1:])):
                    e['grid'] = grid
                    break
        if part in values and e.get('style') in ('quadratic', 'cubic'):  # Polynomials must not undershoot zero
            curve = refs.Curve(values[part], grid=e.get('grid'), style=e['style'])
            if min(curve(x) for x in np.linspace(0., 1., 101)) < 0.3 * min(values[part]):
                e['style'] = 'linear'
        if part == 'r0' or part.endswith('r') and part.startswith('rc'):
            if rng.chance(0.4):
                e['tref'] = rng.r(0, 40, 1)
            if rng.chance(0.4):
                e['tdep'] = rng.pick([0., 0.5, 2., -1.])
        if part == 'ref' and rng.chance(0.4):
            e['tref'] = rng.r(0, 40, 1)
        if e:
            extra[part] = e
    return extra


def apply_extra(a, c):
    parts = {'r0': a.r0, 'h0': a.h0, 'c0': a.c0, 'ref': a.ocv.ocv_ref, 'ent': a.ocv.ocv_ent}
    for k, rc in enumerate(a.rc_elements):
        parts[f'rc{k}r'], parts[f'rc{k}c'] = rc.r, rc.c
    for name, e in (c.get('extra') or {}).items():
        p = parts.get(name)
        if p is None:
            continue
        if 'rel' in e:
            p.base_values = np.array([[c['ent'] * x for x in e['rel']]])
        if 'style' in e:
            p.interpolation_style = e['style']
        if 'grid' in e:
            p.soc_pinpoints = np.array(e['grid'])
        if 'tref' in e:
            p.reference_temperature = np.array([[e['tref']]]) if name == 'ref' else e['tref']
        if 'tdep' in e:
            p.temperature_dependence_factor = p.temperature_dependence_factor * e['tdep']


def ocv_points(kind):
    if kind == 'linear':
        return np.linspace(3.2, 4.0, 9) + 0.03 * np.sin(np.arange(9))
    return None


def build_asoh(c):
    from moirae.models.ecm.advancedSOH import ECMASOH
    kw = {}
    if c['ocv'] == 'linear':
        kw['OCV'] = ocv_points('linear')
    elif isinstance(c['ocv'], list):
        kw['OCV'] = np.array(c['ocv'])
    a = ECMASOH.provide_template(has_C0=c['c0'] is not None, num_RC=len(c['rc']), qt=c['qt'], CE=c['ce'],
                                 R0=np.array(c['r0']), C0=None if c['c0'] is None else np.array(c['c0']),
                                 H0=np.array(c['h0']), RC=[(np.array(r), np.array(q)) for r, q in c['rc']] or None, **kw)
    a.h0.gamma = np.array([[c['gamma']]])
    a.ocv.ocv_ent.base_values = np.array([[c['ent']]])
    a.r0.temperature_dependence_factor = np.array([[c['tdep']]])
    for rc in a.rc_elements:
        rc.r.temperature_dependence_factor = np.array([[c['tdep']]])
    if c.get('r0_soc'):
        a.r0.soc_pinpoints = np.array(c['r0_soc'])
    apply_extra(a, c)
    return a


def build_transients(c, soc=0.5, hyst=0.0, q0=0.0, irc=None):
    from moirae.models.ecm import ECMTransientVector
    t = ECMTransientVector.provide_template(has_C0=c['c0'] is not None, num_RC=len(c['rc']), soc=soc)
    t.hyst = np.array([[hyst]])
    if c['c0'] is not None:
        t.q0 = np.array([[q0]])
    if irc is not None and len(c['rc']):
        t.i_rc = np.array([irc], dtype=float)
    return t


def num_transients(c):
    return 2 + (c['c0'] is not None) + len(c['rc'])


def make_input(time, current, temperature=25.):
    from moirae.models.ecm import ECMInput
    return ECMInput(time=float(time), current=float(current), temperature=float(temperature))


def make_meas(v):
    from moirae.models.ecm import ECMMeasurement
    return ECMMeasurement(terminal_voltage=float(v))


# ----------------------------------------------------------------------------- drive profiles
def gen_drive(rng, n, qt=5., soc0=0.5, dt=None, rest=0.2, amp=1.0):
    """Piecewise constant current sampled at `n` times, which keeps the SOC well inside [0, 1].

    Returns list of [time, current, temperature]"""
    dt = dt or rng.pick([1., 5., 10., 30.])
    rows = []
    t, soc, cur, left = 0.0, soc0, 0.0, 0
    temp = rng.r(15, 35, 1)
    for _ in range(n):
        if left <= 0:
            left = rng.randrange(1, 12)
            if rng.chance(rest):
                cur = 0.0
            else:
                cur = rng.r(0.1, amp, 3) * qt * rng.pick([-1, 1])
            if soc > 0.8 and cur > 0 or soc < 0.2 and cur < 0:
                cur = -cur
        rows.append([round(t, 6), round(cur, 4), temp])
        soc += cur * dt / 3600 / qt
        if soc > 0.9 or soc < 0.1:
            left = 0
        t += dt
        left -= 1
    return rows


# ----------------------------------------------------------------------------- telemetry
LINK_FAULTS = ['loss', 'dup', 'jitter', 'spike', 'offset', 'stuck', 'gap', 'temp_lost', 'noise']


def gen_link(rng, n, kinds=LINK_FAULTS, rate=0.06):
    """Swarm: each run enables a random subset of the kinds of faults"""
    enabled = [k for k in kinds if rng.chance(0.5)] or [rng.pick(kinds)]
    faults = []
    for i in range(1, n):
        for k in enabled:
            if rng.chance(rate):
                f = {'at': i, 'kind': k}
                if k == 'jitter':
                    f['x'] = rng.r(-0.45, 0.45, 3)
                elif k == 'spike':
                    f['x'] = rng.r(-1.5, 1.5, 3)
                elif k == 'offset':
                    f['x'], f['n'] = rng.r(-0.2, 0.2, 3), rng.randrange(2, 10)
                elif k == 'stuck':
                    f['n'] = rng.randrange(1, 6)
                elif k == 'gap':
                    f['n'] = rng.randrange(2, 12)
                elif k == 'noise':
                    f['x'] = rng.r(-0.02, 0.02, 4)
                elif k == 'dup':
                    f['n'] = rng.randrange(1, 3)
                faults.append(f)
    return faults


def deliver(rows, faults, counter=None):
    """Telemetry link: rows are [time, current, temperature, voltage]; what arrives is returned in order.

    Records which arrive out of order are sorted by time by the battery management system, as are those of
    a battery-data-toolkit file."""
    rows = [list(r) for r in rows]
    lost, copies = set(), {}
    for f in faults:
        i, k = f['at'], f['kind']
        if i >= len(rows):
            continue
        if counter is not None:
            counter['link-' + k] += 1
        if k == 'loss':
            lost.add(i)
        elif k == 'gap':
            lost.update(range(i, i + f['n']))
        elif k == 'dup':
            copies[i] = f['n']
        elif k == 'jitter':
            lo = rows[i - 1][0]
            hi = rows[i + 1][0] if i + 1 < len(rows) else rows[i][0] + (rows[i][0] - lo)
            x = rows[i][0] + f['x'] * (hi - lo) / 2
            rows[i][0] = min(max(x, lo), hi)
        elif k in ('spike', 'noise'):
            rows[i][3] += f['x']
        elif k == 'offset':
            for j in range(i, min(len(rows), i + f['n'])):
                rows[j][3] += f['x']
        elif k == 'stuck':
            for j in range(i, min(len(rows), i + f['n'])):
                rows[j][3] = rows[i - 1][3]
        elif k == 'temp_lost':
            rows[i][2] = float('nan')
    out = []
    for i, r in enumerate(rows):
        if i in lost:
            continue
        out.extend([list(r) for _ in range(1 + copies.get(i, 0))])
    return out


def simulate_rows(c, drive, behavior='constant', soc=0.5, noise=0.0, noise_seed=0):
    """Voltages of the true cell along the drive. Returns rows [time, current, temp, voltage] and true states"""
    from moirae.simulator import Simulator
    from moirae.models.ecm import EquivalentCircuitModel
    sim = Simulator(cell_model=EquivalentCircuitModel(current_behavior=behavior), asoh=build_asoh(c),
                    transient_state=build_transients(c, soc=soc), initial_input=make_input(*drive[0]))
    gen = np.random.default_rng(noise_seed)
    rows, states = [], []
    for k, d in enumerate(drive):
        if k:
            sim.step(make_input(*d))
        v = float(np.ravel(sim.measurement.terminal_voltage)[0])
        if noise:
            v += float(gen.normal(0, noise))
        rows.append([d[0], d[1], d[2], v])
        states.append(sim.transient.to_numpy()[0].copy())
    return rows, states


# ----------------------------------------------------------------------------- estimators
def updatable_options(c):
    opts = ['r0.base_values']
    if any(c['h0']):
        opts.append('h0.base_values')
    opts.append('q_t.base_values')
    for k in range(len(c['rc'])):
        opts.append(f'rc_elements.{k}.r.base_values')
    return opts


def other_options(c):
    """The parameters which are rarely estimated. Resistances are estimated as their values or their dependence on temperature"""
    opts = ['ce', 'ocv.ocv_ref.reference_temperature', 'ocv.ocv_ent.base_values', 'r0.temperature_dependence_factor', 'h0.gamma']
    if c['ocv'] == 'linear':
        opts.append('ocv.ocv_ref.base_values')
    if c['c0'] is not None:
        opts.append('c0.base_values')
    if not any(c['h0']):
        opts.append('h0.base_values')
    for k in range(len(c['rc'])):
        opts += [f'rc_elements.{k}.r.temperature_dependence_factor', f'rc_elements.{k}.c.base_values']
    return opts


def gen_estimator(rng, c, kind=None, rare=0.):
    opts = updatable_options(c)
    if rng.chance(rare):
        opts = [o for o in opts if rng.chance(0.5)] + other_options(c)
    names = [o for o in opts if rng.chance(0.5)] or ['r0.base_values']
    rarely = bool(set(names) - set(updatable_options(c)))
    alpha = 1.0
    e = {
        'kind': kind or rng.pick(['joint', 'dual']),
        'names': names, 'normalize': rng.chance(0.5),
        'soc_err': rng.r(-0.2, 0.2, 3), 'asoh_err': rng.r(0.98, 1.02, 3) if rarely else rng.r(0.7, 1.4, 3),
        'cov_soc': rng.pick([0.01, 0.05, 0.1]), 'cov_rel': rng.pick([0.1, 0.2]),
        'noise_t': rng.pick([1e-8, 1e-7, 1e-6]), 'noise_rel': rng.pick([1e-4, 1e-3]),
        'sensor': rng.pick([1e-3, 2e-3, 5e-3]),
        'alpha': alpha, 'beta': rng.pick([2.0, 2.0, 0.0, 1.0]), 'kappa': rng.pick([0.0, 0.0, 1.0, 'automatic']),
        'degrade': rng.pick([0, 0, 0, 1e-5]),
        'behavior': 'constant' if rng.chance(0.7) else 'linear',
    }
    if rarely:  # Values may be nearly zero when an estimator is restarted, and weights negative if there are many
        e.update(normalize=False, kappa=e['kappa'] if e['kappa'] != 'automatic' else 0.)
    return e


def estimator_parts(c, e, sim_model=False, asoh=None, transients=None, soc=0.5, first=(0., 0., 25.)):
    """Everything needed to build an estimator: the initial guess differs from the true cell"""
    from moirae.models.ecm import EquivalentCircuitModel
    a = build_asoh(c) if asoh is None else asoh
    for n in e['names']:
        a.mark_updatable(n)
    if asoh is None:
        a.update_parameters(a.get_parameters(e['names']) * e['asoh_err'], e['names'])
    t = build_transients(c, soc=min(max(soc + e['soc_err'], 0.05), 0.95)) if transients is None else transients
    model = (seams.SimECM if sim_model else EquivalentCircuitModel)(current_behavior=e['behavior'])
    nt = num_transients(c)
    names = t.all_names
    ct = np.zeros(nt)
    wt = np.zeros(nt)
    for k, n in enumerate(names):
        if n == 'soc':
            ct[k], wt[k] = e['cov_soc'] ** 2, e['noise_t']
        elif n == 'hyst':
            ct[k], wt[k] = 1e-3 ** 2, e['noise_t'] * 1e-2
        elif n == 'q0':
            ct[k], wt[k] = 1.0, e['noise_t'] * 10
        else:
            ct[k], wt[k] = 0.1 ** 2, e['noise_t'] * 10
    x = a.get_parameters().flatten()
    scale = np.where(x == 0, 1.0, np.abs(x))
    ca = (e['cov_rel'] * scale) ** 2
    wa = (e['noise_rel'] * scale) ** 2
    return dict(asoh=a, transients=t, inputs=make_input(*first), model=model, ct=np.diag(ct), ca=np.diag(ca),
                wt=np.diag(wt), wa=np.diag(wa), v=np.array([[e['sensor'] ** 2]]))


def tuning(e):
    return {'alpha_param': e['alpha'], 'beta_param': e['beta'], 'kappa_param': e['kappa']}


def build_estimator(c, e, sim_model=False, conversions=False, parts=None, absolute=False, **kw):
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    from moirae.estimators.online.utils.model import (JointCellModelWrapper, CellModelWrapper,
                                                      DegradationModelWrapper)
    from moirae.models.utils import NoDegradation
    p = parts or estimator_parts(c, e, sim_model, **kw)
    deg = seams.SimDegradation(e['degrade']) if e['degrade'] or sim_model else NoDegradation()
    custom = sim_model or e['degrade'] or conversions or absolute
    joint_cov = {'covariance_joint': p['cj']} if 'cj' in p else {}
    if not custom:
        common = dict(cell_model=p['model'], initial_asoh=p['asoh'], initial_transients=p['transients'],
                      initial_inputs=p['inputs'], covariance_transient=p['ct'], covariance_asoh=p['ca'],
                      transient_covariance_process_noise=p['wt'], asoh_covariance_process_noise=p['wa'],
                      covariance_sensor_noise=p['v'], normalize_asoh=e['normalize'])
        if e['kind'] == 'joint':
            return JointEstimator.initialize_unscented_kalman_filter(filter_args=tuning(e), **common, **joint_cov)
        return DualEstimator.initialize_unscented_kalman_filter(
            filter_args={'transient': tuning(e), 'asoh': tuning(e)}, **common)
    # Build the wrappers, as users do to provide their own converters and degradation models
    nt = num_transients(c)
    x = p['asoh'].get_parameters().flatten()
    scale = np.where(x == 0, 1., x) if e['normalize'] else np.ones_like(x)
    hid_j = seams.SimConversion(multiplicative_array=np.hstack([np.ones(nt), scale]))
    hid_t = seams.SimConversion(multiplicative_array=np.ones(nt))
    hid_a = seams.SimConversion(multiplicative_array=scale)
    if absolute:  # Keep the health parameters positive
        from moirae.estimators.online.filters.conversions import AbsoluteValueConversionOperator
        hid_j = AbsoluteValueConversionOperator(indices=list(range(nt, nt + len(x))))
        hid_a = AbsoluteValueConversionOperator()
    out = dict(output_conversion_operator=seams.SimConversion(multiplicative_array=np.array([1.0]))) if sim_model else {}
    out_ctl = dict(control_conversion_operator=seams.SimConversion(multiplicative_array=np.ones(3))) if sim_model else {}
    base = dict(cell_model=p['model'], asoh=p['asoh'], transients=p['transients'], inputs=p['inputs'])
    if e['kind'] == 'joint':
        w = JointCellModelWrapper(**base, degradation_model=deg,
                                  converters={'hidden_conversion_operator': hid_j, **out, **out_ctl})
        return JointEstimator.initialize_ukf_from_wrapper(
            joint_wrapper=w, covariance_transient=p['ct'], covariance_asoh=p['ca'],
            transient_covariance_process_noise=p['wt'], asoh_covariance_process_noise=p['wa'],
            covariance_sensor_noise=p['v'], filter_args=tuning(e), **joint_cov)
    wt = CellModelWrapper(**base, converters={'hidden_conversion_operator': hid_t, **out, **out_ctl})
    wa = DegradationModelWrapper(**base, degradation_model=deg,
                                 converters={'hidden_conversion_operator': hid_a, **out, **out_ctl})
    return DualEstimator.initialize_ukf_from_wrappers(
        transient_wrapper=wt, asoh_wrapper=wa, covariance_transient=p['ct'], covariance_asoh=p['ca'],
        transient_covariance_process_noise=p['wt'], asoh_covariance_process_noise=p['wa'],
        covariance_sensor_noise=p['v'], filter_args={'transient': tuning(e), 'asoh': tuning(e)})


def dist_arrays(d):
    return np.array(d.get_mean(), copy=True), np.array(d.get_covariance(), copy=True)


def dataset(rows, cycles=None, index=None):
    """A dataset as produced by the battery-data-toolkit"""
    import pandas as pd
    from battdat.data import CellDataset
    df = pd.DataFrame({'test_time': [r[0] for r in rows], 'current': [r[1] for r in rows],
                       'voltage': [r[3] for r in rows]}, dtype=float)
    if any(not math.isnan(r[2]) for r in rows):
        df['temperature'] = np.array([r[2] for r in rows], dtype=float)
    if cycles is not None:
        df['cycle_number'] = np.array(cycles, dtype=int)
    if index is not None:
        df.index = index
    return CellDataset(raw_data=df)


def same(a, b, rtol=1e-10):
    """Equal but for round-off"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = np.max(np.abs(b[np.isfinite(b)]), initial=0.0)
    return bool(np.allclose(a, b, rtol=rtol, atol=rtol * 1e-3 * scale, equal_nan=True))


def same_dist(a, b, rtol=1e-10):
    return same(a.get_mean(), b.get_mean(), rtol) and same(a.get_covariance(), b.get_covariance(), rtol)


def row_input(r, default=25.):
    """What a record means, with the default for a missing temperature"""
    return make_input(r[0], r[1], r[2] if r[2] is not None and math.isfinite(r[2]) else default)


def restart(est, c, e, p, inputs, sensor=None, absolute=False):
    """A new estimator which starts from the current estimate of another, using only public interfaces"""
    t, a = est.get_estimated_state()
    mean, cov = dist_arrays(est.state)
    nt = num_transients(c)
    q = dict(p, asoh=a, transients=t, inputs=inputs, ct=cov[:nt, :nt], ca=cov[nt:, nt:])
    if e['kind'] == 'joint':
        q['cj'] = cov
    if sensor is not None:
        q['v'] = sensor
    return build_estimator(c, e, parts=q, absolute=absolute)


# ----------------------------------------------------------------------------- batches
def gen_batch(rng, c, size):
    """Factors by which the parameters and initial states of the members of a batch differ"""
    fields = ['qt', 'r0', 'ce', 'ocv', 'tdep', 'ent'] + ['gamma'] * bool(any(c['h0'])) + ['h0'] * bool(any(c['h0']))
    if c['c0'] is not None:
        fields.append('c0')
    for k in range(len(c['rc'])):
        fields += [f'rc{k}r', f'rc{k}c']
    if c['ocv'] == 'default':
        fields.remove('ocv')
    chosen = [f for f in fields if rng.chance(0.4)]
    out = {'size': size, 'factors': {f: [rng.r(0.95, 1.0, 3) if f in ('ce', 'ocv') else rng.r(0.5, 1.5, 3)
                                         for _ in range(size)] for f in chosen}, 'soc': None}
    if not chosen or rng.chance(0.5):
        out['soc'] = [rng.r(0.3, 0.7, 3) for _ in range(size)]
    return out


def member_circuit(c, b, i):
    """Circuit of one member of a batch"""
    import copy
    c = copy.deepcopy(c)
    for f, v in b['factors'].items():
        x = v[i]
        if f.startswith('rc'):
            k, j = int(f[2]), 'rc'.index(f[3])
            c['rc'][k][j] = [y * x for y in c['rc'][k][j]]
        elif f == 'ocv':
            c['ocv'] = [float(y) * x for y in ocv_points('linear')]
        elif isinstance(c[f], list):
            c[f] = [y * x for y in c[f]]
        else:
            c[f] = c[f] * x
    return c


def build_batch(c, b, soc=0.5):
    """Parameters and initial states of a batch"""
    a = build_asoh(c)
    for f, v in b['factors'].items():
        x = np.array(v)[:, None]
        if f.startswith('rc'):
            rc = a.rc_elements[int(f[2])]
            part = rc.r if f[3] == 'r' else rc.c
        elif f == 'gamma':
            a.h0.gamma = a.h0.gamma * x
            continue
        elif f == 'ocv':
            part = a.ocv.ocv_ref
        elif f == 'ce':
            a.ce = a.ce * x
            continue
        elif f == 'tdep':
            for r in [a.r0] + [rc.r for rc in a.rc_elements]:
                r.temperature_dependence_factor = r.temperature_dependence_factor * x
            continue
        elif f == 'ent':
            part = a.ocv.ocv_ent
        else:
            part = getattr(a, {'qt': 'q_t'}.get(f, f))
        part.base_values = part.base_values * x
    t = build_transients(c, soc=soc)
    if b['soc'] is not None:
        from moirae.models.ecm import ECMTransientVector
        values = np.repeat(t.to_numpy(), b['size'], axis=0)
        values[:, 0] = b['soc']
        t = t.make_copy(values=values)
    return a, t
