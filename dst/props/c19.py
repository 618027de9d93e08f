import warnings

import numpy as np

from dst import refs, worlds
from dst.core import Property, require, sut
from dst.refs import Cell

STYLES = ['linear', 'cubic', 'quadratic', 'slinear', 'nearest', 'previous']


def integral(t, y):
    return np.concatenate([[0.], np.cumsum(np.diff(t) * (y[1:] + y[:-1]) / 2)])


def charge_of_cycles(rows, cycles):
    """Charge put into the cell in each cycle (Ah), which ends where the next one begins. None if it has too few records"""
    out = []
    for k in dict.fromkeys(cycles):
        mine = [i for i, c in enumerate(cycles) if c == k]
        sub = [rows[i] for i in range(mine[0], min(mine[-1] + 2, len(rows)))]
        if len(sub) < 3:
            out.append(None)
            continue
        q = integral(np.array([r[0] for r in sub]), np.array([r[1] for r in sub])) / 3600
        if mine[-1] + 1 < len(rows):
            q[-1] = 0.  # The running integral in the table starts again at the first record of the next cycle
        # From the lowest state of charge which follows if the cycle begins charged, and else to the highest
        out.append(q[-1] - q.min() if -q[1:].min() > q[1:].max() else q[1:].max())
    return out


def fitted(soc, voltage, current, points):
    """Weighted least-squares cubic spline with knots at the interior points"""
    from scipy.interpolate import BSpline
    order = np.argsort(soc, kind='stable')
    x, y = soc[order], voltage[order]
    w = 1 / np.maximum(np.abs(current[order]), 1e-6)
    w /= w.sum()
    t = np.concatenate([[x[0]] * 4, points[1:-1], [x[-1]] * 4])
    a = BSpline.design_matrix(x, t, 3).toarray()
    scale = w / w.max()
    c = np.linalg.lstsq(a * scale[:, None], y * scale, rcond=None)[0]
    # How far the coefficients are determined by the data
    sing = np.linalg.svd(a * scale[:, None], compute_uv=False)
    return BSpline(t, c, 3, extrapolate=True)(points), sing[0] / max(sing[-1], 1e-300)


class PROPERTY(Property):
    id = 'C19'
    level = 'exploration'
    technique = 'reference cycles of a simulated cell through a faulty telemetry link, against independent integrals and fits'
    note = ('Capacity and open-circuit voltage extracted from simulated cycling data are compared with independent integrals and '
            'least-squares splines of the records delivered, and with the cell within what its overpotentials allow.')
    rule = ('A run cycles a simulated cell, fully at low rates and partly, loses, repeats, shifts and disturbs records, and '
            'extracts the capacity and open-circuit voltage with random options, twice and from refused data.')
    sim_measure = 'distinct (cycles, faults of the link, options of the extractors, statistics available, fate) reached'
    components = {'real': ['MaxCapacityExtractor', 'OCVExtractor', 'OpenCircuitVoltage', 'battdat integrals'],
                  'stub': ['cell (reference circuit)', 'telemetry link']}
    assumptions = ['The first record of each cycle is delivered', 'Reference cycles begin with a discharged cell',
                   'Each interval between points of the open-circuit voltage has records']
    expected_probes = ['full', 'partial', 'starts-charged', 'statistics', 'refused', 'fitted', 'accurate', 'rest', 'capacity-object', 'repeated',
                       'short-cycle', 'points-array', 'few-points', 'several-references']
    quick_runs = 900
    thorough_runs = 15000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng, rich=False)
        c['h0'] = [0.] if rng.chance(0.6) else [rng.r(0.001, 0.02, 3)]
        c['tdep'], c['ent'] = 0., 0.
        if rng.chance(0.7):
            c['c0'] = None
        cycles = []
        for _ in range(rng.randrange(1, 5)):
            cycles.append({'kind': rng.weighted([('full', 3), ('partial', 2), ('charged', 1), ('short', 0.6)]),
                           'rate': rng.r(0.02, 0.2, 3), 'depth': rng.r(0.1, 0.9, 2), 'n': rng.randrange(60, 200),
                           'rests': rng.randrange(4), 'uneven': rng.chance(0.5)})
        if not any(x['kind'] == 'full' for x in cycles):
            cycles[rng.randrange(len(cycles))]['kind'] = 'full'
        kinds = ['loss', 'dup', 'noise', 'stuck', 'gap', 'temp_lost']
        n_points = rng.randrange(4, 16)
        points = sorted({0., 1.} | {rng.r(0.05, 0.95, 2) for _ in range(n_points)}) if rng.chance(0.3) else n_points
        if not isinstance(points, int) and (len(points) < 4 or min(np.diff(points)) < 0.04):
            points = n_points
        style = rng.pick(STYLES)
        if rng.chance(0.12):  # Hardly any points
            points = rng.pick([2, 3, [0., 1.], [0., rng.r(0.2, 0.8, 2), 1.]])
            n = points if isinstance(points, int) else len(points)
            style = rng.pick([s for s in STYLES if s != 'cubic' and (n > 2 or s != 'quadratic')])
        return {'circuit': c, 'cycles': cycles, 'link': worlds.gen_link(rng, 1500, kinds, rate=rng.pick([0, 0.01, 0.05])),
                'points': points, 'style': style, 'requirement': rng.r(0.5, 0.99, 2) if rng.chance(0.6) else rng.r(0.5, 0.99, 3), 'noise': rng.pick([0, 0, 0.001]),
                'seed': rng.randrange(10 ** 6), 'object': rng.chance(0.4), 'wrong': rng.chance(0.3),
                'stats': rng.weighted([('none', 3), ('given', 1), ('other-columns', 1)]), 'offset': rng.pick([0, 0, 3, 17]),
                'origin': rng.pick([0., 0., 86400., 1e6])}

    def simplify(self, plan):
        for i in range(len(plan['cycles'])):
            left = plan['cycles'][:i] + plan['cycles'][i + 1:]
            if any(x['kind'] == 'full' for x in left):
                yield {**plan, 'cycles': left}
        for k, v in [('noise', 0), ('stats', 'none'), ('offset', 0), ('origin', 0.), ('object', False), ('wrong', False), ('points', 5)]:
            if plan[k] != v:
                yield {**plan, k: v}

    def cycle_data(self, plan):
        """Records of the cell and their cycle numbers"""
        c = plan['circuit']
        cell = Cell(c, 'linear', ocv=worlds.ocv_points('linear'))
        gen = np.random.default_rng(plan['seed'])
        x = np.array([0.002] + [0.] * (len(cell.names()) - 1))
        u = [plan['origin'], 0., 25.]
        rows, numbers, first = [[*u, cell.voltage(x, u)]], [plan['offset']], []
        for k, cy in enumerate(plan['cycles']):
            first.append(len(rows) - 1 if k == 0 else len(rows))
            full = cy['kind'] == 'full'
            depth = 0.995 if full else cy['depth']
            amp = cy['rate'] * c['qt']
            legs = [(amp, depth / c['ce'] if c['ce'] else depth), (0., 0), (-amp, depth), (0., 0)]
            if cy['kind'] == 'charged':
                legs = [(amp, 0.95 / c['ce']), ('next', 0), (-amp, depth), (0., 0), (amp, depth / c['ce']), ('next', 0), (-amp, 0.95), (0., 0)]
            elif cy['kind'] == 'short':
                legs = [(0., -1)]
            number = numbers[-1] + (1 if k else 0)
            for cur, part in legs:
                if cur == 'next':
                    number += 1
                    continue
                if cur == 0.:
                    times = [1.] if part < 0 else ([1.] + [600. * (j + 1) for j in range(cy['rests'])]) * (cy['rests'] > 0)
                else:
                    total = part * c['qt'] * 3600 / amp
                    n = max(8, int(cy['n'] * part))
                    f = np.sort(gen.uniform(0, 1, n)) if cy['uneven'] else np.linspace(0, 1, n + 1)[1:]
                    times = [1.] + [1. + v for v in np.append(f, 1.) * total if v > 2.]
                start = u[0]
                for dt in times:
                    w = [start + float(dt), cur, 25.]
                    x = cell.step(x, u, w)
                    u = w
                    rows.append([*w, cell.voltage(x, w)])
                    numbers.append(number)
        states = None
        return rows, numbers, states

    def execute(self, plan, ctx):
        from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
        from moirae.models.ecm.components import MaxTheoreticalCapacity, OpenCircuitVoltage
        from battdat.postprocess.integral import StateOfCharge
        c = plan['circuit']
        rows, numbers, _ = self.cycle_data(plan)
        for r in rows:
            if plan['noise']:
                r[3] += float(np.sin(1e3 * r[0]) * plan['noise'])
        starts = {i for i in range(len(rows)) if i == 0 or numbers[i] != numbers[i - 1]}
        link = [f for f in plan['link'] if f['kind'] not in ('loss', 'gap') or not starts & set(range(f['at'], f['at'] + f.get('n', 1)))]
        tagged = worlds.deliver([r[:3] + [r[3]] for r in rows], link, ctx.faults)
        # The number of the cycle belongs to the record
        by_time = {r[0]: n for r, n in zip(rows, numbers)}
        rows = tagged
        numbers = [by_time[r[0]] for r in rows]
        if len(rows) < 30:
            return
        for cy in plan['cycles']:
            ctx.probes[{'full': 'full', 'partial': 'partial', 'charged': 'starts-charged', 'short': 'short-cycle'}[cy['kind']]] += 1
            ctx.probes['rest'] += cy['rests'] > 0
        ctx.probes['several-references'] += sum(cy['kind'] == 'full' for cy in plan['cycles']) > 1
        charges = charge_of_cycles(rows, numbers)
        known = [q for q in charges if q is not None]

        def data(stats=plan['stats']):
            d = worlds.dataset(rows, cycles=numbers)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                StateOfCharge().enhance(d.tables['raw_data'])
            import pandas as pd
            if stats != 'none':
                s = pd.DataFrame({'cycle_number': list(dict.fromkeys(numbers))})
                if stats == 'given':
                    s['capacity_charge'] = [0.1 * (k % 3) + 2. for k in range(len(s))]
                else:
                    s['energy_charge'] = 1.
                d.tables['cycle_stats'] = s
            return d
        given = [0.1 * (k % 3) + 2. for k in range(len(dict.fromkeys(numbers)))]
        want = max(given) if plan['stats'] == 'given' else max(known)
        ctx.probes['statistics'] += plan['stats'] == 'given'

        # Capacity
        d = data()
        before = d.tables['raw_data'].copy(deep=True)
        for attempt in range(2):
            with sut('capacity'):
                cap = MaxCapacityExtractor().extract(d)
            require(isinstance(cap, MaxTheoreticalCapacity) and cap.base_values.shape == (1, 1), 'capacity-type', f'{cap}')
            got = float(cap.base_values[0, 0])
            require(abs(got - want) <= 1e-9 * want, 'capacity', f'{got} Ah rather than {want}, of cycles with {charges}')
        require(before.equals(d.tables['raw_data']), 'data-changed', 'by extracting the capacity')
        if plan['stats'] != 'given' and not any(f['kind'] in ('loss', 'gap') for f in link):
            # The largest charge is that of a full cycle, as all ramps are sampled
            true = 0.995 * c['qt'] / c['ce']
            require(abs(got - true) < 0.003 * true + 2 * c['qt'] / 3600, 'capacity-of-cell', f'{got} Ah rather than {true}')
            ctx.probes['accurate'] += 1
        ctx.log(got)

        # Open-circuit voltage
        capacity = 0.995 * c['qt']
        if plan['wrong']:
            # The charge sampled is close to what is required
            off = (0.97, 1.03, 0.998, 1.002, 0.9995, 1.0005)[plan['seed'] % 6]
            capacity = max(known) / (plan['requirement'] * off)
        points = np.linspace(0, 1, plan['points']) if isinstance(plan['points'], int) else np.array(plan['points'])
        given_points = plan['points'] if isinstance(plan['points'], int) else points.copy()
        ctx.probes['points-array'] += not isinstance(plan['points'], int)
        with sut('extractor'):
            ex = OCVExtractor(MaxTheoreticalCapacity(base_values=capacity) if plan['object'] else capacity, soc_points=given_points,
                              soc_requirement=plan['requirement'], interpolation_style=plan['style'])
        ctx.probes['capacity-object'] += plan['object']
        d = data()
        before = d.tables['raw_data'].copy(deep=True)
        sampled = want / capacity
        fate = 'accepted'
        if abs(sampled - plan['requirement']) > 1e-6:
            try:
                ex.check_data(d)
            except ValueError as e:
                ctx.log(str(e))
                fate = 'refused'
                ctx.probes['refused'] += 1
                ctx.faults['insufficient-data'] += 1
                require(sampled < plan['requirement'], 'refused', f'{sampled} of the capacity were sampled: {e}')
            else:
                require(sampled > plan['requirement'], 'not-refused', f'only {sampled} of the capacity were sampled')
            require(before.equals(d.tables['raw_data']), 'data-changed', 'by checking it')
        ctx.sig(tuple(sorted(cy['kind'] for cy in plan['cycles'])), fate, plan['style'], plan['stats'], plan['object'],
                tuple(sorted({f['kind'] for f in link})), len(points))
        ctx.steps += len(rows)
        ctx.sim_time += rows[-1][0] - rows[0][0]
        soc = np.array(before['cycle_capacity']) / capacity
        ok = soc.min() < points[1] and soc.max() > points[-2]
        counts = [len(set(soc[(soc > a) & (soc < b)])) for a, b in zip(points, points[1:])]
        if not ok or min(counts) < 2:
            return
        voltage, current = np.array([r[3] for r in rows]), np.array([r[1] for r in rows])
        expect, condition = fitted(soc, voltage, current, points)
        if condition > 1e7:
            return  # Records at rest dominate by a factor of a million and may leave the rest to round-off
        for attempt in range(2):
            with sut('ocv'):
                ocv = ex.extract(d)
            require(isinstance(ocv, OpenCircuitVoltage), 'ocv-type', f'{ocv}')
            have = np.array(ocv.ocv_ref.base_values)
            require(have.shape == (1, len(points)), 'ocv-shape', f'{have.shape} for {len(points)} points')
            tol = 1e-7 + 1e-15 * condition + 3e-16 * condition ** 2  # Sensitivity of a least-squares problem with residuals
            require(np.allclose(have[0], expect, rtol=0, atol=tol + 1e-6 * (np.ptp(voltage) + np.abs(expect).max())), 'ocv',
                    lambda: f'{have[0]} rather than {expect} at {points}')
            require(np.array_equal(np.ravel(ocv.ocv_ref.soc_pinpoints), points) and ocv.ocv_ref.interpolation_style == plan['style'],
                    'ocv-points', f'{ocv.ocv_ref.soc_pinpoints} ({ocv.ocv_ref.interpolation_style})')
            with sut('evaluate'):
                at = np.ravel(ocv(points))
            require(np.allclose(at, have[0], rtol=1e-9, atol=1e-9), 'ocv-evaluate', lambda: f'{at} rather than {have[0]}')
        require(before.equals(d.tables['raw_data']), 'data-changed', 'by extracting the open-circuit voltage')
        ctx.probes['fitted'] += 1
        ctx.probes['few-points'] += len(points) < 4
        ctx.probes['repeated'] += any(f['kind'] == 'dup' for f in link)
        ctx.log(have)
        # Records at rest decide nearly everything, so that small differences between those at similar charges matter much.
        # With only full cycles at low rates and no rests, the curve is that of the cell but for overpotentials
        if fate == 'accepted' and not plan['wrong'] and all(cy['kind'] == 'full' and not cy['rests'] for cy in plan['cycles']) and c['ce'] == 1 and \
                c['c0'] is None and not any(f['kind'] == 'stuck' for f in link):
            cell = Cell(c, 'linear', ocv=worlds.ocv_points('linear'))
            mid = (points > 0.08) & (points < 0.92)
            true = np.array([cell.ocv(s, 25.) for s in points])
            best, _ = fitted(soc, np.array([cell.ocv(s, 25.) for s in soc * 0.995 + 0.002]), current, points)
            over = max(cy['rate'] for cy in plan['cycles']) * c['qt'] * (c['r0'][0] + sum(r[0] for r, _ in c['rc'])) + c['h0'][0] + 0.022
            err, bound = np.abs(have[0] - true), 3 * over + np.abs(best - true) + 0.01
            require(np.all(err[mid] <= bound[mid]), 'ocv-of-cell', lambda: f'{have[0]} rather than {true} at {points}')
