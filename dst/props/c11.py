import math

import numpy as np

from dst import refs, worlds
from dst.core import Property, require, sut

LAST = 25  # Records compared once the estimator had time to recover
# Limits of the errors: of the output relative to the noise of the sensor (median and peak), and of the SOC
OUTPUT, PEAK, SOC = 3., 25., 0.05


class PROPERTY(Property):
    id = 'C11'
    level = 'exploration'
    technique = 'liveness: bursts of telemetry faults, then a bounded number of healthy records, compared with the true cell'
    note = ('Sampled bursts of bounded magnitude, in cells whose open-circuit voltage determines the state of charge. The bounds '
            'are several times the largest error found in tens of thousands of runs, so small losses of accuracy are not seen.')
    rule = ('A run simulates a cell with the reference circuit, passes its telemetry through a link which is faulty only '
            'during one or two bursts and compares the last estimates with the cell. It then repeats the same history.')
    sim_measure = 'distinct (estimator, parameters, circuit, behaviour, faults of the burst, magnitude of the disturbance) reached'
    components = {'real': ['JointEstimator', 'DualEstimator', 'UnscentedKalmanFilter', 'EquivalentCircuitModel',
                           'run_online_estimate'],
                  'stub': ['cell (reference circuit)', 'telemetry link']}
    assumptions = ['The cell follows the model, and its open-circuit voltage increases by at least 0.4 V',
                   'Faults change voltages by less than 0.5 V and last at most 40 records',
                   'Process noise is consistent with recovery within the records which follow']
    expected_probes = ['joint', 'dual', 'normalize', 'disturbed', 'strongly-disturbed', 'two-bursts', 'repeated', 'driver']
    quick_runs = 160
    thorough_runs = 4000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng, rich=False)
        low, span = rng.r(3, 3.4, 2), rng.r(0.6, 1.2, 2)
        c['ocv'] = [round(low + span * x, 4) for x in np.linspace(0, 1, rng.pick([2, 6, 11]))]
        c['c0'] = None
        if c['h0'] != [0.0]:
            c['h0'] = [rng.r(0.005, 0.02, 3)]
        c['gamma'] = rng.r(20, 60, 0)
        c['ce'] = 1.0 if rng.chance(0.7) else rng.r(0.97, 0.999, 3)
        e = worlds.gen_estimator(rng, c)
        e['names'] = ['r0.base_values']
        e.update(noise_rel=rng.pick([3e-3, 1e-2]), sensor=rng.pick([1e-3, 2e-3, 5e-3]),
                 asoh_err=rng.r(0.8, 1.25, 2), cov_rel=rng.pick([0.1, 0.2]), kappa=0., beta=rng.pick([2., 2., 0.]), degrade=0,
                 cov_soc=rng.pick([0.05, 0.1]), soc_err=rng.r(-0.15, 0.15, 3))
        e['noise_t'] = float(f"{(rng.pick([0.1, 0.2]) * e['sensor']) ** 2:.1e}")
        before, burst = rng.randrange(5, 40), rng.randrange(2, 40)
        two = rng.chance(0.2)
        recover = 320
        n = before + burst * (2 if two else 1) + (20 if two else 0) + recover
        drive = worlds.gen_drive(rng, n, qt=c['qt'], dt=rng.pick([5., 10., 30.]), amp=rng.pick([0.5, 1.]))
        rate = rng.pick([0.1, 0.3, 0.8])
        faults = []
        for first in [before] + [before + burst + 20] * two:
            for f in worlds.gen_link(rng, burst, rate=rate):
                f['at'] += first
                if f['kind'] == 'offset' and sum(g['kind'] == 'offset' for g in faults) > 1:
                    continue
                if f['kind'] == 'spike':
                    f['x'] = round(f['x'] / 3, 3)
                if 'n' in f and f['kind'] != 'dup':
                    f['n'] = min(f['n'], first + burst - f['at'])
                faults.append(f)
        cell = refs.Cell(c, e['behavior'])
        gen = np.random.default_rng(rng.randrange(10 ** 6))
        x = np.array([rng.r(0.4, 0.6, 2)] + [0.] * len(c['rc']) + [0.])
        rows, truth = [], []
        for k, d in enumerate(drive):
            if k:
                x = cell.step(x, drive[k - 1], d)
            v = cell.voltage(x, d)
            rows.append([*d, round(float(v + gen.normal(0, e['sensor'])), 7)])
            truth.append([round(float(x[0]), 7), round(float(v), 7)])
        return {'circuit': c, 'est': e, 'telemetry': rows, 'truth': truth[-LAST:], 'link': faults, 'driver': rng.chance(0.3), 'repeat': rng.chance(0.2), 'two': two,
                'end': rows[-recover][0]}

    def simplify(self, plan):
        if plan['driver']:
            yield {**plan, 'driver': False}
        for k, v in [('normalize', False), ('behavior', 'constant')]:
            if plan['est'][k] != v:
                yield {**plan, 'est': {**plan['est'], k: v}}

    def estimate(self, plan, rows, driver):
        from moirae.interface import run_online_estimate
        c, e = plan['circuit'], plan['est']
        with sut('build'):
            est = worlds.build_estimator(c, e, first=rows[0][:3], soc=0.5)
        if driver:
            with sut('run'):
                table, _ = run_online_estimate(worlds.dataset(rows), est)
            return table['soc'].to_numpy(), table['terminal_voltage'].to_numpy(), est
        soc, volt = [], []
        for r in rows:
            with sut('step'):
                s, o = est.step(worlds.make_input(*r[:3]), worlds.make_meas(r[3]))
            soc.append(s.get_mean()[0])
            volt.append(o.get_mean()[0])
        return np.array(soc), np.array(volt), est

    def execute(self, plan, ctx):
        c, e = plan['circuit'], plan['est']
        rows = worlds.deliver(plan['telemetry'], plan['link'], ctx.faults)
        for r in rows:
            r[2] = plan['telemetry'][0][2]
        soc, volt, est = self.estimate(plan, rows, plan['driver'])
        true_soc, true_volt = np.array(plan['truth']).T
        ctx.log(soc, volt)
        ctx.steps += len(rows)
        ctx.sim_time += rows[-1][0] - rows[0][0]
        err_v = np.abs(volt[-LAST:] - true_volt) / e['sensor']
        err_s = np.abs(soc[-LAST:] - true_soc)
        require(np.all(np.isfinite(volt)) and np.all(np.isfinite(soc)), 'not-finite', 'estimates which are not finite')
        # Error caused by the faults: the records which arrived around the end of the last burst
        k = int(np.argmax([r[0] >= plan['end'] for r in rows]))
        worst = max(abs(volt[i] - rows[i][3]) for i in range(max(0, k - 20), k + 2))
        require(np.median(err_v) <= OUTPUT, 'output-not-recovered', lambda: f'{OUTPUT} sigma exceeded: the error is '
                f'{np.median(err_v)} sigma in the last {LAST} of {len(rows) - k} healthy records (up to {worst} V in the burst)')
        require(np.max(err_v) <= PEAK, 'output-peak', lambda: f'error of up to {np.max(err_v)} sigma in the last {LAST} records')
        require(np.max(err_s) <= SOC, 'soc-not-recovered', lambda: f'error of up to {np.max(err_s)} in the last {LAST} of '
                f'{len(rows) - k} healthy records')
        if plan['repeat']:
            soc2, volt2, _ = self.estimate(plan, rows, plan['driver'])
            require(np.array_equal(soc, soc2) and np.array_equal(volt, volt2), 'not-repeatable',
                    lambda: f'the same history gave other estimates from record {int(np.argmax((soc != soc2) | (volt != volt2)))}')
            ctx.probes['repeated'] += 1
        kinds = sorted({f['kind'] for f in plan['link']})
        ctx.sig(e['kind'], len(c['rc']), len(c['ocv']), any(c['h0']), e['behavior'], e['normalize'], kinds,
                int(2 * math.log10(max(worst, 1e-4))), plan['driver'])
        ctx.probes[e['kind']] += 1
        ctx.probes['normalize'] += e['normalize']
        ctx.probes['two-bursts'] += plan['two']
        ctx.probes['driver'] += plan['driver']
        ctx.probes['disturbed'] += worst > 10 * e['sensor']
        ctx.probes['strongly-disturbed'] += worst > 100 * e['sensor']
