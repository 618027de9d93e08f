import numpy as np

from dst import refs, seams, worlds
from dst.core import Property, Violation, is_injected, require, sut

KEYS = ['qt', 'ocv', 'ent', 'tref', 'ce']
NAMES = {'qt': 'q_t.base_values', 'ocv': 'ocv.ocv_ref.base_values', 'ent': 'ocv.ocv_ent.base_values',
         'tref': 'ocv.ocv_ref.reference_temperature', 'ce': 'ce'}


def gen_values(rng, key, size, n):
    """Values for one or all members"""
    if key == 'qt':
        return [[rng.r(0.5, 20, 3)] for _ in range(size)]
    if key == 'ce':
        return [[rng.pick([1., rng.r(0.9, 1, 3)])] for _ in range(size)]
    if key == 'tref':
        return [[rng.r(0, 40, 1)] for _ in range(size)]
    if key == 'ent':
        return [[rng.r(-0.01, 0.01, 4) for _ in range(n)] for _ in range(size)]
    return [[round(3 + k / max(n - 1, 1) + rng.r(-0.1, 0.1, 3), 4) for k in range(n)] for _ in range(size)]


class PROPERTY(Property):
    id = 'C21'
    level = 'exploration'
    technique = 'slow and fast journeys of simulated lossless cells, with failures, reloads and changed health, against their theoretical energy'
    note = ('The theoretical energy of each member of a batch is compared with the energy a simulated cell without losses '
            'delivers or takes up, and with the integral of its documented open-circuit voltage.')
    rule = ('A run drives a lossless cell, or a batch, along random legs with irregular and repeated samples, failing steps, '
            'changes of health and reloads between legs, and accounts for the energy of each leg and member.')
    sim_measure = 'distinct (parameters that are batched, changed or reloaded, direction of the leg, behaviour, fate) reached'
    components = {'real': ['ECMASOH.get_theoretical_energy', 'OpenCircuitVoltage', 'MaxTheoreticalCapacity', 'Simulator',
                           'EquivalentCircuitModel', 'JSON of containers'],
                  'stub': ['owner of the cell', 'failures of steps']}
    assumptions = ['States of charge remain within the range of the open-circuit voltage',
                   'Energies are compared within the discretisation of integrals in 100 and more parts']
    expected_probes = ['batch', 'charge', 'discharge', 'no-temperature', 'changed', 'reloaded', 'failed', 'amp-seconds', 'reversed-limits',
                       'tref-batched', 'ocv-batched', 'qt-batched', 'ent-batched', 'whole-range']
    quick_runs = 1500
    thorough_runs = 40000

    def generate(self, rng, tier, index):
        size = rng.pick([1, 1, 2, 3, 4])
        n, m = rng.pick([1, 2, 3, 5, 9]), rng.pick([1, 1, 2, 4])
        curves = {}
        for part, k in (('ref', n), ('ent', m)):
            curves[part] = {}
            if k > 1:
                curves[part]['style'] = rng.pick([s for s in worlds.STYLES if k > {'quadratic': 2, 'cubic': 3}.get(s, 1)])
                if rng.chance(0.4):
                    grid = [0.] + sorted(rng.r(0.1, 0.9, 2) for _ in range(k - 2)) + [1.]
                    if min(np.diff(grid)) > 0.05:
                        curves[part]['grid'] = grid
        sizes = {'qt': 1, 'ce': 1, 'tref': 1, 'ent': m, 'ocv': n}
        health = {k: gen_values(rng, k, size if rng.chance(0.4) else 1, sizes[k]) for k in KEYS}
        legs = []
        for _ in range(rng.randrange(1, 5)):
            change = []
            for k in KEYS:
                if rng.chance(0.15):
                    change.append([k, gen_values(rng, k, size if rng.chance(0.5) else 1, sizes[k])])
            legs.append({'to': rng.r(0, 1, 2), 'n': rng.randrange(30, 120), 'rate': rng.logu(0.02, 5), 'seed': rng.randrange(10 ** 6),
                         'change': change, 'how': rng.randrange(3), 'reload': rng.chance(0.2), 'repeat': rng.chance(0.3),
                         'swap': rng.chance(0.3), 'evolve': rng.chance(0.3), 'pause': rng.chance(0.3),
                         'fault': [rng.randrange(60), rng.pick(['error', 'value', 'oserror', 'memory'])] if rng.chance(0.3) else None})
        return {'size': size, 'curves': curves, 'health': health, 'legs': legs, 'behavior': rng.pick(['constant', 'linear']),
                'soc': [rng.r(0.1, 0.9, 2) for _ in range(size if size > 1 and rng.chance(0.4) else 1)],
                'temp': rng.pick([None, 0., 25., rng.r(-10, 50, 1), rng.r(-10, 50, 1)])}

    def simplify(self, plan):
        for i in range(len(plan['legs'])):
            if len(plan['legs']) > 1:
                yield {**plan, 'legs': plan['legs'][:i] + plan['legs'][i + 1:]}
        for k in KEYS:
            if len(plan['health'][k]) > 1:
                yield {**plan, 'health': {**plan['health'], k: plan['health'][k][:1]}}
        for i, leg in enumerate(plan['legs']):
            for k, v in [('change', []), ('fault', None), ('reload', False), ('repeat', False), ('evolve', False), ('pause', False)]:
                if leg[k] != v:
                    yield {**plan, 'legs': plan['legs'][:i] + [{**leg, k: v}] + plan['legs'][i + 1:]}
        for k, v in [('temp', None), ('behavior', 'constant'), ('curves', {'ref': {}, 'ent': {}})]:
            if plan[k] != v:
                yield {**plan, k: v}

    @staticmethod
    def circuit():
        return {'qt': 5., 'ce': 1., 'ocv': 'linear', 'r0': [0.], 'h0': [0.], 'gamma': 0.9, 'c0': None, 'rc': [], 'tdep': 0., 'ent': 0.}

    @staticmethod
    def apply(a, key, values, how):
        v = np.array(values, dtype=float)
        if key == 'qt' and how == 1:
            a.q_t.value = 3600 * (v if len(v) > 1 else float(v[0, 0]))
            return
        if how == 2:
            a.mark_updatable(NAMES[key])
            # Values of single numbers keep their size
            a.update_parameters(v, [NAMES[key]])
            return
        a.set_value(NAMES[key], v if v.shape[1] > 1 else v[:, 0])

    def member(self, plan, health, i):
        """Open-circuit voltage and capacity of a member"""
        h = {k: v[i if len(v) > 1 else 0] for k, v in health.items()}
        ref, ent = refs.Curve(h['ocv'], **plan['curves']['ref']), refs.Curve(h['ent'], **plan['curves']['ent'])
        dt = 0. if plan['temp'] is None else plan['temp'] - h['tref'][0]
        return (lambda s: ref(s) + dt * ent(s)), h['qt'][0], h['ce'][0]

    @staticmethod
    def integral(f, a, b, n=600):
        """Integral between two states of charge, and the variation of the integrand"""
        x = np.linspace(a, b, n + 1)
        y = np.array([f(s) for s in x])
        area = float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))
        y = np.array([f(a - 1e-6), *y, f(b + 1e-6)])  # Values may jump at the ends
        return area, float(np.sum(np.abs(np.diff(y))))

    def execute(self, plan, ctx):
        from moirae.models.ecm import ECMTransientVector
        from moirae.simulator import Simulator
        size, temp = plan['size'], plan['temp']
        health = {k: list(v) for k, v in plan['health'].items()}
        c = self.circuit()
        c['ocv'], c['ent'] = list(health['ocv'][0]), 0.
        with sut('build'):
            a = worlds.build_asoh({**c, 'extra': plan['curves']})
            a.ocv.ocv_ent.base_values = np.array([health['ent'][0]])
            for k in KEYS:
                self.apply(a, k, health[k], 0)
            t = ECMTransientVector.provide_template(has_C0=False, num_RC=0, soc=plan['soc'][0])
            if len(plan['soc']) > 1:
                t = t.make_copy(np.array([[s, 0.] for s in plan['soc']]))
        soc = np.array([plan['soc'][i if len(plan['soc']) > 1 else 0] for i in range(size)])
        now = 0.
        sim = None
        last = None
        for number, leg in enumerate(plan['legs']):
            what = f'leg {number}'
            gen = np.random.default_rng(leg['seed'])
            fate = []
            for k, v in leg['change']:
                with sut('change'):
                    self.apply(a, k, v, leg['how'])
                health[k] = v
                fate.append(k)
                ctx.probes['changed'] += 1
                ctx.probes['amp-seconds'] += k == 'qt' and leg['how'] == 1
            if leg['reload']:  # The process stops, and only what was saved as JSON survives
                with sut('reload'):
                    a = type(a).model_validate_json(a.model_dump_json())
                    t = t if sim is None else type(t).model_validate_json(sim.transient.model_dump_json())
                sim = None
                fate.append('reload')
                ctx.probes['reloaded'] += 1
                ctx.faults['restart'] += 1
            with sut('start'):
                if sim is None or leg['change']:
                    if sim is not None:
                        t = sim.transient
                    first = last or [now, 0., temp]
                    sim = Simulator(cell_model=seams.SimECM(plan['behavior']), asoh=a, transient_state=t,
                                    initial_input=self.input(first), keep_history=True)
            members = [self.member(plan, health, i) for i in range(size)]
            # As much charge as all members can give or take
            up = leg['to'] > soc[0]
            eff = np.array([m[2] if up else 1. for m in members])
            caps = np.array([m[1] for m in members])
            want = abs(leg['to'] - soc[0]) * caps[0] / eff[0]
            room = np.min((0.98 - soc if up else soc - 0.02) * caps / eff)
            total = min(want, room)
            if total < 1e-3:
                continue
            sign = 1. if up else -1.
            amp = leg['rate'] * caps[0]
            parts = np.sort(gen.uniform(0, 1, leg['n'] - 1))
            cuts = np.concatenate([[0.], parts, [1.]]) * total  # Charge passed at each sample
            rows = [[now, sign * amp, temp]]  # The current jumps
            scale = gen.uniform(0.5, 1.5, leg['n'] + 1) if plan['behavior'] == 'constant' else np.ones(leg['n'] + 1)
            for k in range(1, leg['n'] + 1):
                rows[-1][1] = sign * amp * scale[k - 1]
                rows.append([rows[-1][0] + (cuts[k] - cuts[k - 1]) * 3600 / (amp * scale[k - 1]), sign * amp, temp])
            if leg['repeat']:
                at = gen.integers(1, len(rows) - 1)
                rows.insert(at, list(rows[at]))
                ctx.faults['time-repeated'] += 1
            rows.append([rows[-1][0], 0., temp])
            if leg['pause']:
                rows.append([rows[-1][0] + 600., 0., temp])
            volts, passed = [], []
            before = sim.transient.soc.copy()
            seams.CALLS.active = True
            if leg['fault']:
                seams.CALLS.arm(leg['fault'][0], leg['fault'][1], 'before')
            u, k = last or [now, 0., temp], 0
            pending = [self.input(r) for r in rows]
            while k < len(rows):
                try:
                    if leg['evolve'] and leg['fault'] is None:
                        out = sim.evolve(pending[k:])
                    else:
                        out = [sim.step(pending[k])[1]]
                except BaseException as e:
                    if not is_injected(e):
                        with sut('step'):
                            raise
                    ctx.probes['failed'] += 1
                    ctx.faults['failed-step'] += 1
                    fate.append('failed')
                    continue
                for y in out:
                    volts.append(np.ravel(y.terminal_voltage) * np.ones(size))
                    w = rows[k]
                    dt = (w[0] - u[0]) / 3600
                    passed.append(dt * (u[1] if plan['behavior'] == 'constant' else (u[1] + w[1]) / 2))
                    u, k = w, k + 1
            seams.CALLS.disarm()
            seams.CALLS.fired = None
            seams.CALLS.active = False
            last, now = rows[-1], rows[-1][0]
            volts, passed = np.array(volts), np.array(passed)
            energy = np.sum((volts[1:] + volts[:-1]) / 2 * passed[1:, None], axis=0)
            end = np.ravel(sim.transient.soc) * np.ones(size)
            require(np.allclose(end, soc + sign * total * eff / caps, rtol=1e-8, atol=1e-9), 'charge',
                    lambda: f'{what}: from {soc} to {end} by {sign * total} Ah with capacities {caps}')
            batched = [k for k in KEYS if len(health[k]) > 1]
            for i in range(size):
                f, qt, ce = members[i]
                limits = (soc[i], end[i]) if leg['swap'] else (end[i], soc[i])
                limits = tuple(float(x) for x in limits)
                kw = {} if temp is None else {'temperature': temp}
                keep = self.values(a)
                with sut('energy'):
                    got = a.get_theoretical_energy(soc_limits=limits, **kw)
                require(self.values(a) == keep, 'changed-health', what)
                relevant = [k for k in batched if k in ('qt', 'ocv') or k in ('ent', 'tref') and temp is not None]
                require(got.ndim == 2 and got.shape[1] == 1 and (got.shape[0] == size if relevant else got.shape[0] in (1, size)),
                        'shape', lambda: f'{what}: {got.shape} for {size} members of which {batched} differ')
                have = float(got[i if len(got) > 1 else 0, 0])
                lo, hi = sorted(limits)
                ideal, tv = self.integral(f, lo, hi)
                slack = (hi - lo) * (tv + 1e-3) * qt
                tol = slack * (1 / 99 + 1 / 600) + 1e-9 * qt
                require(abs(have - ideal * qt) <= tol, 'energy',
                        lambda: f'{what}, member {i}: {have} Wh between {limits} rather than {ideal * qt} ({batched} differ)')
                # What the cell delivered or took up
                passed_energy = abs(float(energy[i])) * (ce if up else 1.)
                steps = np.abs(passed[1:]).max() / max(np.abs(passed[1:]).sum(), 1e-300)
                require(np.sign(energy[i]) == sign and abs(have - passed_energy) <= tol + slack * steps + 1e-9 * qt, 'energy-of-cell',
                        lambda: f'{what}, member {i}: {have} Wh between {limits}, but {passed_energy} Wh passed ({batched} differ)')
                ctx.log(have, passed_energy)
                ctx.probes['reversed-limits'] += not leg['swap']
            if number == 0:
                with sut('energy'):
                    got = a.get_theoretical_energy()
                for i in range(size):
                    h = {k: v[i if len(v) > 1 else 0] for k, v in health.items()}
                    ref = refs.Curve(h['ocv'], **plan['curves']['ref'])
                    ideal, tv = self.integral(ref, 1e-9, 1 - 1e-9)
                    have = float(got[i if len(got) > 1 else 0, 0])
                    tol = (tv + 2 * np.ptp(h['ocv']) + 1e-3) * (1 / 99 + 1 / 600) * h['qt'][0]
                    require(abs(have - ideal * h['qt'][0]) <= tol, 'energy', lambda: f'{have} Wh in total rather than {ideal * h["qt"][0]}')
                ctx.probes['whole-range'] += 1
            soc = end
            ctx.steps += len(rows)
            ctx.sim_time += rows[-1][0] - rows[0][0]
            ctx.probes['charge' if up else 'discharge'] += 1
            ctx.probes['no-temperature'] += temp is None
            ctx.probes['batch'] += size > 1
            for k in batched:
                ctx.probes[f'{k}-batched'] += 1
            ctx.sig(tuple(batched), up, plan['behavior'], tuple(fate), temp is None, leg['evolve'], size > 1)

    @staticmethod
    def values(a):
        return {k: v.tolist() for k, v in a.iter_parameters(updatable_only=False)}

    @staticmethod
    def input(r):
        from moirae.models.ecm import ECMInput
        return ECMInput(time=r[0], current=r[1]) if r[2] is None else worlds.make_input(*r)
