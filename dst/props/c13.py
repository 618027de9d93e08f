import numpy as np

from dst import refs, worlds
from dst.core import Property, require, sut


def apply_clock(rows, faults, counter):
    """Times shown by the clock of the data acquisition system"""
    gaps = [b[0] - a[0] for a, b in zip(rows, rows[1:])]
    gaps.insert(0, 0.)
    origin = 0.
    drift = 1.
    for i, k, x in faults:
        if i >= len(rows):
            continue
        counter['clock-' + k] += 1
        if k == 'jitter':
            gaps[i] *= 1 + x
        elif k == 'stall':
            gaps[i] = 0.
        elif k == 'tiny':
            gaps[i] *= 1e-3
        elif k == 'jump':
            gaps[i] += abs(x) * 3600
        elif k == 'origin':
            origin = x * 1e6
        elif k == 'drift':
            drift = 1 + x * 0.1
    t = rows[0][0] + origin
    out = []
    for r, g in zip(rows, gaps):
        t += g * drift
        out.append([t, *r[1:]])
    return out


class PROPERTY(Property):
    id = 'C13'
    level = 'exploration'
    technique = 'refinement of every simulated step against an independent closed-form circuit under a faulty clock'
    note = ('Every step and the whole trajectory are compared with a circuit written from the equations. For a constant '
            'current, RC elements are driven by the new current and all else by the previous, as the tests of the repository fix.')
    rule = ('A run simulates one cell or a batch along a drive seen by a clock which jitters, stalls, drifts and jumps. Each '
            'member is compared with the reference, and with a simulation of its own.')
    sim_measure = ('distinct (batch, fields which differ, current behaviour, circuit, signs of the currents, kind of interval) '
                   'reached')
    components = {'real': ['Simulator', 'EquivalentCircuitModel', 'ECMASOH and its components', 'ECMTransientVector'],
                  'stub': ['clock']}
    assumptions = ['Inputs are shared by the members of a batch', 'Intervals start with a state of charge between 0 and 1',
                   'Jumps of parameters are not at a state of charge reached']
    expected_probes = ['batch', 'batch-of-states', 'linear', 'reversal', 'from-rest', 'to-rest', 'zero-interval', 'no-rc', 'c0',
                       'inefficient', 'pinpoints', 'outside-soc', 'rc-batch-1', 'initially-polarised', 'rel',
                       'grid', 'tref', 'tdep', *worlds.STYLES, 'no-temperature']
    quick_runs = 2600
    thorough_runs = 30000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng, max_rc=3)
        if len(c['r0']) > 1 and rng.chance(0.5):
            inner = sorted({rng.r(0.05, 0.95, 2) for _ in range(len(c['r0']) - 2)})
            c['r0_soc'] = [0., *inner, 1.]
            c['r0'] = c['r0'][:len(c['r0_soc'])]
        elif rng.chance(0.6):
            c['extra'] = worlds.gen_extra(rng, c)
        size = rng.weighted([(1, 4), (2, 2), (3, 2), (4, 1)])
        batch = worlds.gen_batch(rng, c, size) if size > 1 else {'size': 1, 'factors': {}, 'soc': None}
        n = rng.weighted([(rng.randrange(2, 8), 3), (rng.randrange(8, 40), 2)])
        if tier == 'thorough' and rng.chance(0.1):
            n = 300
        rows = [[0., rng.r(-1, 1, 3) * c['qt'], 25.]]
        soc = 0.5
        dts = [1e-3, 0.1, 1., 10., 60., 600., 5000.]
        for _ in range(n):
            dt = round(rng.pick(dts) * rng.r(0.5, 1.5, 3), 6)
            k = rng.randrange(6)
            cur = rows[-1][1] if k == 0 else 0. if k == 1 else -rows[-1][1] if k == 2 else \
                round(rng.r(-1.5, 1.5, 3) * c['qt'], 4)
            prev = rows[-1][1]
            limit = rng.pick([0.45, 0.45, 0.6])
            d = dt * max(abs(cur), abs(prev), 1e-9) / 3600 / c['qt'] * 2
            if abs(soc - 0.5) + d > limit:  # Return towards half of the charge
                dt = round(dt * min(1., 0.1 / d), 6)
                cur = -abs(cur) if soc > 0.5 else abs(cur)
            soc += dt * prev / 3600 / c['qt']
            temp = rng.r(-10, 50, 1) if rng.chance(0.3) else rows[-1][2]
            rows.append([round(rows[-1][0] + dt, 6), round(cur, 4), temp])
        faults = []
        for k in ['jitter', 'stall', 'tiny']:
            if rng.chance(0.4):
                faults += [[i, k, rng.r(-0.9, 0.9, 3)] for i in range(1, n + 1) if rng.chance(0.15)]
        for k in ['jump', 'origin', 'drift']:
            if rng.chance(0.2):
                faults.append([rng.randrange(1, n + 1), k, rng.r(-1, 1, 3)])
        start = None
        if rng.chance(0.4):
            start = {'hyst': rng.r(-0.05, 0.05, 3), 'q0': rng.r(-500, 500, 1), 'irc': [rng.r(-3, 3, 2) for _ in c['rc']]}
        return {'circuit': c, 'batch': batch, 'rows': rows, 'faults': faults, 'start': start,
                'behavior': rng.pick(['constant', 'linear']), 'blind': rng.chance(0.15)}

    def simplify(self, plan):
        if plan['batch']['size'] > 1:
            yield {**plan, 'batch': {'size': 1, 'factors': {}, 'soc': None}}
            for f in plan['batch']['factors']:
                rest = {k: v for k, v in plan['batch']['factors'].items() if k != f}
                yield {**plan, 'batch': {**plan['batch'], 'factors': rest}}
        for k, v in [('start', None), ('behavior', 'constant')]:
            if plan[k] != v:
                yield {**plan, k: v}
        if plan['blind']:
            yield {**plan, 'blind': False}
        c = plan['circuit']
        for part, e in (c.get('extra') or {}).items():
            rest = {k: v for k, v in c['extra'].items() if k != part}
            yield {**plan, 'circuit': {**c, 'extra': rest}}
            for k in e:
                if len(e) > 1 and k != 'rel':
                    yield {**plan, 'circuit': {**c, 'extra': {**rest, part: {x: y for x, y in e.items() if x != k}}}}
        for k, v in [('rc', []), ('c0', None), ('ocv', 'linear'), ('r0_soc', None), ('ce', 1.), ('tdep', 0.), ('ent', 0.)]:
            if c.get(k) != v and not any(f.startswith(k) for f in plan['batch']['factors']) \
                    and not (k == 'rc' and plan['start']):
                yield {**plan, 'circuit': {**c, k: v}}

    def execute(self, plan, ctx):
        from moirae.simulator import Simulator
        from moirae.models.ecm import ECMInput, EquivalentCircuitModel
        c, b, behavior = plan['circuit'], plan['batch'], plan['behavior']
        if len(plan['rows']) < 1:
            return
        rows = apply_clock(plan['rows'], plan['faults'], ctx.faults)
        size = b['size'] if b['factors'] or b['soc'] is not None else 1
        start = plan['start']

        def sense(row):
            if plan['blind']:
                return ECMInput(time=row[0], current=row[1])
            return worlds.make_input(*row)

        def put(t):
            if start is not None:
                values = t.to_numpy()
                values[:, -1] = start['hyst']
                k = 1
                if c['c0'] is not None:
                    values[:, 1] = start['q0']
                    k = 2
                values[:, k:k + len(c['rc'])] = start['irc'][:len(c['rc'])]
                t = t.make_copy(values=values)
            return t
        with sut('build'):
            a, t = worlds.build_batch(c, b)
            sim = Simulator(cell_model=EquivalentCircuitModel(behavior), asoh=a, transient_state=put(t),
                            initial_input=sense(rows[0]))
            alone = []
            if size > 1:
                for i in range(size):
                    m = worlds.member_circuit(c, b, i)
                    t = worlds.build_transients(m, soc=0.5 if b['soc'] is None else b['soc'][i])
                    alone.append(Simulator(cell_model=EquivalentCircuitModel(behavior), asoh=worlds.build_asoh(m),
                                           transient_state=put(t), initial_input=sense(rows[0])))
            x0 = sim.transient.to_numpy().copy()
            v0 = sim.measurement.to_numpy().copy()
        points = worlds.ocv_points('linear')
        if plan['blind']:  # No temperature, so nothing depends on it
            c = {**c, 'tdep': 0., 'ent': 0.}
            ctx.probes['no-temperature'] += 1
        cells = [refs.Cell(worlds.member_circuit(c, b, i) if size > 1 else c, behavior, ocv=points) for i in range(size)]

        # Values may jump, and are then not defined beyond the grid
        jumps = [j for cell in cells for j in cell.jumps()]

        def rows_of(x):
            require(x.ndim == 2 and len(x) in (1, size), 'shape', lambda: f'{x.shape} for {size} members')
            return np.repeat(x, size, axis=0) if len(x) != size else x
        x = rows_of(x0)
        if jumps and self.near(x0[:, 0], jumps):
            return
        for i, cell in enumerate(cells):
            self.close(rows_of(v0)[i, 0], cell.voltage(x[i], rows[0]), 'voltage', f'initially, member {i}')
        whole = [np.array(y) for y in x]
        charge = [0.] * size
        noises = 0.
        for k, (u, w) in enumerate(zip(rows, rows[1:])):
            if np.any(x[:, 0] < 0) or np.any(x[:, 0] > 1):  # Extrapolated parameters are not meaningful
                break
            what = f'interval {k} from {u} to {w}'
            # Terms of the closed form cancel if a ramp is much shorter than the time constants, which are below 2000 s
            ramp = abs(w[1] - u[1]) / (w[0] - u[0]) if behavior == 'linear' and w[0] != u[0] else 0.
            noise = 1e-15 * 2000 * ramp
            noises += noise
            with sut('step'):
                s, m = sim.step(sense(w))
                new, volt = rows_of(s.to_numpy().copy()), rows_of(m.to_numpy().copy())
                solo = [y.step(sense(w)) for y in alone]
            if jumps and self.near(new[:, 0], jumps):
                ctx.probes['near-jump'] += 1
                break
            for i, cell in enumerate(cells):
                where = what if size == 1 else f'{what}, member {i} of {size}'
                want = cell.step(x[i], u, w)
                for name, h, r in zip(cell.names(), new[i], want):
                    kind = name.split('[')[0]
                    self.close(h, r, f'state-{kind}', f'{where}, {name} from {x[i]}', noise)
                self.close(volt[i, 0], cell.voltage(new[i], w), 'voltage', where)
                whole[i] = cell.step(whole[i], u, w)
                require(np.allclose(new[i], whole[i], rtol=1e-6, atol=1e-7 + noises), 'trajectory',
                        lambda: f'{where}: {new[i]} rather than {whole[i]} after all intervals')
                charge[i] += (1. if u[1] < 0 else cell.ce) * cell.charge(u, w)
                have = (new[i, 0] - rows_of(x0)[i, 0]) * 3600 * cell.qt
                total = 3600 * cell.qt
                require(abs(have - charge[i]) <= 1e-8 * total, 'charge',
                        lambda: f'{where}: {have} C stored, although {charge[i]} C passed')
                if alone:
                    require(worlds.same(new[i], solo[i][0].to_numpy()[0]) and worlds.same(volt[i], solo[i][1].to_numpy()[0]),
                            'batch', lambda: f'{where}: {new[i]}, {volt[i]} in the batch but '
                            f'{solo[i][0].to_numpy()}, {solo[i][1].to_numpy()} alone')
                ctx.probes['outside-soc'] += bool(new[i, 0] < 0 or new[i, 0] > 1)
            x = new
            gap = w[0] - u[0]
            ctx.probes['zero-interval'] += gap == 0
            ctx.probes['reversal'] += u[1] * w[1] < 0
            ctx.probes['from-rest'] += u[1] == 0 and w[1] != 0
            ctx.probes['to-rest'] += u[1] != 0 and w[1] == 0
            ctx.steps += size
            ctx.log(k, new, volt)
            ctx.sig(size > 1, sorted(b['factors']), b['soc'] is None, behavior, len(c['rc']), c['c0'] is None, np.sign(u[1]),
                    np.sign(w[1]), gap == 0)
        ctx.sim_time += rows[-1][0] - rows[0][0]
        ctx.probes['batch'] += size > 1
        ctx.probes['batch-of-states'] += size > 1 and b['soc'] is not None
        ctx.probes['rc-batch-1'] += any(f.startswith('rc') for f in b['factors']) and len(c['rc']) > 1
        ctx.probes['linear'] += behavior == 'linear'
        ctx.probes['no-rc'] += not c['rc']
        ctx.probes['c0'] += c['c0'] is not None
        ctx.probes['inefficient'] += c['ce'] < 1
        ctx.probes['pinpoints'] += bool(c.get('r0_soc'))
        for e in (c.get('extra') or {}).values():
            for k in e:
                ctx.probes[k if k != 'style' else e[k]] += 1
        ctx.probes['initially-polarised'] += start is not None

    @staticmethod
    def near(soc, jumps):
        return bool(np.any(np.abs(np.ravel(soc)[:, None] - np.array(jumps)) < 1e-6) or np.any(soc < 0) or np.any(soc > 1))

    def close(self, have, want, cls, what, atol=0.):
        require(abs(have - want) <= 1e-9 * max(1., abs(want)) + atol, cls, lambda: f'{what}: {have!r} rather than {want!r}')
