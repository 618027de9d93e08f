import numpy as np

from dst import worlds
from dst.core import Property, require, sut


def at(behavior, u, w, f):
    """Input at a fraction of the interval between two inputs"""
    cur = u[1] if behavior == 'constant' else u[1] + f * (w[1] - u[1])
    return [u[0] + f * (w[0] - u[0]), cur, u[2]]


class PROPERTY(Property):
    id = 'C14'
    level = 'exploration'
    technique = 'the same input delivered with different sampling, loss and duplication, compared at common times'
    note = ('Several simulations of one history, which differ only in how it is sampled, are compared with each other at '
            'the times they have in common. No reference is needed.')
    rule = ('A run draws a piecewise constant or linear current, and delivers it once as is and several times refined, with '
            'repeated samples, without redundant samples and with another origin of time.')
    sim_measure = 'distinct (kind of delivery, current behaviour, circuit, batch, signs of the currents, way of stepping) reached'
    components = {'real': ['Simulator', 'EquivalentCircuitModel', 'ECMASOH and its components'], 'stub': ['sampling clock']}
    assumptions = ['Parameters which determine the dynamics do not depend on the state of charge (those of the voltage may)',
                   'Constant temperature', 'For a linear current, a coulombic efficiency of one or a current which keeps its sign',
                   'For a constant current, only intervals whose current does not change are refined']
    expected_probes = ['refined', 'repeated', 'thinned', 'shifted', 'linear', 'constant', 'batch', 'evolve', 'reversal',
                       'ramp-from-rest', 'repeated-with-other-current', 'many-splits']
    quick_runs = 2200
    thorough_runs = 40000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng)
        # Parameters are taken constant within an interval, so those of the dynamics must not change with the charge
        c['h0'] = c['h0'][:1]
        c['rc'] = [[r[:1], q[:1]] for r, q in c['rc']]
        behavior = rng.pick(['constant', 'linear'])
        signed = behavior == 'linear' and c['ce'] < 1
        size = rng.weighted([(1, 5), (2, 1), (3, 1)])
        batch = worlds.gen_batch(rng, c, size) if size > 1 else {'size': 1, 'factors': {}, 'soc': None}
        if signed and 'ce' not in batch['factors'] and rng.chance(0.5):
            c['ce'] = 1.0
            signed = False
        signed = signed or (behavior == 'linear' and 'ce' in batch['factors'])
        n = rng.randrange(2, 12)
        temp = rng.r(0, 45, 1)
        sign = rng.pick([-1, 1])
        rows = [[0., rng.r(0.05, 1, 3) * c['qt'] * sign, temp]]
        moved = 0.
        for _ in range(n):
            dt = rng.randrange(1, 8 * 600) / 8
            k = rng.randrange(5)
            cur = round(rng.r(0.05, 1, 3) * c['qt'] * sign, 4)
            if not signed:
                cur = [cur, -cur, 0., rows[-1][1], -rows[-1][1]][k]
            if behavior == 'constant' and rng.chance(0.6):
                cur = rows[-1][1]
            dt = max(0.125, round(min(dt, 8 * 300 / (abs(cur) / c['qt'] + abs(rows[-1][1]) / c['qt'] + 0.1) / n)) * 8 / 8)
            moved += dt
            rows.append([rows[-1][0] + dt, cur, temp])
        deliveries = []
        for _ in range(rng.randrange(1, 4)):
            d = {'kind': rng.pick(['refine', 'refine', 'repeat', 'mixed', 'shift']), 'evolve': rng.chance(0.3), 'cuts': {},
                 'repeats': {}, 'origin': 0.}
            for i in range(n):
                if d['kind'] in ('refine', 'mixed') and rng.chance(0.7):
                    m = rng.weighted([(1, 3), (rng.randrange(2, 6), 2), (rng.randrange(20, 60), 0.5)])
                    d['cuts'][str(i)] = sorted({rng.randrange(1, 1024) / 1024 for _ in range(m)})
                if d['kind'] in ('repeat', 'mixed') and rng.chance(0.5):
                    d['repeats'][str(i)] = [rng.randrange(1, 4), rng.pick(['same', 'same', 'other'])]
            if d['kind'] in ('shift', 'mixed'):
                d['origin'] = float(rng.pick([-1, 1]) * rng.randrange(1, 2 ** 21))
            deliveries.append(d)
        return {'circuit': c, 'batch': batch, 'rows': rows, 'ops': deliveries, 'behavior': behavior,
                'soc': 0.5, 'hyst': rng.pick([0., rng.r(-0.02, 0.02, 3)])}

    def simplify(self, plan):
        if plan['batch']['size'] > 1:
            yield {**plan, 'batch': {'size': 1, 'factors': {}, 'soc': None}}
        for i, d in enumerate(plan['ops']):
            for part in ('cuts', 'repeats'):
                for k in d[part]:
                    new = {**d, part: {a: b for a, b in d[part].items() if a != k}}
                    yield {**plan, 'ops': plan['ops'][:i] + [new] + plan['ops'][i + 1:]}
            if d['origin']:
                yield {**plan, 'ops': plan['ops'][:i] + [{**d, 'origin': 0.}] + plan['ops'][i + 1:]}
        c = plan['circuit']
        for k, v in [('rc', []), ('c0', None), ('ocv', 'linear'), ('ce', 1.), ('tdep', 0.), ('ent', 0.)]:
            if c[k] != v and not any(f.startswith(k) for f in plan['batch']['factors']):
                yield {**plan, 'circuit': {**c, k: v}}

    def _run(self, plan, inputs, evolve):
        """Inputs are (label, record). Returns states and voltages at the labels"""
        from moirae.simulator import Simulator
        from moirae.models.ecm import EquivalentCircuitModel
        with sut('build'):
            a, t = worlds.build_batch(plan['circuit'], plan['batch'], soc=plan['soc'])
            t.hyst = np.full_like(t.hyst, plan['hyst'])
            sim = Simulator(cell_model=EquivalentCircuitModel(plan['behavior']), asoh=a, transient_state=t,
                            initial_input=worlds.make_input(*inputs[0][1]), keep_history=evolve)
        out = {0: (sim.transient.to_numpy().copy(), sim.measurement.to_numpy().copy())}
        with sut('step'):
            if evolve:
                sim.evolve([worlds.make_input(*r) for _, r in inputs[1:]])
                for (label, _), s, m in zip(inputs, sim.transient_history, sim.measurement_history):
                    out[label] = (s.to_numpy().copy(), m.to_numpy().copy())
            else:
                for label, r in inputs[1:]:
                    s, m = sim.step(worlds.make_input(*r))
                    out[label] = (s.to_numpy().copy(), m.to_numpy().copy())
        return out

    def execute(self, plan, ctx):
        rows, behavior, b = plan['rows'], plan['behavior'], plan['batch']
        if len(rows) < 2:
            return
        base = self._run(plan, list(enumerate(rows)), False)
        size = b['size']
        for number, d in enumerate(plan['ops']):
            inputs = [(0, list(rows[0]))]
            expect_same = True
            for i, (u, w) in enumerate(zip(rows, rows[1:])):
                steady = behavior == 'linear' or u[1] == w[1]
                for f in d['cuts'].get(str(i), []) if steady else []:
                    inputs.append((None, at(behavior, u, w, f)))
                    ctx.faults['extra-sample'] += 1
                ctx.probes['many-splits'] += len(d['cuts'].get(str(i), [])) > 10
                inputs.append((i + 1, list(w)))
                times, how = d['repeats'].get(str(i), [0, 'same'])
                for _ in range(times):
                    ctx.faults['repeated-sample'] += 1
                    inputs.append((i + 1, list(w)))
                if times and how == 'other':
                    # A conflicting duplicate, followed by the original
                    other = [w[0], -w[1] + 0.5, w[2]]
                    inputs.append(((i + 1, 'other'), other))
                    inputs.append((i + 1, list(w)))
                    ctx.faults['conflicting-sample'] += 1
                    ctx.probes['repeated-with-other-current'] += 1
                ctx.probes['refined'] += bool(d['cuts'].get(str(i))) and steady
                ctx.probes['repeated'] += times > 0
                ctx.probes['reversal'] += u[1] * w[1] < 0
                ctx.probes['ramp-from-rest'] += u[1] == 0 and w[1] != 0 and behavior == 'linear'
                ctx.sig(d['kind'], behavior, len(plan['circuit']['rc']), plan['circuit']['c0'] is None, size > 1,
                        np.sign(u[1]), np.sign(w[1]), d['evolve'], times > 0, how, bool(d['cuts'].get(str(i))))
            for _, r in inputs:
                r[0] += d['origin']
            ctx.faults['clock-origin'] += d['origin'] != 0
            got = self._run(plan, inputs, d['evolve'])
            for label, (s, m) in got.items():
                if label is None:
                    continue
                key = label[0] if isinstance(label, tuple) else label
                ws, wm = base[key]
                what = f'delivery {number} ({d["kind"]}), record {key} of {len(rows)}'
                # The voltage at a conflicting duplicate follows its current, but no charge has passed
                self.close(s, ws, f'state-{d["kind"]}', what)
                if not isinstance(label, tuple):
                    self.close(m, wm, f'voltage-{d["kind"]}', what)
            ctx.steps += len(inputs) - 1
            ctx.probes['shifted'] += d['origin'] != 0
            ctx.probes['evolve'] += d['evolve']
            ctx.log(number, got[len(rows) - 1][0], got[len(rows) - 1][1])
        # Lost samples: those on the line between their neighbours are redundant
        full = [(0, list(rows[0]))]
        for i, (u, w) in enumerate(zip(rows, rows[1:])):
            full.append((i + 1, list(w)))
        kept = [full[0]]
        for j in range(1, len(full) - 1):
            u, x, w = kept[-1][1], full[j][1], full[j + 1][1]
            redundant = u[1] == x[1] == w[1]
            if redundant:
                ctx.faults['lost-sample'] += 1
                ctx.probes['thinned'] += 1
            else:
                kept.append(full[j])
        kept.append(full[-1])
        if len(kept) < len(full):
            got = self._run(plan, kept, False)
            for label, (s, m) in got.items():
                self.close(s, base[label][0], 'state-lost', f'record {label}')
                self.close(m, base[label][1], 'voltage-lost', f'record {label}')
        ctx.sim_time += (rows[-1][0] - rows[0][0]) * (1 + len(plan['ops']))
        ctx.probes[behavior] += 1
        ctx.probes['batch'] += size > 1

    def close(self, have, want, cls, what):
        if have.shape[0] != want.shape[0]:
            n = max(have.shape[0], want.shape[0])
            have, want = (np.repeat(x, n, axis=0) if len(x) == 1 else x for x in (have, want))
        require(have.shape == want.shape and np.allclose(have, want, rtol=1e-8, atol=1e-9), cls,
                lambda: f'{what}: {have} rather than {want}')
