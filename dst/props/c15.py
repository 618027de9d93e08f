import math

import numpy as np

from dst import refs, seams, worlds
from dst.core import Property, is_injected, require, sut


class PROPERTY(Property):
    id = 'C15'
    level = 'exploration'
    technique = ('interleaved and failing evaluations and optimisations on shared data, compared with an independent circuit and '
                 'with each other')
    note = 'Losses are compared with an independent implementation; optimisers are those of SciPy which never worsen the guess.'
    rule = ('A run evaluates several losses, which share the data and the model, in batches of different composition, nested '
            'within each other at calls of the model, with calls failing and with optimisations in between.')
    sim_measure = 'distinct (operation, nesting, batch size, parameters, current behaviour, call failing, kind, optimiser) reached'
    components = {'real': ['MeanSquaredLoss', 'ScipyMinimizer', 'Simulator', 'EquivalentCircuitModel', 'ECMASOH', 'scipy.optimize'],
                  'stub': ['telemetry link', 'faults of the model']}
    assumptions = ['Optimisers: Nelder-Mead and L-BFGS-B']
    expected_probes = ['evaluated', 'batched', 'failed', 'nested', 'optimised', 'optimisation-failed', 'only-states',
                       'missing-temperature', 'same-point-again', 'improved', 'two-losses']
    quick_runs = 900
    thorough_runs = 16000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng)
        n = rng.weighted([(rng.randrange(2, 8), 3), (rng.randrange(8, 20), 1)])
        drive = worlds.gen_drive(rng, n, qt=c['qt'])
        behavior = rng.pick(['constant', 'linear'])
        rows, _ = worlds.simulate_rows(c, drive, behavior, noise=rng.pick([0, 1e-3]), noise_seed=rng.randrange(10 ** 6))
        if rng.chance(0.3):
            c['extra'] = worlds.gen_extra(rng, c, styles=worlds.SMOOTH)
        losses = []
        for _ in range(rng.pick([1, 2])):
            opts = worlds.updatable_options(c)
            if rng.chance(0.3):
                opts = [o for o in opts if rng.chance(0.5)] + worlds.other_options(c)
            names = [o for o in opts if rng.chance(0.5)]
            losses.append({'names': names, 'soc': rng.r(0.3, 0.7, 3), 'scale': rng.r(0.8, 1.25, 3)})
        points = []
        for k, s in enumerate(losses):
            ns = worlds.num_transients(c)
            size = ns + sum(refs.Cell(c, ocv=worlds.ocv_points('linear')).lengths(s['names']))
            points.append([[rng.r(0.35, 0.65, 3), *[rng.r(-0.05, 0.05, 3) for _ in range(ns - 1)],
                            *[rng.r(0.7, 1.4, 3) for _ in range(size - ns)]] for _ in range(rng.randrange(2, 5))])
        ops = []
        for _ in range(rng.randrange(3, 14)):
            k = rng.randrange(len(losses))
            o = {'op': 'eval', 'loss': k, 'points': [rng.randrange(len(points[k])) for _ in range(rng.pick([1, 1, 2, 3, 5]))]}
            x = rng.random()
            if x < 0.12:
                o = {'op': 'fit', 'loss': k, 'method': rng.pick(['Nelder-Mead', 'Nelder-Mead', 'L-BFGS-B']), 'maxiter': rng.randrange(1, 4)}
                if rng.chance(0.4):
                    o['fault'] = [int(rng.logu(1, 40 * n)), rng.pick(['error', 'value', 'interrupt', 'memory']), 'before']
            elif x < 0.4:
                o['fault'] = [rng.randrange(2 * n + 1), rng.pick(['error', 'value', 'interrupt', 'memory']),
                              rng.pick(['before', 'after'])]
            elif x < 0.6:
                j = rng.randrange(len(losses))
                o['nested'] = {'at': rng.randrange(2 * n), 'loss': j, 'points': [rng.randrange(len(points[j]))]}
            ops.append(o)
        return {'circuit': c, 'rows': rows, 'link': worlds.gen_link(rng, n, rate=0.1) if rng.chance(0.7) else [],
                'losses': losses, 'points': points, 'ops': ops, 'behavior': behavior, 'spoil': rng.chance(0.5)}

    def simplify(self, plan):
        for i, o in enumerate(plan['ops']):
            for k in ('fault', 'nested'):
                if k in o:
                    new = {a: b for a, b in o.items() if a != k}
                    yield {**plan, 'ops': plan['ops'][:i] + [new] + plan['ops'][i + 1:]}
            if o['op'] == 'eval' and len(o['points']) > 1:
                yield {**plan, 'ops': plan['ops'][:i] + [{**o, 'points': o['points'][:1]}] + plan['ops'][i + 1:]}
        for k, v in [('spoil', False)]:
            if plan[k] != v:
                yield {**plan, k: v}

    def execute(self, plan, ctx):
        from moirae.estimators.offline.loss import MeanSquaredLoss
        from moirae.estimators.offline.scipy import ScipyMinimizer
        c, behavior = plan['circuit'], plan['behavior']
        rows = worlds.deliver(plan['rows'], plan['link'], ctx.faults)
        if len(rows) < 1:
            return
        if all(math.isnan(r[2]) for r in rows):
            rows[0][2] = 25.
        seams.CALLS.active = False
        data = worlds.dataset(rows)
        snapshot = data.raw_data.copy(deep=True)
        ns = worlds.num_transients(c)
        model = seams.SimECM(behavior)
        losses, truth, xs, guesses, given = [], [], [], [], []
        with sut('build'):
            for s, pts in zip(plan['losses'], plan['points']):
                a = worlds.build_asoh(c)
                for n in s['names']:
                    a.mark_updatable(n)
                t = worlds.build_transients(c, soc=s['soc'])
                names = refs.health_order(s['names'])
                cell = refs.Cell(c, behavior, ocv=worlds.ocv_points('linear'))
                if names:
                    a.update_parameters(a.get_parameters() * s['scale'])
                health = cell.health(names)
                losses.append(MeanSquaredLoss(model, a, t, data))
                given.append((a, t))
                guesses.append(np.concatenate([t.to_numpy()[0], health * s['scale']]))
                x = np.array(pts, dtype=float)
                x[:, ns:] *= health
                xs.append(x)
                truth.append([self.reference(cell.with_health(names, p[ns:]), p[:ns], rows) for p in x])
        before = [(x.asoh.model_dump_json(), x.state.model_dump_json()) for x in losses]
        seams.CALLS.active = True
        seen = {}

        def evaluate(k, points, what):
            x = xs[k][points].copy()
            keep = x.copy()
            y = losses[k](x)
            require(isinstance(y, np.ndarray) and y.shape == (len(points),), 'loss-shape', lambda: f'{what}: {y!r}')
            require(np.array_equal(x, keep), 'changed-argument', lambda: f'{what}: parameters {keep} became {x}')
            for p, v in zip(points, y):
                want = truth[k][p]
                require(abs(v - want) <= 1e-7 * want + 1e-14, 'loss-value', lambda: f'{what}: {v} rather than {want} for {xs[k][p]}')
                if (k, p) in seen:
                    require(worlds.same(v, seen[k, p]), 'loss-not-repeatable', lambda: f'{what}: {v}, but {seen[k, p]} before')
                    ctx.probes['same-point-again'] += 1
                seen[k, p] = v
            if plan['spoil']:
                x[...] = -1.
                y[...] = -1.
            return len(points)

        def unchanged(what):
            require(data.raw_data.equals(snapshot), 'changed-data', lambda: f'{what}: the observations were changed')
            for k, s in enumerate(losses):
                now = (s.asoh.model_dump_json(), s.state.model_dump_json())
                require(now == before[k], 'changed-guess', lambda: f'{what}: guess {before[k]} became {now}')
                seams.CALLS.active = False
                x0 = s.get_x0()
                require(worlds.same(x0, guesses[k]), 'initial-guess', lambda: f'{what}: {x0} rather than {guesses[k]}')
                if plan['spoil']:
                    x0[...] = -1.
                seams.CALLS.active = True
        for i, o in enumerate(plan['ops']):
            k = o['loss']
            what = f'operation {i}'
            fault = o.get('fault')
            nested = []

            def switch(site, when, o=o, what=what, nested=nested):
                if when == 'before' and seams.CALLS.count == o['nested']['at'] and not nested:
                    nested.append(1)
                    saved, seams.CALLS.on_call = seams.CALLS.on_call, None
                    seams.CALLS.active = False
                    evaluate(o['nested']['loss'], o['nested']['points'], what + ', nested')
                    seams.CALLS.active = True
                    seams.CALLS.on_call = saved
            seams.CALLS.arm(fault[0], fault[1], fault[2]) if fault else seams.CALLS.arm(-1, 'error')
            if 'nested' in o:
                seams.CALLS.on_call = switch
            failed = result = None
            try:
                if o['op'] == 'eval':
                    evaluate(k, o['points'], what)
                else:
                    result = ScipyMinimizer(losses[k], method=o['method'], options={'maxiter': o['maxiter']}).estimate()
            except BaseException as e:
                if not is_injected(e):
                    with sut(o['op']):
                        raise
                failed = e
            seams.CALLS.on_call = None
            fired = seams.CALLS.fired
            seams.CALLS.disarm()
            if fired is not None:
                ctx.faults[f'{fired[1]} in {fired[0]} ({fired[2]})'] += 1
                require(failed is not None, 'swallowed', f'{what}: failure at {fired} was not reported')
                ctx.probes['failed' if o['op'] == 'eval' else 'optimisation-failed'] += 1
                # At once, the same without the failure
                if o['op'] == 'eval':
                    with sut('eval'):
                        evaluate(k, o['points'], what + ', again')
            else:
                require(failed is None, 'spurious', lambda: f'{what}: {failed!r}')
            if result is not None:
                self.fitted(result, losses[k], guesses[k], ns, what, ctx)
            unchanged(what)
            ctx.probes['nested'] += bool(nested)
            ctx.probes['evaluated'] += o['op'] == 'eval'
            ctx.probes['batched'] += o['op'] == 'eval' and len(o['points']) > 1
            ctx.steps += 1
            ctx.log(i, fired, sorted(seen.items()), None if result is None else result[2].x)
            ctx.sig(o['op'], bool(nested), len(o.get('points', [])), plan['losses'][k]['names'], behavior,
                    fired and fired[:3], o.get('method'))
        ctx.probes['two-losses'] += len(losses) > 1
        ctx.probes['only-states'] += any(not s['names'] for s in plan['losses'])
        ctx.probes['missing-temperature'] += any(math.isnan(r[2]) for r in rows)
        ctx.sim_time += rows[-1][0] - rows[0][0]

    def reference(self, cell, x, rows):
        inputs = [[r[0], r[1], r[2] if math.isfinite(r[2]) else 25.] for r in rows]
        x = np.array(x, dtype=float)
        total = (cell.voltage(x, inputs[0]) - rows[0][3]) ** 2
        for u, w, r in zip(inputs, inputs[1:], rows[1:]):
            x = cell.step(x, u, w)
            total += (cell.voltage(x, w) - r[3]) ** 2
        return total / len(rows)

    def fitted(self, result, loss, guess, ns, what, ctx):
        states, asoh, info = result
        seams.CALLS.active = False
        with sut('loss'):
            first, last = loss(np.array([guess, info.x])) if len(guess) else (0, 0)
            have = np.concatenate([states.to_numpy()[0], asoh.get_parameters()[0] if asoh.num_updatable else []])
        seams.CALLS.active = True
        require(worlds.same(have, info.x), 'fit-parameters', lambda: f'{what}: returned {have}, but the optimiser found {info.x}')
        require(last <= first * (1 + 1e-9) + 1e-15, 'fit-worse', lambda: f'{what}: loss {last}, although {first} initially')
        ctx.probes['optimised'] += 1
        ctx.probes['improved'] += bool(last < first * 0.999)
