import numpy as np

from dst import seams, worlds
from dst.core import Property, is_injected, require, sut


class Twin:
    """What a simulator does, written from its documentation: the models applied to the last completed step"""

    def __init__(self, model, degradation, asoh, transients, inputs):
        self.model, self.degradation = model, degradation
        self.asoh, self.transients, self.inputs = (x.model_copy(deep=True) for x in (asoh, transients, inputs))
        self.rows = []
        self._record(self._voltage(self.inputs, self.transients))

    def _voltage(self, inputs, transients):
        return self.model.calculate_terminal_voltage(new_inputs=inputs, transient_state=transients, asoh=self.asoh)

    def _record(self, meas):
        self.meas = meas
        self.rows.append(tuple(np.array(x, copy=True) for x in (
            self.inputs.to_numpy(), self.transients.to_numpy(), meas.to_numpy(),
            self.asoh.get_parameters(self.asoh_names()))))

    def asoh_names(self):
        return [n for n in self.asoh.all_names if n.endswith('base_values') and not n.startswith('ocv')]

    def step(self, inputs):
        new = self.model.update_transient_state(previous_inputs=self.inputs, new_inputs=inputs,
                                                transient_state=self.transients, asoh=self.asoh)
        meas = self._voltage(inputs, new)
        asoh = self.degradation.update_asoh(previous_asoh=self.asoh, new_inputs=inputs, new_transients=new,
                                            new_measurements=meas)
        self.inputs, self.transients = inputs.model_copy(deep=True), new.model_copy(deep=True)
        self.asoh = asoh.model_copy(deep=True)
        self._record(meas)


def spread(x, n):
    return x if x.shape[0] == n else np.repeat(x, n, axis=0)


class PROPERTY(Property):
    id = 'C12'
    level = 'exploration'
    technique = 'failures of the models at any call of any step, compared with the models applied by hand'
    note = 'Histories, tables and datasets are compared after every operation with those of completed steps.'
    rule = ('A run steps one simulator (or several batch members) over a drive. Calls to its models fail before or after '
            'taking effect; failed steps are retried or skipped; results are modified by the caller.')
    sim_measure = 'distinct (batch, optional states, degradation, operation, call failing, kind, repeat of the failure) reached'
    components = {'real': ['Simulator', 'EquivalentCircuitModel', 'ECMASOH', 'battdat.CellDataset'],
                  'stub': ['degradation model', 'faults of the models']}
    assumptions = ['Inputs are shared by the members of a batch']
    expected_probes = ['failed', 'retried', 'skipped', 'evolve-interrupted', 'batch', 'batch-of-states', 'degraded', 'no-history',
                       'table', 'dataset', 'mutated', 'adjusted', 'failed-twice', 'stalled']
    quick_runs = 2400
    thorough_runs = 25000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng)
        size = rng.weighted([(1, 5), (2, 2), (3, 2), (5, 1)])
        batch = worlds.gen_batch(rng, c, size) if size > 1 else {'size': 1, 'factors': {}, 'soc': None}
        n = rng.weighted([(rng.randrange(1, 6), 3), (rng.randrange(6, 25), 2)])
        if tier == 'thorough' and rng.chance(0.1):
            n = 150
        drive = worlds.gen_drive(rng, n + 1, qt=c['qt'])
        for d in drive:
            if rng.chance(0.2):
                d[2] = rng.r(0, 45, 1)
        if rng.chance(0.4):  # A clock which stalls, such that several steps happen at the same time
            for u, w in zip(drive, drive[1:]):
                if rng.chance(0.3):
                    w[0] = u[0]
                    w[1] = round(w[1] + 0.01, 6) if w[1] == u[1] else w[1]
            drive.sort(key=lambda r: r[0])
        ops = []
        left = n
        while left > 0:
            if rng.chance(0.25):
                k = min(left, rng.randrange(1, 5))
                ops.append({'op': 'evolve', 'n': k})
            else:
                k = 1
                ops.append({'op': 'step', 'n': 1})
            left -= k
            if rng.chance(0.2):
                ops.append({'op': rng.pick(['table', 'dataset', 'dataset-extra'])})
            if rng.chance(0.08):
                ops.append({'op': 'adjust', 'what': rng.pick(['health', 'state', 'input', 'output']),
                            'by': rng.r(0.5, 1.5, 3)})
        faults = []
        rate = rng.pick([0, 0.2, 0.5])
        for i, o in enumerate(ops):
            if 'n' in o and rng.chance(rate):
                for _ in range(1 + rng.chance(0.3)):
                    faults.append([i, rng.randrange(3 * o['n']), rng.pick(['error', 'value', 'interrupt', 'oserror', 'memory']),
                                   rng.pick(['before', 'after']), rng.chance(0.75)])
        return {'circuit': c, 'batch': batch, 'inputs': drive, 'ops': ops, 'faults': faults,
                'degrade': rng.pick([0, 0, 1e-3]), 'history': rng.chance(0.85), 'mutate': rng.chance(0.5),
                'behavior': rng.pick(['constant', 'linear'])}

    def simplify(self, plan):
        if plan['batch']['size'] > 1:
            yield {**plan, 'batch': {'size': 1, 'factors': {}, 'soc': None}}
            for f in plan['batch']['factors']:
                rest = {k: v for k, v in plan['batch']['factors'].items() if k != f}
                yield {**plan, 'batch': {**plan['batch'], 'factors': rest}}
        for k, v in [('degrade', 0), ('mutate', False), ('behavior', 'constant')]:
            if plan[k] != v:
                yield {**plan, k: v}
        c = plan['circuit']
        for k, v in [('rc', []), ('c0', None), ('ocv', 'linear')]:
            if c[k] != v and not any(f.startswith(k) for f in plan['batch']['factors']):
                yield {**plan, 'circuit': {**c, k: v}}

    def execute(self, plan, ctx):
        from moirae.simulator import Simulator
        from moirae.models.ecm import EquivalentCircuitModel
        from moirae.models.utils import NoDegradation
        c, b, rows = plan['circuit'], plan['batch'], plan['inputs']
        if not rows:
            return
        self.size = b['size'] if b['factors'] or b['soc'] is not None else 1
        with sut('build'):
            a, t = worlds.build_batch(c, b)
            seams.CALLS.active = False
            deg = seams.SimDegradation(plan['degrade']) if plan['degrade'] else NoDegradation()
            twin = Twin(EquivalentCircuitModel(plan['behavior']), deg, a, t, worlds.make_input(*rows[0]))
            u = worlds.make_input(*rows[0])
            options = {'keep_history': plan['history']} if plan['history'] or plan['mutate'] else {}
            sim = Simulator(cell_model=seams.SimECM(plan['behavior']), asoh=a, transient_state=t,
                            initial_input=u, **options,
                            degradation_model=seams.SimDegradation(plan['degrade']) if plan['degrade'] else NoDegradation())
            seams.CALLS.active = True
        if plan['mutate']:
            a.r0.base_values[...] = 7.
            t.soc[...] = -3.
            u.current[...] = 100.
        names = [twin.inputs.all_names, twin.transients.all_names, twin.meas.all_names]
        self.check(sim, twin, plan, 'initially')
        pos = 1
        for i, o in enumerate(plan['ops']):
            if o['op'] == 'adjust':
                self.adjust(sim, twin, o, plan, f'operation {i}')
                ctx.probes['adjusted'] += 1
                continue
            if 'n' not in o:
                self.tables(sim, twin, names, o['op'], plan, ctx, f'operation {i}')
                continue
            todo = [r for r in rows[pos:pos + o['n']]]
            pos += o['n']
            inputs = [worlds.make_input(*r) for r in todo]
            if not inputs:
                break
            tries = [f for f in plan['faults'] if f[0] == i] + [None]
            for k, f in enumerate(tries):
                done = len(twin.rows)
                if f is not None:
                    seams.CALLS.arm(f[1], f[2], f[3])
                results, failed, passed = [], None, inputs
                try:
                    if o['op'] == 'step':
                        results = [sim.step(inputs[0])]
                    else:
                        results = [(None, m) for m in sim.evolve(inputs)]
                except BaseException as e:
                    if not is_injected(e):
                        with sut('step'):
                            raise
                    failed = e
                fired = seams.CALLS.fired if f is not None else None
                seams.CALLS.disarm()
                seams.CALLS.fired = None
                seams.CALLS.active = False
                if fired is not None:
                    require(failed is not None, 'swallowed', f'operation {i}: failure at {fired} was not reported')
                    ctx.faults[f'{fired[1]} in {fired[0]} ({fired[2]})'] += 1
                    ctx.probes['failed'] += 1
                    ctx.probes['failed-twice'] += k > 0
                    # Steps completed before are kept: as many as whose effect is seen on the time of the simulator
                    completed = 0
                    if o['op'] == 'evolve':
                        now = float(np.ravel(sim.previous_input.time)[0])
                        least, most = sum(r[0] < now for r in todo), sum(r[0] <= now for r in todo)
                        completed = most
                        if least < most:  # Several at this time
                            entered = len(sim.input_history) - len(twin.rows) if plan['history'] else next(
                                (j for j in range(most, least, -1) if np.ravel(sim.previous_input.current)[0] == todo[j - 1][1]), least)
                            if least <= entered <= most:
                                completed = entered
                        ctx.probes['evolve-interrupted'] += completed > 0
                    for x in inputs[:completed]:
                        twin.step(x)
                    inputs, todo = inputs[completed:], todo[completed:]
                else:
                    require(failed is None, 'spurious', lambda: f'operation {i}: {failed!r} without failure')
                    for x in inputs:
                        twin.step(x)
                    require(len(results) == len(inputs), 'results-count', f'operation {i}: {len(results)} results')
                    for (s, m), want in zip(results, twin.rows[done:]):
                        require(worlds.same(m.to_numpy(), want[2]), 'result-output',
                                lambda: f'operation {i}: {m.to_numpy()} rather than {want[2]}')
                        require(s is None or worlds.same(s.to_numpy(), want[1]), 'result-state',
                                lambda: f'operation {i}: {s and s.to_numpy()} rather than {want[1]}')
                    inputs = []
                if plan['mutate']:  # What was returned or passed belongs to the caller
                    for s, m in results:
                        m.terminal_voltage[...] = -1.
                        if s is not None:
                            s.soc[...] = -1.
                            s.hyst[...] = -1.
                    for x in passed[:len(passed) - len(inputs)]:
                        x.current[...] = 1e3
                        x.time[...] = -1e3
                    ctx.probes['mutated'] += len(results)
                seams.CALLS.active = True
                self.check(sim, twin, plan, f'operation {i}, attempt {k}')
                ctx.log(i, k, fired, twin.rows[-1][1], twin.rows[-1][2])
                ctx.sig(self.size > 1, b['soc'] is None, len(c['rc']), c['c0'] is None, plan['degrade'] > 0, o['op'],
                        fired and fired[0], fired and fired[2], fired and f[2], k)
                ctx.probes['stalled'] += any(u[0] == w[0] for u, w in zip(rows, rows[1:pos]))
                if not inputs:
                    break
                if f is not None and fired is not None:
                    ctx.probes['retried' if f[4] else 'skipped'] += 1
                    if not f[4]:
                        break
                inputs = [worlds.make_input(*r) for r in todo]
        self.tables(sim, twin, names, 'table', plan, ctx, 'finally')
        self.tables(sim, twin, names, 'dataset', plan, ctx, 'finally')
        ctx.steps += len(twin.rows) - 1
        ctx.sim_time += rows[-1][0] - rows[0][0]
        ctx.probes['batch'] += self.size > 1
        ctx.probes['batch-of-states'] += self.size > 1 and b['soc'] is not None
        ctx.probes['degraded'] += plan['degrade'] > 0
        ctx.probes['no-history'] += not plan['history']

    def adjust(self, sim, twin, o, plan, what):
        """The user changes the current condition in place, which has to be used from then on and not in the history"""
        for m in (sim, twin):
            t = m.transient if m is sim else m.transients
            u = m.previous_input if m is sim else m.inputs
            y = m.measurement if m is sim else m.meas
            if o['what'] == 'health':
                m.asoh.r0.base_values[...] *= o['by']
            elif o['what'] == 'state':
                t.soc[...] *= o['by']
            elif o['what'] == 'input':
                u.current[...] *= o['by']
            else:
                y.terminal_voltage[...] *= o['by']
        if plan['history']:
            self.check_history(sim, twin, f'{what}, after adjusting the current {o["what"]}')

    def check(self, sim, twin, plan, what):
        """State and history of the simulator"""
        inp, tra, mea, hea = (twin.inputs.to_numpy(), twin.transients.to_numpy(), twin.meas.to_numpy(),
                              twin.asoh.get_parameters(twin.asoh_names()))
        with sut('look'):
            [sim.previous_input, sim.transient, sim.measurement, sim.asoh]
            if plan['history']:
                [sim.input_history, sim.transient_history, sim.measurement_history, sim.asoh_history]
        for label, have, want in [('input', sim.previous_input.to_numpy(), inp), ('state', sim.transient.to_numpy(), tra),
                                  ('output', sim.measurement.to_numpy(), mea),
                                  ('health', sim.asoh.get_parameters(twin.asoh_names()), hea)]:
            require(worlds.same(have, want), f'current-{label}', lambda: f'{what}: {label} is {have} rather than {want}')
        if plan['history']:
            self.check_history(sim, twin, what)

    @staticmethod
    def check_history(sim, twin, what):
        lists = [sim.input_history, sim.transient_history, sim.measurement_history, sim.asoh_history]
        require(all(len(x) == len(twin.rows) for x in lists), 'history-length',
                lambda: f'{what}: {[len(x) for x in lists]} entries after {len(twin.rows) - 1} completed steps')
        for k, want in enumerate(twin.rows):
            have = [x[k].to_numpy() for x in lists[:3]] + [lists[3][k].get_parameters(twin.asoh_names())]
            for label, h, w in zip(['input', 'state', 'output', 'health'], have, want):
                require(worlds.same(h, w), f'history-{label}', lambda: f'{what}: {label} of step {k} is {h} rather than {w}')

    def tables(self, sim, twin, names, op, plan, ctx, what):
        if not plan['history']:
            try:
                sim.to_dataframe()
            except Exception:
                return
            require(False, 'table-without-history', f'{what}: a table was returned although no history is kept')
        n = self.size
        flat = [x for part in names for x in part]
        want = np.concatenate([np.concatenate([spread(x, n) for x in r[:3]], axis=1) for r in twin.rows])
        if op == 'table':
            with sut('to_dataframe'):
                df = sim.to_dataframe()
            require(list(df.columns) == ['batch', *flat], 'table-columns', lambda: f'{what}: {list(df.columns)}')
            require(len(df) == len(want), 'table-length', lambda: f'{what}: {len(df)} rows rather than {len(want)}')
            members = [k for _ in twin.rows for k in range(n)]
            require(list(df['batch']) == members, 'table-members', lambda: f'{what}: {list(df["batch"])}')
            require(worlds.same(df[list(flat)].to_numpy(), want), 'table-values',
                    lambda: f'{what}: {df[list(flat)].to_numpy()} rather than {want}')
            ctx.probes['table'] += 1
            return
        with sut('to_batdata'):
            data = sim.to_batdata(extra_columns=True) if op.endswith('extra') else sim.to_batdata()
        require(len(data) == n, 'dataset-count', lambda: f'{what}: {len(data)} datasets for {n} members')
        renamed = [{'time': 'test_time', 'terminal_voltage': 'voltage'}.get(x, x) for x in flat]
        for k, d in enumerate(data):
            raw = d.raw_data
            require(all(x in raw.columns for x in renamed), 'dataset-columns', lambda: f'{what}: {list(raw.columns)}')
            require(worlds.same(raw[renamed].to_numpy(), want[k::n]), 'dataset-values',
                    lambda: f'{what}: member {k} is {raw[renamed].to_numpy()} rather than {want[k::n]}')
            known = set(d.schemas['raw_data'].extra_columns)
            states = set(names[1])
            require(known & states == (states if op.endswith('extra') else set()), 'dataset-schema',
                    lambda: f'{what}: of the states {sorted(states)}, the columns {sorted(known & states)} are described')
        ctx.probes['dataset'] += 1
