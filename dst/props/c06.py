import contextlib
import io
from pathlib import Path

import numpy as np
import pandas as pd

from dst import recorder, seams, worlds
from dst.core import Property, Violation, require, sut
from dst.props.c03 import Expected


class PROPERTY(Property):
    id = 'C06'
    level = 'exploration'
    technique = 'datasets from a simulated faulty telemetry link, driven and stepped by hand side by side'
    note = ('Differential: the driver against an identical estimator stepped by hand over the same records, for random '
            'data, sources and options. Not exhaustive.')
    rule = ('A run drives one estimator over one to three datasets delivered by a faulty link, from memory or a file, with '
            'random options, and compares results, recording and continuation with stepping by hand.')
    sim_measure = 'distinct (source, outputs, numbering, index, link faults, estimator) combinations reached'
    components = {'real': ['run_online_estimate', 'row_to_inputs', 'JointEstimator/DualEstimator', 'HDF5Writer',
                           'battdat datasets and streaming'],
                  'stub': ['cell (simulated)', 'telemetry link', 'progress display (captured)']}
    assumptions = ['Datasets have at least one record, and finite times, currents and voltages']
    expected_probes = ['file', 'memory', 'recorded', 'temperature-missing', 'no-temperature', 'zero-degrees', 'no-cycles', 'several-runs',
                       'odd-index', 'no-states', 'single-record', 'clock-adjusted']
    quick_runs = 800
    thorough_runs = 12000

    def generate(self, rng, tier, index):
        c = worlds.gen_circuit(rng, rich=rng.chance(0.3))
        e = worlds.gen_estimator(rng, c, rare=0.2)
        runs = []
        t0 = 0.0
        for k in range(rng.weighted([(1, 5), (2, 3), (3, 1)])):
            n = rng.weighted([(1, 1), (rng.randrange(2, 5), 2), (rng.randrange(5, 40), 4)])
            drive = worlds.gen_drive(rng, n, qt=c['qt'])
            drive = [[round(d[0] + t0, 6), *d[1:]] for d in drive]
            rows, _ = worlds.simulate_rows(c, drive, noise=e['sensor'], noise_seed=rng.randrange(10 ** 6))
            rows = worlds.deliver(rows, worlds.gen_link(rng, n, rate=0.12)) if rng.chance(0.8) else rows
            clock = rng.weighted([(None, 6), ('back', 2), ('swap', 1), ('reset', 1)]) if len(rows) > 1 else None
            if clock is not None:  # The clock of the logger is adjusted, or records arrive in another order
                i = rng.randrange(1, len(rows))
                if clock == 'swap':
                    rows[i - 1], rows[i] = rows[i], rows[i - 1]
                else:
                    step = rows[i][0] if clock == 'reset' else rng.pick([1.0, 30.0, 3600.0])
                    for r in rows[i:]:
                        r[0] = round(r[0] - step, 6)
            temps = rng.weighted([('all', 3), ('some', 4), ('none', 1), ('nocolumn', 1)])
            for r in rows:
                if temps == 'none' or temps == 'nocolumn':
                    r[2] = None
                elif temps == 'some' and rng.chance(0.3):
                    r[2] = rng.pick([None, 'inf', '-inf'])
                elif rng.chance(0.1):
                    r[2] = rng.pick([0., -10., 55.])
            o = {'per_timestep': rng.pick(recorder.LEVELS), 'per_cycle': rng.pick(recorder.LEVELS), 'resizable': True,
                 'dataset_options': None}
            runs.append({
                'rows': rows, 'temps': temps, 'cycles': recorder.gen_cycles(rng, len(rows)) if rng.chance(0.75) else None,
                'source': rng.weighted([('memory', 3), ('path', 1), ('str', 1)]), 'pbar': rng.chance(0.25),
                'states': rng.chance(0.8), 'options': o,
                'output': rng.weighted([(None, 3), ('path', 1), ('group', 1), ('writer', 2)]),
                'index': rng.weighted([(None, 3), ('reversed', 1), ('same', 1), ('float', 1), ('named', 1)]),
                'extra': rng.chance(0.25), 'ints': rng.chance(0.15), 'clock': clock})
            t0 = rows[-1][0] + rng.pick([0.0, 1.0, 600.0]) if rng.chance(0.8) else 0.0
        return {'circuit': c, 'est': e, 'runs': runs, 'sim': False, 'first': rng.chance(0.5)}

    def simplify(self, plan):
        runs = plan['runs']
        for i in range(len(runs)):
            if len(runs) > 1:
                yield {**plan, 'runs': runs[:i] + runs[i + 1:]}
        for i, r in enumerate(runs):
            n = len(r['rows'])
            for k in {n // 2, n - 1} - {0, n}:
                yield {**plan, 'runs': runs[:i] + [{**r, 'rows': r['rows'][:k],
                                                    'cycles': r['cycles'] and r['cycles'][:k]}] + runs[i + 1:]}
            for k, v in [('pbar', False), ('output', None), ('index', None), ('extra', False), ('ints', False),
                         ('source', 'memory'), ('cycles', None), ('states', True)]:
                if r[k] != v:
                    yield {**plan, 'runs': runs[:i] + [{**r, k: v}] + runs[i + 1:]}

    def _data(self, r):
        rows = [[x[0], x[1], float('nan') if x[2] is None else float(x[2]), x[3]] for x in r['rows']]
        n = len(rows)
        index = {None: None, 'reversed': list(range(n))[::-1], 'same': [7] * n, 'float': [0.5 * i for i in range(n)],
                 'named': pd.Index(range(100, 100 + n), name='sample')}[r['index']]
        data = worlds.dataset(rows, r['cycles'], None)
        df = data.raw_data
        if r['temps'] == 'none':
            df['temperature'] = np.nan
        if r['temps'] == 'nocolumn' and 'temperature' in df:
            del df['temperature']
        if r['ints']:
            rows = [[float(int(x[0])), float(int(x[1])), *x[2:]] for x in rows]
            df['test_time'] = df['test_time'].astype(int)
            df['current'] = df['current'].astype(int)
        if r['extra']:
            df['zzz'] = -1.0
            df['file_number'] = 3
        if index is not None:
            df.index = index
        return data, rows

    def execute(self, plan, ctx):
        from moirae.interface import run_online_estimate
        c, e = plan['circuit'], plan['est']
        first = plan['runs'][0]['rows'][0]
        kw = {'first': (first[0], first[1], 25.)} if plan['first'] else {}
        with sut('build'):
            est = worlds.build_estimator(c, e, **kw)
            twin = worlds.build_estimator(c, e, **kw)
        names = [*twin.state_names, *(f'{s}_std' for s in twin.state_names),
                 *twin.output_names, *(f'{s}_std' for s in twin.output_names)]
        for k, r in enumerate(plan['runs']):
            data, rows = self._data(r)
            keep = data.raw_data.copy(deep=True)
            n = len(rows)
            # By hand
            expected, table = [], []
            failed = None
            with sut('by-hand'):
                for i, x in enumerate(rows):
                    try:
                        state, output = twin.step(worlds.row_input(x), worlds.make_meas(x[3]))
                    except np.linalg.LinAlgError as exc:
                        failed = exc  # Filters may diverge (e.g., if time goes back), but then both do
                        break
                    expected.append(Expected(i, x[0], r['cycles'][i] if r['cycles'] else 0, state, output))
                    sm, sc, om, oc = expected[-1].values
                    with np.errstate(invalid='ignore'):
                        table.append(np.concatenate([sm, np.sqrt(np.diag(sc)), om, np.sqrt(np.diag(oc))]))
            # By the driver
            source = data
            if r['source'] != 'memory':
                source = ctx.path(f'data-{k}.h5')
                data.to_hdf(source)
                source = Path(source) if r['source'] == 'path' else source
            target, where, root = self._target(r, ctx, k)
            levels = ('mean', 'full') if r['output'] in ('path', 'group') else \
                (r['options']['per_timestep'], r['options']['per_cycle'])
            if failed is not None:
                try:
                    with contextlib.redirect_stderr(io.StringIO()):
                        run_online_estimate(source, est, pbar=r['pbar'], output_states=r['states'], hdf5_output=target)
                except type(failed):
                    pass
                else:
                    raise Violation('error-lost', f'run {k}: {type(failed).__name__} at record {len(expected)} by hand, '
                                                  'but not with the driver')
                if where is not None:
                    model = recorder.Recording(*levels)
                    for s in expected:
                        model.accept(s)
                    model.check(where, f'run {k}')
                    if root is not None:
                        root.close()
                ctx.probes['both-failed'] += 1
                ctx.log(k, table)
                return
            options = {}
            if r['pbar'] or r['extra']:
                options['pbar'] = r['pbar']
            if not r['states'] or r['extra']:
                options['output_states'] = r['states']
            if target is not None or r['extra']:
                options['hdf5_output'] = target
            shown = io.StringIO()
            with sut('run'), contextlib.redirect_stderr(shown), contextlib.redirect_stdout(shown):
                df, back = run_online_estimate(source, est, **options)
            require(bool(shown.getvalue()) == r['pbar'], 'progress-shown',
                    lambda: f'run {k}: shown {shown.getvalue()!r} with pbar={r["pbar"]}')
            # Compare
            require(data.raw_data.equals(keep) and list(data.raw_data.columns) == list(keep.columns),
                    'changed-data', 'the dataset was changed')
            if r['states']:
                require(isinstance(df, pd.DataFrame) and len(df) == n, 'row-count',
                        lambda: f'{None if df is None else len(df)} rows for {n} records')
                require(list(df.columns) == names, 'column-names', lambda: f'{list(df.columns)} rather than {names}')
                got = df.to_numpy(dtype=float)
                for i in range(n):
                    if not worlds.same(got[i], table[i]):
                        j = int(np.argmax(np.abs(got[i] - table[i])))
                        raise Violation('differs-from-hand', f'run {k}, record {i} of {n}, {names[j]}: {got[i][j]!r} '
                                                             f'rather than {table[i][j]!r}')
            else:
                require(df is None, 'unwanted-output', 'states were returned although not wanted')
                ctx.probes['no-states'] += 1
            if where is not None:
                model = recorder.Recording(*levels)
                for s in expected:
                    model.accept(s)
                model.check(where, f'run {k}')
                ctx.probes['recorded'] += 1
                if root is not None:
                    root.close()
            require(worlds.same_dist(back.state, twin.state) and worlds.same_dist(back.state, state, 1e-8),
                    'estimator-differs', f'run {k}: the estimator returned is not in the state reached by hand')
            est = back
            ctx.steps += n
            ctx.sim_time += max(rows[-1][0] - rows[0][0], 0)
            ctx.probes['clock-adjusted'] += any(a[0] > b[0] for a, b in zip(rows, rows[1:]))
            if r['clock']:
                ctx.faults[f'clock-{r["clock"]}'] += 1
            ctx.log(k, table)
            ctx.sig(r['source'], r['output'], levels if r['output'] else None, r['index'], r['temps'],
                    r['cycles'] is None, e['kind'], e['normalize'], r['ints'], r['extra'])
            ctx.probes['memory' if r['source'] == 'memory' else 'file'] += 1
            ctx.probes['temperature-missing'] += r['temps'] == 'some'
            ctx.probes['no-temperature'] += r['temps'] in ('none', 'nocolumn')
            ctx.probes['zero-degrees'] += any(x[2] == 0. for x in r['rows'])
            ctx.probes['no-cycles'] += r['cycles'] is None
            ctx.probes['odd-index'] += r['index'] is not None
            ctx.probes['single-record'] += n == 1
            ctx.faults['temperature-lost'] += sum(x[2] is None or isinstance(x[2], str) for x in r['rows'])
            ctx.faults['time-repeated'] += sum(a[0] == b[0] for a, b in zip(rows, rows[1:]))
        ctx.probes['several-runs'] += len(plan['runs']) > 1
        if any(r['clock'] for r in plan['runs']):
            return
        # Both continue in the same way
        last = plan['runs'][-1]['rows'][-1]
        for j in range(2):
            x = worlds.make_input(float(last[0]) + 10. * (j + 1), 0.3, 26.)
            try:
                b = twin.step(x, worlds.make_meas(3.65))
            except np.linalg.LinAlgError:
                break
            with sut('continue'):
                a = est.step(x, worlds.make_meas(3.65))
            require(worlds.same_dist(a[0], b[0]) and worlds.same_dist(a[1], b[1]), 'continues-differently',
                    'the estimator does not continue as the one stepped by hand')

    def _target(self, r, ctx, k):
        """Where to record, what to read from, and the file to close"""
        if r['output'] is None:
            return None, None, None
        path = ctx.path(f'out-{k}.h5')
        if r['output'] == 'path':
            return path, path, None
        if r['output'] == 'group':
            root = recorder.memory_file()
            root.create_group('state_estimates')
            return root, root['state_estimates'], root
        return recorder.make_writer(path, r['options']), path, None
