"""Run the checks: shard runs over workers, minimise and confirm violations, write evidence"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from dst import core
from dst.core import VERIF, derive, execute

WORKERS = int(os.environ.get('DST_WORKERS', '8'))


def load(pid):
    return importlib.import_module(f'dst.props.{pid.lower()}').PROPERTY()


def known_findings(pid):
    """Entries `finding: property=<id> class=<class> match=<text in the detail> -- <what fails>`"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding:') and f'property={pid} ' in line:
                head, _, what = line[8:].partition(' -- ')
                kv = dict(x.split('=', 1) for x in head.split() if '=' in x)
                out.append({'class': kv.get('class'), 'match': kv.get('match', ''), 'what': what.strip()})
    return out


def matches(violation, findings):
    for f in findings:
        if f['class'] == violation['class'] and f['match'] in violation['detail']:
            return f
    return None


def make_plan(prop, seed, tier, index):
    plan = prop.generate(derive(seed, prop.id, index), tier, index)
    return json.loads(json.dumps(plan))  # Ensures that a replay sees exactly the same


def _work(pid, seed, tier, indices, queue, deadline, counter):
    try:
        signal.signal(signal.SIGINT, signal.default_int_handler)
        prop = load(pid)
        before = []
        while True:
            with counter.get_lock():
                k = counter.value
                counter.value += 1
            if k >= len(indices):
                break
            i = indices[k]
            if time.time() > deadline:
                queue.put(('timeout', i, None))
                break
            plan = make_plan(prop, seed, tier, i)
            queue.put(('start', i, os.getpid()))
            cpu = time.process_time()
            o = execute(prop, plan)
            c = o.ctx
            queue.put(('run', i, dict(violation=o.violation, error=o.error, digest=o.digest, faults=dict(c.faults),
                                      probes={k: int(v) for k, v in c.probes.items()}, sim=c.sim_time, steps=c.steps, sigs=sorted(c.sigs),
                                      nontrivial=c.nontrivial, cpu=time.process_time() - cpu, before=list(before) if o.violation else None)))
            before.append(i)
        queue.put(('done', None, None))
    except BaseException:
        queue.put(('crash', None, traceback.format_exc()))


def _cpu(pid):
    """Processor time used by a process so far, in seconds"""
    try:
        with open(f'/proc/{pid}/stat') as f:
            fields = f.read().rpartition(')')[2].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.


def sweep(pid, seed, tier, indices, wall, stop_on_violation=True, workers=WORKERS, run_cap=240):
    """Execute the runs with the given indices. Results do not depend on the number of workers"""
    ctx = mp.get_context('fork')
    queue = ctx.Queue()
    counter = ctx.Value('i', 0)
    deadline = time.time() + wall
    procs = [ctx.Process(target=_work, args=(pid, seed, tier, indices, queue, deadline, counter), daemon=True)
             for _ in range(workers)]
    for p in procs:
        p.start()
    results, errors, running, done = {}, [], {}, 0
    import queue as q
    while done < len(procs):
        try:
            kind, i, data = queue.get(timeout=1)
        except q.Empty:
            now = time.time()
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead:
                errors.append(f'worker died with exit code {dead[0].exitcode}')
                break
            # A run gets its allowance of processor time, or a larger one of wall time: a busy machine is not a hung run
            late = [(i, t) for i, (t, pid, cpu) in running.items() if _cpu(pid) - cpu > run_cap or now - t > 2.5 * run_cap]
            if late:
                errors.append(f'run {late[0][0]} did not finish within {run_cap} s')
                break
            if now > deadline + 60:
                break
            continue
        if kind == 'start':
            running[i] = time.time(), data, _cpu(data)
        elif kind == 'run':
            running.pop(i, None)
            results[i] = data
            if data['violation'] is not None and stop_on_violation:
                with counter.get_lock():
                    counter.value = max(counter.value, len(indices))
        elif kind == 'done':
            done += 1
        elif kind == 'timeout':  # The runs executed so far are what has been explored, as the evidence says
            pass
        elif kind == 'crash':
            errors.append(data)
            done += 1
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    return results, errors


def replay_file(path):
    """Execute a replay file. Returns the outcome and the violation it recorded"""
    data = json.load(open(path))
    prop = load(data['property'])
    for plan in data.get('before', []):  # Earlier runs in the same process whose effects have to be there
        execute(prop, plan)
    o = execute(prop, data['plan'])
    return data, o


def history(prop, seed, tier, i, violation, before, budget_s=150):
    """A violation that depends on earlier runs in the process: find the fewest of them which are needed"""
    t0 = time.time()
    plan = make_plan(prop, seed, tier, i)

    def attempt(indices):
        o = core.Outcome()
        o.violation, o.digest = violation, None
        path = write_replay(prop, seed, tier, i, plan, o, [make_plan(prop, seed, tier, k) for k in indices])
        return path if confirm(path)[0] else None

    path = attempt(before)
    if path is None:
        return None
    n = max(1, len(before) // 2)
    while n >= 1 and time.time() - t0 < budget_s:
        k = 0
        while k < len(before) and time.time() - t0 < budget_s:
            fewer = before[:k] + before[k + n:]
            if attempt(fewer):
                before = fewer
            else:
                k += n
        n //= 2
    path = attempt(before)
    if path is not None:  # Note the event log as well
        text = confirm(path, quiet=False)[1]
        data = json.load(open(path))
        data['digest'] = json.loads(text[:text.rindex('}') + 1])['digest']
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
    return path


def write_replay(prop, seed, tier, index, plan, outcome, before=()):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', f'{prop.id}-seed{seed}-run{index}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop.id, 'seed': seed, 'tier': tier, 'run': index, 'violation': outcome.violation,
                   'digest': outcome.digest, 'plan': plan, **({'before': list(before)} if before else {})}, f, indent=1)
    return path


def confirm(path, quiet=True):
    """Replay in a fresh process under another hash seed: it has to fail in the same way"""
    env = dict(os.environ, PYTHONHASHSEED='4242')
    r = subprocess.run([sys.executable, '-m', 'dst', 'replay', path, *(['--quiet'] if quiet else [])], cwd=VERIF, env=env,
                       capture_output=True, text=True, timeout=300)
    return r.returncode == 1, (r.stdout + r.stderr)[-4000:]


def check(pid, tier, seed, runs=None, wall=None):
    t0 = time.time()
    prop = load(pid)
    n = runs or (prop.quick_runs if tier == 'quick' else prop.thorough_runs)
    wall = wall or (500 if tier == 'quick' else 6 * 3600)
    print(f'{pid}: seed={seed} tier={tier} runs={n} workers={WORKERS}', flush=True)
    findings = known_findings(pid)
    results, errors = sweep(pid, seed, tier, list(range(n)), wall)
    # The same runs, in other processes and another order, have to give the same event logs
    sample = [i for i in range(0, n, max(1, n // 16))][:16]
    again, errors2 = sweep(pid, seed, tier, list(reversed(sample)), 120, stop_on_violation=False,
                           workers=min(4, WORKERS))
    mismatch = [i for i in sample if i in results and i in again and results[i]['digest'] != again[i]['digest']]

    run_errors = [(i, r['error']) for i, r in sorted(results.items()) if r['error']]
    bad, listed = [], {}
    for i, r in sorted(results.items()):
        if r['violation'] is not None:
            f = matches(r['violation'], findings)
            if f is None:
                bad.append(i)
            else:
                listed[f['what']] = listed.get(f['what'], 0) + 1

    for what, count in listed.items():
        print(f'KNOWN-FINDING: property={pid} {what} ({count} runs)')

    status = 0
    replay = None
    if bad:
        for i in bad[:5]:
            plan = make_plan(prop, seed, tier, i)
            v = results[i]['violation']
            o = execute(prop, plan)
            if o.violation is None or o.violation['class'] != v['class']:
                path = history(prop, seed, tier, i, v, results[i]['before'] or []) if results[i]['before'] else None
                if path is not None:
                    count = len(json.load(open(path)).get('before', []))
                    print(f'run {i}: {v["class"]}: {v["detail"]} (only after {count} earlier runs in the same process)')
                    print(f'VIOLATION property={pid} replay={path}', flush=True)
                    status = 1
                    replay = path
                    break
                print(f'harness: run {i} reported {v} but not when executed again: {o.violation} {o.error}')
                continue
            print(f'run {i}: {o.violation["class"]}: {o.violation["detail"]}', flush=True)
            small = core.shrink(prop, plan, v['class'], prop.max_shrink_s, print)
            so = execute(prop, small) if small != plan else o
            path = write_replay(prop, seed, tier, i, small, so)
            ok, text = confirm(path)
            if not ok:
                path = write_replay(prop, seed, tier, i, plan, o)
                ok, text = confirm(path)
                so = o
            if ok:
                print(f'minimal: {so.violation["class"]}: {so.violation["detail"]}')
                print(f'VIOLATION property={pid} replay={path}', flush=True)
                status = 1
                replay = path
                break
            print(f'harness: {path} does not reproduce in a fresh process: {text}')
        if status != 1:
            status = 2
    if status == 0 and (errors or errors2 or run_errors or mismatch):
        for e in errors + errors2:
            print('harness error:', e)
        for i, e in run_errors[:3]:
            print(f'harness error in run {i}:\n{e}')
        if mismatch:
            print('harness error: runs are not deterministic:', mismatch)
        status = 2
    if status == 0 and len(results) < n:
        if len(results) < n / 10:
            print(f'harness error: only {len(results)} of {n} runs were executed')
            status = 2
        else:
            print(f'note: the time allowed was enough for {len(results)} of {n} runs')

    # Evidence
    wall_s = time.time() - t0
    faults, probes, sigs = Counter(), Counter(), set()
    for r in results.values():
        faults.update(r['faults'])
        probes.update(r['probes'])
        sigs.update(r['sigs'])
    nontrivial = {r['digest'] for r in results.values() if r['nontrivial']}
    sample_plans = []
    for i in sorted(results)[:2]:
        text = json.dumps(prop.describe(make_plan(prop, seed, tier, i)))
        sample_plans.append(json.loads(text) if len(text) < 3000 else text[:3000] + '...')
    sim = sum(r['sim'] for r in results.values())
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level,
        'coverage': {
            'evaluations': len(results),
            'runs_planned': n,
            'distinct_nontrivial': len(nontrivial),
            'rule': prop.rule,
            'samples': sample_plans,
            'simulated_runs_per_hour': round(len(results) / max(wall_s, 1e-9) * 3600),
            'simulated_time_s': round(sim, 3),
            'system_steps': sum(r['steps'] for r in results.values()),
            'faults_injected': dict(sorted(faults.items())),
            'probes': dict(sorted(probes.items())),
            'distinct_states': len(sigs),
            'distinct_states_measure': prop.sim_measure,
            'components': prop.components,
            'runs_executed_twice_with_equal_event_logs': len([i for i in sample if i in again]) - len(mismatch),
            'longest_run_cpu_s': round(max((r['cpu'] for r in results.values()), default=0), 2),
            'known_findings_seen': listed,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall_s, 2),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print(f'{pid}: {len(results)} runs, {len(bad)} violations, {sum(faults.values())} faults, '
          f'{len(sigs)} states, {wall_s:.1f} s, exit {status}', flush=True)
    zero = [k for k in getattr(prop, 'expected_probes', []) if not probes.get(k) and not faults.get(k)]
    if zero and tier == 'quick' and n >= prop.quick_runs:
        print('note: probes never reached:', zero)
    return status
