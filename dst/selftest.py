"""Checks of the machinery: the same seeds give the same event logs, whatever the workers, hash seed and process"""
import os
import subprocess
import sys

from dst.core import VERIF


def digests(pid, runs, workers, hash_seed):
    env = dict(os.environ, DST_WORKERS=str(workers), PYTHONHASHSEED=str(hash_seed))
    r = subprocess.run([sys.executable, '-m', 'dst', 'digests', pid, '--runs', str(runs)], cwd=VERIF, env=env,
                       capture_output=True, text=True)
    return r.returncode, r.stdout


def main(args):
    """usage: dst selftest [PROPERTY...] [runs=N]"""
    runs = next((int(a[5:]) for a in args if a.startswith('runs=')), 40)
    pids = [a for a in args if not a.startswith('runs=')]
    pids = pids or sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, 'dst', 'props')) if f.startswith('c'))
    bad = 0
    for pid in pids:
        base = digests(pid, runs, 8, 0)
        others = [digests(pid, runs, 3, 77), digests(pid, runs, 1, 4242)]
        ok = base[0] == 0 and base[1].count('\n') >= runs and all(o == base for o in others)
        bad += not ok
        print(pid, 'same event logs' if ok else f'DIFFERENT (exit codes {base[0]}, {[o[0] for o in others]})', flush=True)
        if not ok:
            for a, *b in zip(base[1].splitlines(), *(o[1].splitlines() for o in others)):
                if any(x != a for x in b):
                    print('  ', a, '|', *b)
                    break
    return 1 if bad else 0
