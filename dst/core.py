"""Kernel of the simulator: seeds, plans, runs, violations, shrinking, replay and evidence.

One *run* is decided by a *plan*: a JSON document drawn from a PRNG whose seed is derived from
(VERIF_SEED, property, run index). Executing a plan is a pure function of the plan and of the code
in /repo; nothing else (clock, scheduler, disk, process, hash seed) takes part. Plans are therefore
the replay files, and minimising a failure means simplifying its plan.
"""
import gc
import hashlib
import json
import os
import random
import shutil
import signal
import tempfile
import threading
import time
import traceback
from collections import Counter
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')


# ----------------------------------------------------------------------------- randomness
class Rng(random.Random):
    """PRNG with a few conveniences. The only source of randomness when generating plans"""

    def chance(self, p):
        return self.random() < p

    def pick(self, options):
        return options[self.randrange(len(options))]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def r(self, lo, hi, nd=6):
        """A float rounded, so that plans are short and exactly represented"""
        return round(self.uniform(lo, hi), nd)

    def logu(self, lo, hi, nd=9):
        import math
        return float(f'{math.exp(self.uniform(math.log(lo), math.log(hi))):.4g}')


def derive(seed, *parts):
    h = hashlib.sha256(repr((int(seed),) + tuple(str(p) for p in parts)).encode()).digest()
    return Rng(int.from_bytes(h[:8], 'big'))


# ----------------------------------------------------------------------------- outcomes
class Violation(Exception):
    """The property does not hold. `cls` identifies the kind, which is kept while minimising"""

    def __init__(self, cls, detail=''):
        super().__init__(f'{cls}: {detail}')
        self.cls = cls
        self.detail = str(detail)[:1500]


class HarnessError(Exception):
    """The harness itself is broken. Never reported as a violation"""


def require(cond, cls, detail=''):
    if not cond:
        raise Violation(cls, detail() if callable(detail) else detail)


class InjectedError(Exception):
    """Raised by the fault injectors (model errors)"""


class InjectedOSError(OSError):
    """Raised by the fault injectors (storage and source errors)"""


class InjectedInterrupt(KeyboardInterrupt):
    """Raised by the fault injectors (operator interrupts)"""


class Stalled(BaseException):
    """Raised if a run takes far longer than any run does"""


RUN_CPU_S = 45  # Runs take a few seconds at most

INJECTED = (InjectedError, InjectedOSError, InjectedInterrupt)


def is_injected(exc):
    """Whether an exception is an injected fault, or was caused by one"""
    seen = 0
    while exc is not None and seen < 20:
        if isinstance(exc, INJECTED) or 'dst-fault' in str(exc):
            return True
        exc = exc.__cause__ or exc.__context__
        seen += 1
    return False


@contextmanager
def sut(what):
    """Code of the repository that has to work: any error is a violation"""
    try:
        yield
    except (Violation, HarnessError, Stalled):
        raise
    except BaseException as e:
        if isinstance(e, (MemoryError, SystemExit)) or (isinstance(e, KeyboardInterrupt)
                                                       and not isinstance(e, InjectedInterrupt)):
            raise
        raise Violation(f'unexpected-error/{what}/{type(e).__name__}',
                        f'{type(e).__name__}: {e} in {_where(e) or "outside"}') from e


def _where(exc):
    """Where in the repository an error was raised"""
    for f in reversed(traceback.extract_tb(exc.__traceback__)):
        if '/moirae/' in f.filename:
            return f'{os.path.basename(f.filename)}:{f.name}'
    return None


def uncaught(exc):
    """The violation shown by an error that the check did not expect, if it was raised by the repository"""
    if is_injected(exc) or isinstance(exc, (HarnessError, MemoryError, SystemExit, KeyboardInterrupt)):
        return None
    where = _where(exc)
    if where is not None:
        return Violation(f'unexpected-error/uncaught/{type(exc).__name__}', f'{type(exc).__name__}: {exc} in {where}')
    if isinstance(exc, AttributeError) and exc.obj is not None and exc.name and not exc.name.startswith('_'):
        owner = type(exc.obj)
        if owner.__module__.split('.')[0] == 'moirae':
            return Violation('missing-attribute', f'{owner.__name__} has no {exc.name}')
    return None


def _stalled(*_):
    raise Stalled(f'the run did not end within {RUN_CPU_S} s of processor time')


class Ctx:
    """What a run may use and what it reports"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.faults = Counter()  # Faults which fired, per kind
        self.probes = Counter()  # Rare conditions reached
        self.sim_time = 0.0  # Simulated seconds covered
        self.steps = 0  # Steps of the system under test
        self.sigs = set()  # Distinct states/interleavings reached
        self._digest = hashlib.sha256()
        self.nontrivial = True
        self._n = 0

    def log(self, *items):
        """Add to the event log, of which only the digest is kept"""
        for item in items:
            self._digest.update(canon(item).encode())
        self._digest.update(b'\n')

    def sig(self, *items):
        if len(self.sigs) < 400:
            self.sigs.add(hashlib.sha1(canon(items).encode()).hexdigest()[:12])

    def digest(self):
        return self._digest.hexdigest()[:24]

    def path(self, name):
        return os.path.join(self.scratch, name)


def canon(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return f'a{x.shape}{x.dtype.str}:' + hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:16]
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        x = x.item()
    if isinstance(x, float):
        return x.hex()
    if isinstance(x, dict):
        return '{' + ','.join(f'{canon(k)}:{canon(v)}' for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + '}'
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(canon(v) for v in x) + ']'
    return repr(x)


# ----------------------------------------------------------------------------- one run
def scratch_root():
    return '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None


class Outcome:
    __slots__ = ('violation', 'digest', 'ctx', 'error')


def execute(prop, plan):
    """Execute a plan in a fresh scratch directory"""
    import numpy as np
    out = Outcome()
    out.violation = out.error = None
    scratch = tempfile.mkdtemp(prefix='dst-', dir=scratch_root())
    ctx = Ctx(scratch)
    random.seed(0)
    np.random.seed(0)
    # Cyclic garbage is collected only between runs, so finalisers do not depend on earlier runs
    gc.disable()
    main = threading.current_thread() is threading.main_thread()
    try:
        if main:
            signal.signal(signal.SIGPROF, _stalled)
            signal.setitimer(signal.ITIMER_PROF, RUN_CPU_S)
        try:
            prop.execute(plan, ctx)
        finally:
            if main:
                signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as v:
        out.violation = {'class': v.cls, 'detail': v.detail}
        ctx.log('violation', v.cls)
    except Stalled as e:
        out.violation = {'class': 'no-progress', 'detail': f'{e} (in {_where(e)})'}
        ctx.log('violation', 'no-progress')
    except KeyboardInterrupt as e:
        if not isinstance(e, InjectedInterrupt):
            raise
        out.error = 'injected interrupt escaped\n' + traceback.format_exc()
    except BaseException as e:
        v = uncaught(e)
        if v is not None:
            out.violation = {'class': v.cls, 'detail': v.detail}
            ctx.log('violation', v.cls)
        else:
            out.error = traceback.format_exc()
    finally:
        prop.cleanup()
        gc.enable()
        shutil.rmtree(scratch, ignore_errors=True)
    out.digest = ctx.digest()
    out.ctx = ctx
    return out


class Property:
    """Base class of the checks"""
    id = None
    level = 'exploration'
    technique = 'seeded search over simulated runs'
    note = 'Seeded random search: no violation in the runs explored is evidence, not proof.'
    rule = ''
    components = {}
    assumptions = []
    sim_measure = 'distinct signatures of the states reached'
    quick_runs = 400
    thorough_runs = 4000
    max_shrink_s = 60

    def generate(self, rng, tier, index):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def cleanup(self):
        from dst import seams
        seams.uninstall_all()

    def simplify(self, plan):
        """Yield simpler plans (property specific)"""
        return iter(())

    def describe(self, plan):
        return plan


# ----------------------------------------------------------------------------- minimisation
def shrink(prop, plan, cls, budget_s, log=lambda *_: None):
    """Simplify the plan while a violation of the same class persists"""
    t0 = time.time()
    tried = set()
    evals = 0

    def fails(p):
        nonlocal evals
        key = json.dumps(p, sort_keys=True)
        if key in tried or time.time() - t0 > budget_s:
            return False
        tried.add(key)
        evals += 1
        try:
            o = execute(prop, p)
        except BaseException:
            return False
        return o.violation is not None and o.violation['class'] == cls

    cur = json.loads(json.dumps(plan))
    progress = cls != 'no-progress'
    while progress and time.time() - t0 < budget_s:
        progress = False
        # Lists of operations and faults: drop chunks
        for name in [k for k in ('ops', 'faults', 'link', 'schedule', 'rows', 'inputs') if isinstance(cur.get(k), list)]:
            n = max(1, len(cur[name]) // 2)
            while n >= 1 and time.time() - t0 < budget_s:
                i = 0
                while i < len(cur[name]):
                    cand = dict(cur)
                    cand[name] = cur[name][:i] + cur[name][i + n:]
                    if fails(cand):
                        cur = cand
                        progress = True
                    else:
                        i += n
                n //= 2
        for cand in prop.simplify(json.loads(json.dumps(cur))):
            if time.time() - t0 > budget_s:
                break
            if fails(cand):
                cur = cand
                progress = True
                break
    log(f'minimised with {evals} runs')
    return cur
