import json
from typing import Dict, Optional, Tuple

import numpy as np

from dst import worlds
from dst.core import Property, Violation, require, sut

_types = None


def types():
    """Containers with every kind of nesting the base classes document"""
    global _types
    if _types is None:
        from moirae.models.base import GeneralContainer, HealthVariable, ListParameter, ScalarParameter

        class Leaf(HealthVariable):
            x: ScalarParameter
            y: ListParameter

        class Node(HealthVariable):
            a: ScalarParameter
            leaf: Leaf
            label: str = 'node'
            pair: Tuple[Leaf, ...] = ()
            table: Dict[str, Leaf] = {}
            v: ListParameter

        class Root(HealthVariable):
            z: ScalarParameter
            node: Node
            nodes: Tuple[Node, ...] = ()
            named: Dict[str, Node] = {}
            leaf: Leaf
            w: ListParameter

        class Vector(GeneralContainer):
            s: ScalarParameter
            u: Optional[ListParameter] = None
            t: ListParameter
            r: Optional[ScalarParameter] = None

        _types = Leaf, Node, Root, Vector
    return _types


# ------------------------------------------------------------------------ generation of containers
def gen_leaf(rng):
    return {'x': [rng.r(-9, 9, 3)], 'y': [rng.r(-9, 9, 3) for _ in range(rng.randrange(1, 4))]}


def gen_node(rng):
    return {'a': [rng.r(-9, 9, 3)], 'leaf': gen_leaf(rng), 'pair': [gen_leaf(rng) for _ in range(rng.weighted([(rng.randrange(3), 30), (rng.randrange(10, 13), 1)]))],
            'table': {k: gen_leaf(rng) for k in rng.pick([[], ['p'], ['q', 'p'], ['1', '0']])},
            'v': [rng.r(-9, 9, 3) for _ in range(rng.randrange(1, 4))]}


def gen_root(rng):
    return {'z': [rng.r(-9, 9, 3)], 'node': gen_node(rng), 'nodes': [gen_node(rng) for _ in range(rng.weighted([(rng.randrange(3), 60), (11, 1)]))],
            'named': {k: gen_node(rng) for k in rng.pick([[], ['n'], ['m', 'n']])}, 'leaf': gen_leaf(rng),
            'w': [rng.r(-9, 9, 3) for _ in range(rng.randrange(1, 4))]}


ECM_ORDER = ['q_t.base_values', 'ce', 'ocv.ocv_ref.base_values', 'ocv.ocv_ref.reference_temperature',
             'ocv.ocv_ent.base_values', 'r0.base_values', 'r0.temperature_dependence_factor', 'c0.base_values',
             'rc_elements.*.r.base_values', 'rc_elements.*.r.temperature_dependence_factor', 'rc_elements.*.c.base_values',
             'h0.base_values', 'h0.gamma']


def flatten(spec, prefix=''):
    """Names and values of the parameters in the order they were declared"""
    out = []
    for k, v in spec.items():
        if isinstance(v, list) and v and not isinstance(v[0], dict):
            out.append((prefix + k, np.array([v], float)))
        elif isinstance(v, list):
            for i, s in enumerate(v):
                out += flatten(s, f'{prefix}{k}.{i}.')
        elif isinstance(v, dict) and all(isinstance(s, dict) for s in v.values()):
            for i, s in v.items():
                out += flatten(s, f'{prefix}{k}.{i}.')
        elif isinstance(v, dict):
            out += flatten(v, f'{prefix}{k}.')
    return out


def collections(spec, prefix=''):
    """Names of attributes which are tuples or dictionaries, of which the next part of a name is the index"""
    out = set()
    for k, v in spec.items():
        if isinstance(v, list) and (not v or isinstance(v[0], dict)):
            out.add(prefix + k)
            for i, s in enumerate(v):
                out |= collections(s, f'{prefix}{k}.{i}.')
        elif isinstance(v, dict) and k in ('table', 'named'):
            out.add(prefix + k)
            for i, s in v.items():
                out |= collections(s, f'{prefix}{k}.{i}.')
        elif isinstance(v, dict):
            out |= collections(v, f'{prefix}{k}.')
    return out


class Model:
    """Reference: an ordered table of values and a set of attributes marked as updatable"""

    def __init__(self, values, groups, marked=()):
        self.values = dict(values)
        self.groups = groups
        self.marked = set(marked)

    def copy(self):
        return Model({k: v.copy() for k, v in self.values.items()}, self.groups, self.marked)

    def chain(self, name):
        """Attributes which lead to a value, by their full names"""
        parts, out, i = name.split('.'), [], 0
        while i < len(parts):
            full = '.'.join(parts[:i + 1])
            out.append(full)
            i += 2 if full in self.groups else 1
        return out

    def is_updatable(self, name):
        return all(x in self.marked for x in self.chain(name))

    @property
    def updatable(self):
        return [n for n in self.values if self.is_updatable(n)]

    @property
    def batch(self):
        return max(v.shape[0] for v in self.values.values())

    def get(self, names):
        if not names:
            return np.zeros((self.batch, 0))
        return np.concatenate([np.repeat(v, self.batch // v.shape[0], axis=0) for v in (self.values[n] for n in names)],
                              axis=1)

    def attributes(self):
        return {x for n in self.values for x in self.chain(n)}


def expand(model, name):
    if name in model.values:
        n = model.values[name].shape[1]
        return [name] if n == 1 else [f'{name}[{i}]' for i in range(n)]
    return [y for x in model.values if x.startswith(name + '.') for y in expand(model, x)]


class PROPERTY(Property):
    id = 'C17'
    level = 'exploration'
    technique = 'random histories of several owners of containers, with operations that are refused and reloads, against a table'
    note = ('Histories of named operations on the health parameters of the equivalent circuit and on containers with every kind '
            'of nesting, compared exactly with an ordered table after every operation. Not exhaustive.')
    rule = ('A run draws a container, which owners read, update, mark, copy, save and load, in an interleaved history. Some '
            'operations are invalid and have to be refused without effect; callers modify what they passed or received.')
    sim_measure = 'distinct (kind of container, operation, form of the values, batch, fate, number of names) reached'
    components = {'real': ['HealthVariable', 'GeneralContainer', 'ECMASOH and its components', 'templates of the circuit', 'JSON of containers'],
                  'stub': ['owners (scheduler of operations)']}
    assumptions = ['Values have the number of elements of those they replace (or one per member of the batch)',
                   'All batched values of a container have the same batch size']
    expected_probes = ['refused', 'batch', 'copy', 'reload', 'mutated', 'nested', 'tuple', 'dict', 'ecm', 'general', 'none-names',
                       'batched-update', 'rebatched', 'refused-late', 'expand', 'set', 'template', 'amp-seconds']
    quick_runs = 3000
    thorough_runs = 60000

    def generate(self, rng, tier, index):
        kind = rng.weighted([('root', 3), ('node', 1), ('ecm', 3), ('general', 2)])
        size = rng.pick([1, 2, 2, 3, 4])
        plan = {'kind': kind, 'size': size, 'seed': rng.randrange(10 ** 6)}
        if kind == 'ecm':
            plan['circuit'] = worlds.gen_circuit(rng)
            if rng.chance(0.3):
                plan['template'] = {'c0': rng.chance(0.5), 'rc': rng.randrange(4), 'given': rng.chance(0.5)}
        elif kind == 'general' and rng.chance(0.3):
            n = rng.randrange(4)
            plan['spec'] = {'soc': [rng.r(0, 1, 3)], 'q0': rng.pick([None, [rng.r(-9, 9, 3)]]),
                            'i_rc': rng.pick([[0.] * n, [rng.r(-9, 9, 3)] * n, [rng.r(-9, 9, 3) for _ in range(n)]]),
                            'hyst': [rng.r(-1, 1, 3)]}
            plan['template'] = rng.pick(['array', 'array', 'list'])
        elif kind == 'general':
            plan['spec'] = {'s': [rng.r(-9, 9, 3)], 't': [rng.r(-9, 9, 3) for _ in range(rng.randrange(1, 4))],
                            'u': rng.pick([None, [rng.r(-9, 9, 3) for _ in range(rng.randrange(1, 4))]]),
                            'r': rng.pick([None, [rng.r(-9, 9, 3)]])}
        else:
            plan['spec'] = {'root': gen_root, 'node': gen_node}[kind](rng)
        ops = []
        for _ in range(rng.randrange(3, 40)):
            if kind == 'general':
                op = rng.weighted([('to', 3), ('from', 4), ('copy', 2), ('make', 3), ('reload', 1)])
            else:
                op = rng.weighted([('get', 4), ('update', 6), ('refuse', 4), ('set', 3), ('mark', 4), ('mark-all', 0.7),
                                   ('fix-all', 0.4), ('copy', 1.2), ('make', 3), ('make-refuse', 1), ('reload', 1), ('expand', 2)])
            ops.append({'op': op, 'who': rng.randrange(10 ** 4), 'names': [rng.randrange(10 ** 4) for _ in range(
                rng.weighted([(0, 1), (1, 3), (2, 3), (3, 2), (rng.randrange(4, 9), 2)]))],
                'all': rng.chance(0.25), 'how': rng.randrange(10 ** 4), 'batched': rng.chance(0.35), 'mutate': rng.chance(0.3)})
        return {**plan, 'ops': ops}

    # -------------------------------------------------------------------- building
    def build(self, plan, ctx):
        Leaf, Node, Root, Vector = types()
        if plan['kind'] == 'ecm':
            c, template = plan['circuit'], plan.get('template')
            with sut('build'):
                if template is None:
                    a = worlds.build_asoh(c)
                else:
                    from moirae.models.ecm.advancedSOH import ECMASOH
                    given = {'R0': np.array(c['r0'][:1]), 'OCV': np.array([3., 3.5, 4.])} if template['given'] else {}
                    a = ECMASOH.provide_template(has_C0=template['c0'], num_RC=template['rc'], qt=c['qt'], **given)
                    ctx.probes['template'] += 1
                names = a.all_names
                groups = {'rc_elements'}
                values = {n: self.find(a, n).copy() for n in names}
            if template is not None:
                for x in given.values():
                    x[...] = -99.
                c = {'c0': template['c0'] or None, 'rc': [None] * template['rc']}
            n_rc = len(c['rc'])
            want = []
            for n in ECM_ORDER:
                if '*' not in n:
                    want.append(n)
            want = {n for n in want if not n.startswith('c0') or c['c0'] is not None}
            want |= {n.replace('*', str(i)) for n in ECM_ORDER if '*' in n for i in range(n_rc)}
            require(want <= set(names), 'names-of-circuit', f'missing {sorted(want - set(names))} among {names}')
            return a, Model(values, groups)
        spec = plan['spec']
        if plan['kind'] == 'general' and 'template' in plan:
            from moirae.models.ecm.transient import ECMTransientVector
            i, n = spec['i_rc'], len(spec['i_rc'])
            given = np.array(i, float) if plan['template'] == 'array' else list(i)
            kw = {'i_rc': given} if any(i) else {}
            if spec['q0']:
                kw['q0'] = spec['q0'][0]
            with sut('build'):
                v = ECMTransientVector.provide_template(has_C0=spec['q0'] is not None, num_RC=n, soc=spec['soc'][0],
                                                        hysteresis=spec['hyst'][0], **kw)
            if plan['template'] == 'array':
                given[...] = -99.
            ctx.probes['template'] += 1
            return v, Model({k: np.array([x], float) for k, x in spec.items() if x is not None}, set())
        if plan['kind'] == 'general':
            with sut('build'):
                v = Vector(**{k: x for k, x in spec.items() if x is not None})
            return v, Model({k: np.array([spec[k]], float) for k in ('s', 'u', 't', 'r') if spec[k] is not None}, set())

        def leaf(s):
            return Leaf(x=s['x'][0], y=s['y'])

        def node(s):
            return Node(a=s['a'][0], leaf=leaf(s['leaf']), pair=tuple(leaf(x) for x in s['pair']),
                        table={k: leaf(x) for k, x in s['table'].items()}, v=s['v'])
        with sut('build'):
            if plan['kind'] == 'node':
                obj = node(spec)
            else:
                obj = Root(z=spec['z'][0], node=node(spec['node']), nodes=tuple(node(x) for x in spec['nodes']),
                           named={k: node(x) for k, x in spec['named'].items()}, leaf=leaf(spec['leaf']), w=spec['w'])
        return obj, Model(flatten(spec), collections(spec))

    @staticmethod
    def find(obj, name):
        """Value of a parameter, found with plain Python"""
        for part in name.split('.'):
            if isinstance(obj, tuple):
                obj = obj[int(part)]
            elif isinstance(obj, dict):
                obj = obj[part]
            else:
                obj = getattr(obj, part)
        return obj

    def compare(self, obj, model, what, kind):
        with sut('inspect'):
            if kind == 'general':
                have = {n: getattr(obj, n) for n in obj.all_fields if getattr(obj, n) is not None}
                batch, names = obj.batch_size, list(obj.all_names)
                length = len(obj)
            else:
                have = dict(obj.iter_parameters(updatable_only=False))
                require(list(obj.all_names) == list(have), 'names', f'{what}: {obj.all_names} but {list(have)}')
                batch, names, length = obj.batch_size, list(obj.updatable_names), obj.num_updatable
        require(list(have) == list(model.values), 'names', lambda: f'{what}: {list(have)} rather than {list(model.values)}')
        for n, v in model.values.items():
            require(self.same(have[n], v), 'values', lambda: f'{what}: {n} is {have[n]} rather than {v}')
        require(batch == model.batch, 'batch-size', f'{what}: {batch} rather than {model.batch}')
        if kind == 'general':
            want = [y for n in model.values for y in expand(model, n)]
            require(names == want and length == len(want), 'names', f'{what}: {names} ({length}) rather than {want}')
        else:
            require(names == model.updatable, 'updatable', lambda: f'{what}: {names} rather than {model.updatable}')
            n = sum(model.values[x].shape[1] for x in names)
            require(length == n, 'num-updatable', f'{what}: {length} rather than {n}')

    @staticmethod
    def same(have, want):
        return isinstance(have, np.ndarray) and have.shape == want.shape and np.array_equal(have, want)

    # -------------------------------------------------------------------- execution
    def execute(self, plan, ctx):
        kind, gen = plan['kind'], np.random.default_rng(plan['seed'])
        obj, model = self.build(plan, ctx)
        alive = [(obj, model)]
        self.compare(obj, model, 'initially', kind)
        ctx.probes[kind] += 1
        ctx.probes['nested'] += kind in ('root', 'node')
        for number, op in enumerate(plan['ops']):
            obj, model = alive[op['who'] % len(alive)]
            what = f'operation {number} ({op["op"]})'
            fate = self.general(plan, op, obj, model, alive, gen, ctx, what) if kind == 'general' else \
                self.health(plan, op, obj, model, alive, gen, ctx, what)
            if fate is None:
                continue
            del alive[6:]
            for i, (o, m) in enumerate(alive):
                self.compare(o, m, f'container {i} after {what}', kind)
            ctx.steps += 1
            ctx.probes['batch'] += model.batch > 1
            ctx.sig(kind, op['op'], fate, model.batch > 1, op['batched'], min(len(op['names']), 3), op['all'], len(alive) > 1)
            ctx.log(number, fate, {n: v for n, v in model.values.items()})

    @staticmethod
    def draw(gen, n, rows):
        return np.round(gen.uniform(0.1, 9, size=(rows, n)), 3)  # Some parameters have to be positive

    def general(self, plan, op, obj, model, alive, gen, ctx, what):
        n = sum(v.shape[1] for v in model.values.values())
        kind = op['op']
        if kind == 'to':
            with sut('to_numpy'):
                got = obj.to_numpy()
            want = model.get(list(model.values))
            require(self.same(got, want), 'read', lambda: f'{what}: {got} rather than {want}')
            if op['mutate']:
                got[:] = -99.
                ctx.probes['mutated'] += 1
            return 'read'
        if kind in ('from', 'make'):
            rows = plan['size'] if op['batched'] else 1
            values = self.draw(gen, n, rows)
            given = values[0].copy() if rows == 1 and op['how'] % 2 else values.copy()
            target = model
            if kind == 'from':
                with sut('from_numpy'):
                    obj.from_numpy(given)
            else:
                with sut('make_copy'):
                    new = obj.make_copy(given)
                require(type(new) is type(obj), 'copy-type', what)
                target = model.copy()
                alive.insert(0, (new, target))
                ctx.probes['copy'] += 1
            pos = 0
            for k, v in target.values.items():
                target.values[k] = values[:, pos:pos + v.shape[1]]
                pos += v.shape[1]
            if op['mutate']:
                given[...] = -99.
                ctx.probes['mutated'] += 1
            ctx.probes['batched-update'] += rows > 1
            return f'{kind}-{rows > 1}'
        return self.copies(op, obj, model, alive, ctx)

    def copies(self, op, obj, model, alive, ctx):
        if op['op'] == 'copy':
            with sut('copy'):
                new = obj.model_copy(deep=True)
            alive.insert(0, (new, model.copy()))
            ctx.probes['copy'] += 1
            return 'copied'
        # The process stops, and only what was saved as JSON survives
        with sut('reload'):
            text = obj.model_dump_json()
            json.loads(text)
            new = type(obj).model_validate_json(text)
        i = next(i for i, (o, _) in enumerate(alive) if o is obj)
        alive[i] = (new, model)
        ctx.probes['reload'] += 1
        ctx.faults['restart'] += 1
        return 'reloaded'

    def health(self, plan, op, obj, model, alive, gen, ctx, what):
        kind, every = op['op'], list(model.values)
        chosen = [every[i % len(every)] for i in op['names']]
        chosen = list(dict.fromkeys(chosen))
        updatable = model.updatable
        named = [updatable[i % len(updatable)] for i in op['names']] if updatable else []
        named = list(dict.fromkeys(named))
        names = None if op['all'] else named
        targets = updatable if names is None else named
        rows = plan['size'] if op['batched'] else 1
        for n in chosen:
            for g in model.groups:
                if n.startswith(g + '.'):
                    ctx.probes['dict' if g.split('.')[-1] in ('table', 'named') else 'tuple'] += 1
        if kind == 'get':
            want = model.get(updatable if op['all'] else chosen)
            with sut('get'):
                got = obj.get_parameters() if op['all'] else obj.get_parameters(chosen if op['how'] % 2 else tuple(chosen))
            require(self.same(got, want), 'read', lambda: f'{what}: {chosen} are {got} rather than {want}')
            ctx.probes['none-names'] += op['all']
            if op['mutate']:
                got[:] = -99.
                ctx.probes['mutated'] += 1
            return f'read-{model.batch > 1}'
        if kind in ('update', 'make'):
            n = sum(model.values[t].shape[1] for t in targets)
            values = self.draw(gen, n, rows)
            form = op['how'] % 3
            given = values.copy() if rows > 1 or form == 0 else values[0].copy() if form == 1 else values[0].tolist()
            if n == 0:
                return None
            target, dest = model, obj
            if kind == 'update':
                with sut('update'):
                    obj.update_parameters(given, names)
            else:
                with sut('make'):
                    dest = obj.make_copy(given, names)
                target = model.copy()
                alive.insert(0, (dest, target))
                ctx.probes['copy'] += 1
            pos = 0
            ctx.probes['rebatched'] += model.batch > 1
            for t in targets:
                k = model.values[t].shape[1]
                target.values[t] = values[:, pos:pos + k]
                pos += k
            if op['mutate'] and isinstance(given, np.ndarray):
                given[:] = -99.
                ctx.probes['mutated'] += 1
            ctx.probes['none-names'] += names is None
            ctx.probes['batched-update'] += rows > 1
            return f'{kind}-{rows > 1}-{form}'
        if kind in ('refuse', 'make-refuse'):
            n = sum(model.values[t].shape[1] for t in targets)
            how = op['how'] % 4
            names = list(targets)
            fixed = [x for x in every if x not in updatable]
            if how == 0 and n:
                n -= 1
            elif how == 1:
                n += 1
            elif how == 2 and fixed:
                names.insert(op['how'] // 4 % (len(names) + 1), fixed[op['how'] // 7 % len(fixed)])
                n = sum(model.values[t].shape[1] for t in names)
            elif how == 3:
                names.insert(op['how'] // 4 % (len(names) + 1), 'no_such_parameter')
                n += 1
            else:
                return None
            late = how < 2 or names.index(next((x for x in names if x not in updatable), names[0])) > 0
            given = self.draw(gen, n, rows)
            try:
                if kind == 'refuse':
                    obj.update_parameters(given, names)
                else:
                    obj.make_copy(given, names)
            except Exception as e:
                ctx.log(type(e).__name__)
            else:
                raise Violation('not-refused', f'{what}: {given.shape} values for {names}')
            ctx.faults['invalid-operation'] += 1
            ctx.probes['refused'] += 1
            ctx.probes['refused-late'] += late and len(targets) > 0
            return f'{kind}-{how}-{late}'
        if kind == 'set' and plan['kind'] == 'ecm' and op['how'] % 11 == 0:  # The capacity in other units
            values = self.draw(gen, 1, rows)
            given = 3600 * values if rows > 1 else float(3600 * values[0, 0])
            with sut('set'):
                obj.q_t.value = given
            model.values['q_t.base_values'] = np.array(given, ndmin=2) / 3600
            require(np.array_equal(obj.q_t.value, 3600 * model.values['q_t.base_values']), 'other-units', f'{what}: {given}')
            ctx.probes['amp-seconds'] += 1
            return f'amp-seconds-{rows > 1}'
        if kind == 'set':
            t = every[op['how'] % len(every)]
            k = model.values[t].shape[1]
            values = self.draw(gen, k, rows)
            if k == 1:
                given = values[0, 0] if rows == 1 else values[:, 0].copy() if op['how'] % 2 else values.copy()
            else:
                given = values[0].copy() if rows == 1 and op['how'] % 2 else values.copy()
            with sut('set'):
                obj.set_value(t, given)
            model.values[t] = values
            if op['mutate'] and isinstance(given, np.ndarray):
                given[...] = -99.
                ctx.probes['mutated'] += 1
            ctx.probes['set'] += 1
            return f'set-{k > 1}-{rows > 1}'
        if kind == 'mark':
            attrs = sorted(model.attributes())
            t = every[op['how'] % len(every)] if op['how'] % 5 else attrs[op['how'] % len(attrs)]
            with sut('mark'):
                obj.mark_updatable(t)
            model.marked.update(model.chain(t))
            return 'marked'
        if kind in ('mark-all', 'fix-all'):
            recurse = bool(op['how'] % 3)
            with sut(kind):
                (obj.mark_all_updatable if kind == 'mark-all' else obj.mark_all_fixed)(recurse=recurse)
            mine = {a for a in model.attributes() if recurse or '.' not in a}
            model.marked = model.marked | mine if kind == 'mark-all' else model.marked - mine
            return f'{kind}-{recurse}'
        if kind == 'expand':
            ctx.probes['expand'] += 1
            groups = [g for n in chosen for g in self.parents(n)] if op['how'] % 2 else chosen
            want = [y for g in groups for y in expand(model, g)]
            with sut('expand'):
                got = obj.expand_names(groups)
            require(list(got) == want, 'expand', lambda: f'{what}: {groups} expand to {got} rather than {want}')
            return f'expand-{op["how"] % 2}'
        return self.copies(op, obj, model, alive, ctx)

    @staticmethod
    def parents(name):
        parts = name.split('.')
        return ['.'.join(parts[:i]) for i in (1, 2) if i <= len(parts)][-1:]
