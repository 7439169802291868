"""C11: recursive schemas stop on every input: cycles and excessive depth are reported, shared objects are not."""
import json
import sys

import core
import driver
import gen
import ops
import pydantic_core as pc
import refser
import refval
from checks import c03, c15

CONT = ['list', 'tuple', 'dict', 'default', 'nullable', 'union', 'chain', 'lax-or-strict', 'json-or-python',
        'typed-dict', 'model', 'root-model', 'dataclass', 'custom-error']
BODY = ['list', 'tuple', 'dict', 'typed-dict', 'typed-dict', 'model', 'model', 'dataclass', 'root-model', 'nullable', 'union']
LEAFS = ['int', 'str', 'any', 'bool', 'none']
MAX_LIMIT = 1000


class C11(driver.Check):
    pid = 'C11'
    runs = {'quick': 10000, 'thorough': 900000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = 1-3 mutually recursive definitions and values which are graphs: trees, shared objects, cycles of '
            'several objects, chains of a length around the recursion limit, objects which make another one for every '
            'attribute read; validated or serialized, without faults and under plans which make callbacks raise or '
            'return other values; compared with an independent reference interpreter which tracks the same recursion '
            'state; distinct = distinct (schema types, kind, outcome, callbacks, faults)')
    assumptions = ['the depth limit itself is measured on a list of lists (it may be any number up to %d)' % MAX_LIMIT,
                   'leaf validation and serialization are taken from the same leaf alone']
    stubs = driver.Check.stubs + ['the oracle: sim/refval.py, sim/refser.py']

    def gen(self, rng, i, tier):
        kind = rng.choice(['val', 'val', 'ser'])
        g = gen.Gen(rng, ser_rate=rng.choice([0, 0.2, 0.4]) if kind == 'ser' else 0,
                    fn_rate=rng.choice([0, 0.15, 0.35]) if kind == 'val' else 0,
                    leaves=LEAFS, max_depth=2,
                    containers=sorted(rng.sample(CONT, rng.randint(4, 10))))
        g.ref_rate = rng.choice([0.5, 0.8])
        g.defs = ['R%d' % k for k in range(rng.choice([1, 1, 2, 3]))]
        defs = []
        containers = g.containers
        for n in g.defs:
            g.containers = [rng.choice(BODY)]
            d = g._schema(1, False)
            g.containers = containers
            while d['type'] in gen.LEAVES or d['type'] == 'definition-ref':
                d = {'type': 'list', 'items_schema': {'type': 'definition-ref', 'schema_ref': n}}
            if g.p(0.1):
                d = g.default(d, 1)
            if g.p(0.5) and d['type'] in ('typed-dict', 'model') and 'root_model' not in d:
                f = d['fields'] if d['type'] == 'typed-dict' else fields_of(d)
                r = {'type': 'definition-ref', 'schema_ref': rng.choice(g.defs)}
                f['kids'] = {'type': 'typed-dict-field' if d['type'] == 'typed-dict' else 'model-field', 'schema': rng.choice([
                    {'type': 'list', 'items_schema': r}, {'type': 'nullable', 'schema': r},
                    {'type': 'dict', 'values_schema': r}])}
            if g.p(0.05):  # nothing but itself, perhaps
                r = {'type': 'definition-ref', 'schema_ref': rng.choice(g.defs)}
                d = rng.choice([{'type': 'nullable', 'schema': r}, {'type': 'union', 'choices': [r, d]},
                                {'type': 'dict', 'keys_schema': {'type': 'nullable', 'schema': r}, 'values_schema': r}])
            if kind == 'val' and g.p(0.15):
                d = {'type': rng.choice(['function-wrap', 'function-before', 'function-after']), 'schema': d}
                d['function'] = g.vfn(d['type'].split('-')[1])
            defs.append({**d, 'ref': n})
        if kind == 'ser' and g.p(0.05):
            k = {'type': 'definition-ref', 'schema_ref': 'K'}
            defs.append({'type': 'nullable', 'schema': rng.choice([k, k, {'type': 'nullable', 'schema': k}]), 'ref': 'K'})
            defs[0] = {'type': 'dict', 'keys_schema': k, 'values_schema': {'type': 'any'}, 'ref': 'R0'}
        top = {'type': 'definition-ref', 'schema_ref': rng.choice(g.defs)}
        if g.p(0.3):
            top = {'type': 'list', 'items_schema': top}
        s = {'type': 'definitions', 'schema': top, 'definitions': defs}
        ent = {'s': s}
        if g.p(0.3):
            ent['config'] = {'from_attributes': True} if g.p(0.5) else g.config()
        kw = ops.validate_kw(g) if kind == 'val' else ops.ser_kw(g, False)
        for a in ('include', 'exclude', 'serialize_as_any', 'allow_partial'):
            kw.pop(a, None)
        vals = [self.value(g, s, kind, top) for _ in range(2)]
        plans = []
        for _ in range(rng.choice([1, 2, 3])):
            f = {}
            for _ in range(rng.choice([1, 1, 2])):
                f[str(rng.randrange(1000))] = (
                    {'k': 'raise', 'e': rng.choice(c15.EXCS if kind == 'ser' else core.FAULTS_VALUE + core.FAULTS_FATAL + (
                        'omit', 'use_default', 'recursion_error'))} if g.p(0.7) else {'k': 'return', 'v': g.atom()})
            plans.append(f)
        return {'classes': g.classes, 'fns': g.fns, 'schemas': [ent], 'inputs': [], 'vals': vals, 'kw': kw, 'plans': plans,
                'kind': kind}

    def value(self, g, s, kind, top):
        rng = g.rng
        made = {}
        budget = [rng.choice([2, 4, 6, 9])]
        share = rng.choice([0, 0.2, 0.5])
        n = [0]

        def graph(name, rec):
            old = made.get(name)
            if old and (g.p(share) or budget[0] <= 0):
                return {'$': 'ref', 'id': rng.choice(old)}
            if budget[0] <= 0:
                return rng.choice([None, [], {}])
            budget[0] -= 1
            n[0] += 1
            k = 'n%d' % n[0]
            made.setdefault(name, []).append(k)
            v = rec()
            if isinstance(v, dict) and v.get('$') in ('inst', 'obj'):
                return {**v, 'id': k}
            return {'$': 'def', 'id': k, 'v': v}

        first = [True]

        def hole(name, rec):
            if first[0]:
                first[0] = False
                return {'$': 'ref', 'id': 'HOLE'}
            return rng.choice([None, [], {}])

        defs = {d['ref']: d for d in s['definitions']}
        valid = True if g.p(0.8) else None
        out = kind == 'ser'
        r = rng.random()
        try:
            if r < 0.75:
                g.on_ref = graph
                return g.val(s, valid=valid, out=out)
            if r < 0.95:
                g.on_ref = hole
                name = rng.choice(g.defs)
                t = g.val(defs[name], valid=True, out=out, defs=defs)
                g.on_ref = None
                n = rng.choice([3, 14, 15, 16, 17, 18, 60, 110, 116, 117, 118, 233, 234, 235, 236, 237, 300])
                if json.dumps(t).count('"HOLE"') > 1:
                    n = min(n, 12)  # as a tree, in messages and comparisons, it is exponential
                v = {'$': 'deep', 'n': n, 't': t, 'v': rng.choice([None, [], {}])}
                if g.p(0.3):
                    v = {'$': 'ring', 'n': n, 't': t}
                return [v] if top['type'] == 'list' else v
            return {'$': 'endless', 'v': g.atom()}
        finally:
            g.on_ref = None

    def run(self, case):
        st, v = core.forked(lambda: run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


def fields_of(d):
    d = d['schema']
    while 'fields' not in d:
        d = d['schema']
    return d['fields']


ARRAYS = {'list', 'tuple', 'set', 'frozenset', 'generator', 'arguments', 'arguments-v3', 'call'}
OBJECTS = {'dict', 'typed-dict', 'model', 'dataclass', 'arguments', 'arguments-v3', 'call'}


def ambiguous(types):
    """Whether several choices of a union may accept the same nested JSON: takes exponential time."""
    types = set(types)
    return bool(types & {'union', 'lax-or-strict'}) and (len(types & ARRAYS) > 1 or len(types & OBJECTS) > 1)


def depth(v):
    n = 0
    level = [v]
    while level:
        n += 1
        level = [y for x in level if isinstance(x, (list, dict)) for y in (x.values() if isinstance(x, dict) else x)]
    return n


def tree(v, hole=None):
    """A graph without its references."""
    if isinstance(v, list):
        return [tree(x, hole) for x in v]
    if not isinstance(v, dict):
        return v
    t = v.get('$')
    if t == 'def':
        return tree(v.get('v'), hole)
    if t == 'ref':
        return hole if v.get('id') == 'HOLE' else None
    if t in ('deep', 'ring'):
        o = tree(v.get('v'))
        for _ in range(min(v['n'], 60)):
            o = tree(v['t'], o)
        return o
    if t == 'endless':
        return None
    return {k: tree(x, hole) for k, x in v.items()}


def limit(kind):
    """The depth up to which a list of lists is handled."""
    d = pc.core_schema.definitions_schema(
        pc.core_schema.definition_reference_schema('R'),
        [pc.core_schema.list_schema(pc.core_schema.definition_reference_schema('R'), ref='R')])
    z = pc.SchemaValidator(d) if kind == 'val' else pc.SchemaSerializer(d)

    def ok(n):
        x = []
        for _ in range(n - 1):
            x = [x]
        try:
            z.validate_python(x) if kind == 'val' else z.to_python(x)
            return True
        except ValueError:
            return False
    lo, hi = 1, MAX_LIMIT + 1
    while hi - lo > 1:
        m = (lo + hi) // 2
        if ok(m):
            lo = m
        else:
            hi = m
    return lo


LIMITS = {}


def run_case(case):
    sys.setrecursionlimit(60000)
    kind = case['kind']
    stats = {}
    if kind not in LIMITS:
        LIMITS[kind] = limit(kind)
    lim = LIMITS[kind]
    if lim >= MAX_LIMIT:
        return {'viol': ['unlimited', 'a list of lists of depth %d was not refused' % lim, None], 'stats': stats, 'trace': []}
    if kind == 'val':
        case = refval.adapt(case, True)
    trace = []
    sigs = []
    types = sorted(ops.types_in(case['schemas']))
    for vi, val in enumerate(case['vals']):
        k = None
        for pi, plan in enumerate([{}] + case['plans']):
            if k is not None:
                if k == 0:
                    break
                plan = {str(int(a) % k): b for a, b in plan.items()}
            spec = {'k': 'validate', 'm': 'python', 'v': 0, 'in': val, 'kw': case['kw'], 'faults': plan}
            if kind == 'ser':
                spec = {'k': 'ser', 'v': 0, 'in': val, 'kw': case['kw'], 'faults': plan}
            m = c15 if kind == 'ser' else c03
            try:  # first, since it knows when a case takes exponential time
                want = m.expected(case, spec, lim)
            except refval.Unsupported:
                stats['unsupported'] = stats.get('unsupported', 0) + 1
                if pi == 0:
                    break
                continue
            try:
                got, w, op = m.observed(case, spec)
            except ops.Refused:
                return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
            if w.overflow:
                return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
            if k is None:
                k = op.n
            for a, b in w.stats.items():
                stats[a] = stats.get(a, 0) + b
            stats['compared'] = stats.get('compared', 0) + 1
            o = 'outcome:' + got['result'][0]
            stats[o] = stats.get(o, 0) + 1
            got = json.loads(json.dumps(got))
            want = json.loads(json.dumps(want))
            text = json.dumps(got['result'])
            for q in ('recursion_loop', 'id repeated', 'depth exceeded', '"cycle"', '"deep"'):
                if q in text:
                    stats['saw:' + q.strip('"')] = stats.get('saw:' + q.strip('"'), 0) + 1
            if kind == 'val' and not plan and isinstance(val, (list, dict)):
                js = gen.plain(tree(val))
                if js is not None and not (depth(js) > 10 and ambiguous(types)):
                    spec = {'k': 'validate', 'm': 'json', 'v': 0, 'json': json.dumps(js), 'kw': case['kw']}
                    w = ops.world_for(case)
                    o = core.do_op(w, spec, '#j#')
                    if core.is_panic(getattr(o, 'exc', None)):
                        return {'viol': ['panic', 'JSON value %d: %s' % (vi, o.result), [vi]], 'stats': stats, 'trace': trace}
                    stats['json'] = stats.get('json', 0) + 1
                    trace.append(core.digest(o.result))
            trace.append(core.digest(got))
            sigs.append(core.digest([types, got['result'][0], [x[:2] for x in got['log']], got['fired']]))
            if got != want:
                return {'viol': ['differs', 'value %d plan %s: library | reference: %s' % (
                    vi, json.dumps(plan), ops.first_diff(got, want)), [vi, pi]], 'stats': stats, 'trace': trace, 'state': sigs}
    return {'viol': None, 'stats': stats, 'trace': trace, 'state': sigs}


CHECK = C11()
