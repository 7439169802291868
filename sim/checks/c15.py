"""C15: what happens to exceptions and mismatches during serialization, compared with a reference interpreter."""
import json
import re

import core
import driver
import gen
import ops
import pydantic_core as pc
import refser
import refval

CONT = ['list', 'tuple', 'set', 'frozenset', 'dict', 'default', 'nullable', 'union', 'tagged-union', 'chain',
        'lax-or-strict', 'json-or-python', 'typed-dict', 'model', 'root-model', 'dataclass', 'custom-error']
EXCS = core.FAULTS_VALUE + core.FAULTS_FATAL + ('omit', 'use_default', 'recursion_error')
SER = ('unexpected_value', 'ser_error', 'recursion_error')


class C15(driver.Check):
    pid = 'C15'
    runs = {'quick': 16000, 'thorough': 1200000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = a schema with function serializers, handlers, computed fields and fallbacks, and a value which fits '
            'it or not; serialized without faults and then under up to 5 plans which make chosen callbacks raise; every '
            'execution is compared with an independent reference interpreter: result or exception with text, cause and '
            'identity, warnings, every callback with its arguments and info; distinct = distinct (schema types, outcome, '
            'callbacks, faults)')
    assumptions = ['leaf serialization is taken from the same leaf serialized alone',
                   'serialize_as_any and lazily serialized generators are outside the reference']
    stubs = driver.Check.stubs + ['the oracle: sim/refser.py']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, ser_rate=rng.choice([0.15, 0.3, 0.5]), fn_rate=rng.choice([0, 0, 0.1]),
                    max_depth=rng.choice([2, 3, 3, 4]), containers=sorted(rng.sample(CONT, rng.randint(5, 12))))
        g.nested_method = True
        ent = g.entry(recursive=0.12)
        kw = ops.ser_kw(g, False)
        kw.pop('serialize_as_any', None)
        for a in ('include', 'exclude'):
            if g.p(0.2):
                kw[a] = ops.filters(g)
        vals = [g.val(ent['s'], out=True, valid=rng.choice([True, True, None])) for _ in range(2)]
        if g.p(0.15):
            vals.append(g.atom())
        plans = []
        for _ in range(rng.choice([2, 3, 5])):
            f = {}
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                r = rng.random()
                f[str(rng.randrange(1000))] = (
                    {'k': 'raise', 'e': rng.choice(SER)} if r < 0.4 else {'k': 'raise', 'e': rng.choice(EXCS)} if r < 0.85
                    else {'k': 'return', 'v': g.atom()})
            plans.append(f)
        return {'classes': g.classes, 'fns': g.fns, 'schemas': [ent], 'inputs': [], 'vals': vals, 'kw': kw, 'plans': plans}

    def run(self, case):
        st, v = core.forked(lambda: run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


def tidy(x):
    """Names of types in messages are wording; addresses differ between worlds."""
    x = re.sub(r'Expected `(?:[^`]|\n)*?` - serialized', 'Expected `T` - serialized', x)
    return re.sub(r'(?s)input_value=.*?, input_type=', 'input_type=', re.sub(r'0x[0-9a-f]+', '0x', x))


def describe(e, w):
    lab = w.labels.get(id(e))
    if lab:
        return ['@', lab]
    try:
        text = tidy(str(e))
    except Exception as ee:  # noqa: BLE001
        text = ['unprintable', type(ee).__name__]
    c = e.__cause__ if isinstance(e, pc.PydanticSerializationError) else None
    return ['exc', type(e).__name__, text, describe(c, w) if c is not None else None]


def observed(case, spec):
    w = ops.world_for(case)
    try:
        w.serializer(0)
    except Exception as e:  # noqa: BLE001
        if core.is_panic(e):
            raise
        raise ops.Refused(str(e))
    op = core.do_op(w, spec, '#0.0#')
    e = getattr(op, 'exc', None)
    res = ['ok', core.norm(op.raw, w)] if e is None else ['raise', describe(e, w)]
    return {'result': res, 'log': op.log, 'fired': op.fired, 'warnings': [tidy(x[1]) for x in op.warnings]}, w, op


def expected(case, spec, limit=10**6):
    w = core.World(case)
    w.reference = False
    op = core.Op(spec, '#0.0#')
    w.stack().append(op)
    ref = refser.Ref(w, spec.get('kw') or {}, limit)
    kind, v = ref.run(case['schemas'][0], core.mat(spec['in'], w))
    w.stack().pop()
    if ref.steps > refval.MAX_STEPS:
        raise refval.Unsupported
    res = ['ok', core.norm(v, w)] if kind == 'ok' else ['raise', describe(v, w)]
    return {'result': res, 'log': op.log, 'fired': op.fired, 'warnings': [tidy(x) for x in ref.reported]}


def run_case(case):
    stats = {}
    trace = []
    sigs = []
    types = sorted(ops.types_in(case['schemas']))
    for vi, val in enumerate(case['vals']):
        k = None
        for pi, plan in enumerate([{}] + case['plans']):
            if k is not None:
                if k == 0:
                    break
                plan = {str(int(a) % k): b for a, b in plan.items()}
            spec = {'k': 'ser', 'v': 0, 'in': val, 'kw': case['kw'], 'faults': plan}
            try:
                got, w, op = observed(case, spec)
            except ops.Refused:
                return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
            if w.overflow:
                return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
            if k is None:
                k = op.n
            try:
                want = expected(case, spec)
            except refval.Unsupported:
                stats['unsupported'] = stats.get('unsupported', 0) + 1
                if pi == 0:
                    break
                continue
            for a, b in w.stats.items():
                stats[a] = stats.get(a, 0) + b
            stats['compared'] = stats.get('compared', 0) + 1
            stats['outcome:' + got['result'][0]] = stats.get('outcome:' + got['result'][0], 0) + 1
            got = json.loads(json.dumps(got))
            want = json.loads(json.dumps(want))
            trace.append(core.digest(got))
            sigs.append(core.digest([types, got['result'][0], [x[:2] for x in got['log']], got['fired'], len(got['warnings'])]))
            if got != want:
                return {'viol': ['differs', 'value %d plan %s: library | reference: %s' % (
                    vi, json.dumps(plan), ops.first_diff(got, want)), [vi, pi]], 'stats': stats, 'trace': trace, 'state': sigs}
    return {'viol': None, 'stats': stats, 'trace': trace, 'state': sigs}


CHECK = C15()
