"""C03: what user code raises during validation has exactly the documented effect, compared with a reference interpreter."""
import json

import core
import driver
import gen
import ops
import refval

ALL = core.FAULTS_VALUE + core.FAULTS_FATAL + core.FAULTS_SIGNAL
LEAVES = [x for x in gen.LEAVES]
CONT = ['list', 'tuple', 'set', 'frozenset', 'dict', 'default', 'nullable', 'union', 'tagged-union', 'chain',
        'lax-or-strict', 'json-or-python', 'typed-dict', 'model', 'root-model', 'dataclass', 'custom-error',
        'arguments', 'arguments-v3', 'call']


class C03(driver.Check):
    pid = 'C03'
    runs = {'quick': 16000, 'thorough': 800000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = one generated schema and value, validated without faults and then under up to 6 plans which make '
            'chosen callbacks (validator functions, handlers, default factories, discriminators, post-init hooks, '
            'iterators) raise any of 19 exceptions/signals or return another value; every execution is compared with '
            'an independent reference interpreter: result or errors (type, location, input, carried exception by '
            'identity), every callback with its arguments and info; distinct = distinct (schema types, outcome, '
            'callbacks, faults)')
    assumptions = ['leaf coercions are taken from the same leaf validated alone',
                   'mappings, alias paths and JSON input are outside the reference']
    stubs = driver.Check.stubs + ['the oracle: sim/refval.py']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, fn_rate=rng.choice([0.25, 0.4, 0.6]), max_depth=rng.choice([2, 3, 3, 4]),
                    containers=sorted(rng.sample(CONT, rng.randint(5, 12))), reject_rate=0.2)
        ent = g.entry(recursive=0.15)
        kw = ops.validate_kw(g)
        attrs = g.p(0.4)
        kw.pop('allow_partial', None)
        if not attrs:
            kw.pop('from_attributes', None)
        elif g.p(0.4):
            kw['from_attributes'] = True
        vals = [g.val(ent['s']) for _ in range(2)]
        plans = []
        for _ in range(rng.choice([2, 4, 6])):
            f = {}
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                r = rng.random()
                kind = {'k': 'raise', 'e': rng.choice(ALL)} if r < 0.85 else {'k': 'return', 'v': g.atom()}
                f[str(rng.randrange(1000))] = kind
            plans.append(f)
        case = {'classes': g.classes, 'fns': g.fns, 'schemas': [ent], 'inputs': [], 'vals': vals, 'kw': kw,
                'plans': plans, 'init': None}
        core_s = ops._unwrap(ent['s'])
        if core_s is ent['s'] and core_s['type'] in ('model', 'dataclass') and g.p(0.25):
            case['init'] = core_s['cls']['$cls']
        return refval.adapt(case, attrs)

    def run(self, case):
        if not refval.types_ok(case):
            return {'viol': None, 'stats': {'discard:unsupported': 1}, 'discard': True}
        st, v = core.forked(lambda: run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


def expected(case, spec, limit=None):
    """The reference's report of one operation."""
    w = core.World(case)
    w.reference = False
    op = core.Op(spec, '#0.0#')
    w.stack().append(op)
    ref = refval.Ref(w, spec.get('kw') or {}, limit)
    target = None
    if spec.get('m') == 'init':
        c = w.cls(spec['c'])
        target = c.__new__(c)
        w.keep.append(target)
    kind, v = ref.run(case['schemas'][0], core.mat(spec['in'], w), target)
    if ref.unsupported:
        raise refval.Unsupported
    w.stack().pop()
    if kind == 'ok':
        res = ['ok', core.norm(v, w)]
    elif kind == 'errors':
        res = ['errors', [[t, core.norm(loc, w), core.norm(i, w), core.norm(e, w)] for t, loc, i, e in v]]
    else:
        res = ['raise', exc(v, w)]
    return {'result': res, 'log': op.log, 'fired': op.fired}


def exc(e, w):
    lab = w.labels.get(id(e))
    return ['@', lab] if lab else ['exc', type(e).__name__]


def observed_line(x, w):
    return [core.norm(y, w) if i else y for i, y in enumerate(refval.line(x))]


def observed(case, spec):
    w = ops.world_for(case)
    try:
        w.validator(0)
    except Exception as e:  # noqa: BLE001
        if core.is_panic(e):
            raise
        raise ops.Refused(str(e))
    op = core.do_op(w, spec, '#0.0#')
    e = getattr(op, 'exc', None)
    if e is None:
        r = op.raw
        res = ['ok', core.norm(r[1] if spec.get('m') == 'init' else r, w)]
        if spec.get('m') == 'init' and r[0] is not True:
            res = ['ok', 'another instance']
    elif w.labels.get(id(e)):
        res = ['raise', exc(e, w)]
    elif core.is_panic(e):
        res = ['raise', core.norm_exc(e)]
    elif isinstance(e, core.pc.ValidationError):
        res = ['errors', [observed_line(x, w) for x in e.errors(include_url=False)]]
    else:
        res = ['raise', exc(e, w)]
    return {'result': res, 'log': op.log, 'fired': op.fired}, w, op


def run_case(case):
    stats = {}
    trace = []
    sigs = []
    viol = None
    types = sorted(ops.types_in(case['schemas']))
    for vi, val in enumerate(case['vals']):
        k = None
        for pi, plan in enumerate([{}] + (case['plans'] if k != 0 else [])):
            if k is not None:
                if k == 0:
                    break
                plan = {str(int(a) % k): b for a, b in plan.items()}
            spec = {'k': 'validate', 'm': 'python', 'v': 0, 'in': val, 'kw': case['kw'], 'faults': plan}
            if case.get('init'):
                spec.update(m='init', c=case['init'])
            try:
                got, w, op = observed(case, spec)
            except ops.Refused:
                return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
            if w.overflow:
                return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
            if k is None:
                k = op.n
            try:
                want = expected(case, spec)
            except refval.Unsupported:
                stats['unsupported'] = stats.get('unsupported', 0) + 1
                if pi == 0:
                    break
                continue
            for a, b in w.stats.items():
                stats[a] = stats.get(a, 0) + b
            stats['compared'] = stats.get('compared', 0) + 1
            stats['outcome:' + got['result'][0]] = stats.get('outcome:' + got['result'][0], 0) + 1
            got = json.loads(json.dumps(got))
            want = json.loads(json.dumps(want))
            trace.append(core.digest(got))
            sigs.append(core.digest([types, got['result'][0], [x[:2] for x in got['log']], got['fired']]))
            if got != want:
                viol = ['differs', 'value %d plan %s: library | reference: %s' % (vi, json.dumps(plan),
                        ops.first_diff(got, want)), [vi, pi]]
                return {'viol': viol, 'stats': stats, 'trace': trace, 'state': sigs}
    return {'viol': viol, 'stats': stats, 'trace': trace, 'state': sigs}


CHECK = C03()
