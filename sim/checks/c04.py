"""C04: instances change only by completed initialisations and assignments, exactly as specified, and never half-way."""
import json

import core
import driver
import gen
import ops
import refval
from checks import c03

ALL = c03.ALL


class C04(driver.Check):
    pid = 'C04'
    runs = {'quick': 26000, 'thorough': 600000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = one model or dataclass schema (optionally inside function validators) and a history of '
            'initialisations, re-initialisations and validate_assignment calls on one instance, with exceptions, '
            'signals and replaced return values injected at chosen callbacks; at every user callback and after every '
            'call the complete state of the instance (attributes, extras, fields-set, their order) is compared with '
            'an independent reference, and after failures also the identity of every attribute; distinct = distinct '
            '(schema types, per step outcome, callbacks, faults)')
    assumptions = ['leaf coercions are taken from the same leaf validated alone',
                   'overlapping assignments to the same instance are excluded (they are last-writer-wins)']
    stubs = driver.Check.stubs + ['the oracle: sim/refval.py']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, fn_rate=rng.choice([0.2, 0.4, 0.6]), max_depth=rng.choice([1, 2, 2]),
                    containers=sorted(rng.sample(c03.CONT, rng.randint(4, 9))), reject_rate=0.05)
        g.config_rate = 0.15
        root = rng.random()
        if root < 0.1:
            sub = g.schema(2)
            if sub['type'] != 'default' and g.p(0.4):
                sub = {'type': 'default', 'schema': sub, 'default': g.atom()}
            core_s = {'type': 'model', 'cls': {'$cls': g.new_cls('model')}, 'root_model': True, 'schema': sub}
        elif root < 0.65:
            core_s = g.model(2)
        else:
            core_s = g.dataclass(2)
        inner = core_s
        for f in [] if core_s.get('root_model') else fields(core_s).values():
            if g.p(0.1):
                f['frozen'] = True
        s = core_s
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            role = rng.choice(['before', 'after', 'wrap'])
            s = {'type': 'function-' + role, 'function': g.vfn(role), 'schema': s}
            if role != 'wrap' and g.p(0.8):
                g.fns[str(s['function']['function']['$fn'])]['beh'] = ['id']
        ent = {'s': s}
        if g.p(0.1):
            ent['config'] = g.config()
        names = list(fields(core_s))
        steps = []
        for k in range(rng.choice([2, 3, 4, 6])):
            kw = ops.validate_kw(g)
            for a in ('from_attributes', 'allow_partial'):
                kw.pop(a, None)
            if k == 0 or g.p(0.12):
                if k == 0 and g.p(0.7):
                    kw = {}
                step = {'op': 'init', 'in': g.val(core_s, valid=True if k == 0 or g.p(0.5) else None), 'kw': kw}
                if core_s.get('root_model') and core_s['schema']['type'] == 'default' and g.p(0.5):
                    step['in'] = {'$': 'undefined'}
            else:
                f = g.one(names * 3 + ['zz', 'nope'])
                fs = fields(core_s).get(f, {'schema': {'type': 'any'}})
                step = {'op': 'assign', 'f': f, 'val': g.val(fs['schema']), 'kw': kw}
            plan = {}
            if g.p(0.5 if k else 0.1):
                for _ in range(rng.choice([1, 1, 2])):
                    plan[str(rng.randrange(1000))] = (
                        {'k': 'raise', 'e': rng.choice(ALL)} if g.p(0.85) else {'k': 'return', 'v': g.atom()})
            step['faults'] = plan
            steps.append(step)
        case = {'classes': g.classes, 'fns': g.fns, 'schemas': [ent], 'inputs': [], 'steps': steps,
                'cls': inner['cls']['$cls']}
        return refval.adapt(case)

    def run(self, case):
        if not refval.types_ok(case):
            return {'viol': None, 'stats': {'discard:unsupported': 1}, 'discard': True}
        st, v = core.forked(lambda: run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


def fields(m):
    inner = m['schema']
    if m.get('root_model'):
        return {'root': {'schema': inner}}
    while inner['type'] not in ('model-fields', 'dataclass-args'):
        inner = inner['schema']
    f = inner['fields']
    return {x['name']: x for x in f} if isinstance(f, list) else f


class Side:
    """One world (library or reference) with its instance and the state seen at every callback."""

    def __init__(self, case, ref):
        self.case = case
        self.w = ops.world_for(case) if not ref else core.World(case)
        self.w.reference = False
        c = self.w.cls(case['cls'])
        self.target = c.__new__(c)
        self.w.keep.append(self.target)
        self.w.probe = self.state
        self.busy = False

    def state(self):
        if self.busy:
            return None
        self.busy = True
        try:
            return core.norm(self.target, self.w)
        finally:
            self.busy = False

    def ids(self):
        o = self.target
        d = dict(getattr(o, '__dict__', None) or {})
        for k in getattr(type(o), '__slots__', ()):
            if hasattr(o, k):
                d[k] = getattr(o, k)
        x = getattr(o, '__pydantic_extra__', None)
        self.w.keep += [*d.values(), *(x or {}).values()]  # no address is used twice
        return {**{('d', k): id(v) for k, v in d.items()}, **{('x', k): id(v) for k, v in (x or {}).items()}}

    def begin(self, k, faults):
        spec = {'k': 'step', 'faults': faults, 'm': self.case['steps'][k]['op']}
        op = core.Op(spec, '#%d#' % k)
        self.op = op
        self.w.stack().append(op)
        return op

    def end(self):
        self.w.stack().pop()


def call_kw(step, w):
    kw = {a: step['kw'][a] for a in core.VKW if a in step['kw']}
    if 'context' in step['kw']:
        kw['context'] = core.mat(step['kw']['context'], w)
    return kw


def real(side, k, faults):
    step = side.case['steps'][k]
    w = side.w
    v = w.validator(0)
    op = side.begin(k, faults)
    try:
        kw = call_kw(step, w)
        if step['op'] == 'init':
            r = v.validate_python(core.mat(step['in'], w), self_instance=side.target, **kw)
        else:
            r = v.validate_assignment(side.target, step['f'], core.mat(step['val'], w), **kw)
        res = ['ok', core.norm(r, w), r is side.target]
    except core.HarnessError:
        raise
    except core.pc.ValidationError as e:
        res = (['raise', c03.exc(e, w)] if w.labels.get(id(e)) else
               ['errors', [c03.observed_line(x, w) for x in e.errors(include_url=False)]])
    except BaseException as e:  # noqa: BLE001
        res = ['raise', core.norm_exc(e) if core.is_panic(e) else c03.exc(e, w)]
    finally:
        side.end()
    return {'result': res, 'log': op.log, 'fired': op.fired, 'state': side.state()}


def model(side, k, faults):
    step = side.case['steps'][k]
    w = side.w
    op = side.begin(k, faults)
    ref = refval.Ref(w, step['kw'])
    ent = side.case['schemas'][0]
    if step['op'] == 'init':
        kind, v = ref.run(ent, core.mat(step['in'], w), side.target)
    else:
        kind, v = ref.run_assign(ent, side.target, step['f'], core.mat(step['val'], w))
    side.end()
    if ref.unsupported:
        raise refval.Unsupported
    if kind == 'ok':
        res = ['ok', core.norm(v, w), v is side.target]
    elif kind == 'errors':
        res = ['errors', [[t, core.norm(loc, w), core.norm(i, w), core.norm(e, w)] for t, loc, i, e in v]]
    else:
        res = ['raise', c03.exc(v, w)]
    return {'result': res, 'log': op.log, 'fired': op.fired, 'state': side.state()}


def run_case(case):
    stats = {}
    types = sorted(ops.types_in(case['schemas']))
    trace, sigs = [], []
    # the number of callbacks of every step, from a run without faults
    try:
        dry = Side(case, False)
        counts = []
        try:
            dry.w.validator(0)
        except Exception as e:  # noqa: BLE001
            if core.is_panic(e):
                raise
            raise ops.Refused(str(e))
        for k in range(len(case['steps'])):
            real(dry, k, {})
            counts.append(dry.op.n)
        if dry.w.overflow:
            return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
        a, b = Side(case, False), Side(case, True)
        a.w.validator(0)
    except ops.Refused:
        return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
    sig = []
    for k, step in enumerate(case['steps']):
        n = counts[k]
        faults = {str(int(p) % n): f for p, f in step['faults'].items()} if n else {}
        ia, ib = a.ids(), b.ids()
        got = real(a, k, faults)
        if a.w.overflow:
            return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
        try:
            want = model(b, k, faults)
        except refval.Unsupported:
            stats['unsupported'] = stats.get('unsupported', 0) + 1
            break
        got, want = json.loads(json.dumps(got)), json.loads(json.dumps(want))
        stats['compared'] = stats.get('compared', 0) + 1
        key = '%s:%s' % (step['op'], got['result'][0])
        stats[key] = stats.get(key, 0) + 1
        trace.append(core.digest(got))
        sig.append([step['op'], got['result'][0], [x[:2] for x in got['log']], got['fired']])
        viol = None
        if got != want:
            viol = ['differs', 'step %d (%s): library | reference: %s' % (k, step['op'], ops.first_diff(got, want)), [k]]
        elif got['result'][0] != 'ok' and b.ids() == ib and a.ids() != ia:
            viol = ['touched', 'step %d (%s) failed and replaced attributes by equal ones: %s' % (
                k, step['op'], sorted(x for x in ia if a.ids().get(x) != ia[x])), [k]]
        if viol:
            return {'viol': viol, 'stats': stats, 'trace': trace, 'state': sigs}
    for x, y in a.w.stats.items():
        stats[x] = stats.get(x, 0) + y
    sigs.append(core.digest([types, sig]))
    return {'viol': None, 'stats': stats, 'trace': trace, 'state': sigs}


CHECK = C04()
