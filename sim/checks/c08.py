"""C08: the handler given to a wrap function is the wrapped validator or serializer, whenever and wherever it is called."""
import json
import re

import core
import driver
import gen
import ops
from checks import c07

pc = core.pc
MODEL_WARNING = re.compile(r'Expected `\w+`( - serialized value may not be as expected \[.*?\])?\)')
FAULTS = core.FAULTS_VALUE + core.FAULTS_FATAL


class C08(driver.Check):
    pid = 'C08'
    runs = {'quick': 12000, 'thorough': 600000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = 1-3 wrap validators or serializers whose handlers are kept, and a history of handler calls: during '
            'the call they belong to, after it, from 1-3 simulated threads under a seeded schedule, nested inside user '
            'callbacks of each other or of themselves, after the validator or serializer was dropped and collected, with '
            'injected exceptions; every handler call is compared with a stand-alone validator or serializer of the '
            'wrapped schema called with the same arguments in a fresh world; distinct = distinct (schema types, '
            'outcomes, callbacks, faults, interleaving)')
    assumptions = ['values are fresh for every handler call']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, ser_rate=rng.choice([0, 0.3]), fn_rate=rng.choice([0.2, 0.4, 0.6]),
                    max_depth=rng.choice([1, 2, 2, 3]))
        wraps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ent = g.entry(recursive=0.2)
            kind = rng.choice(['val', 'val', 'ser'])
            shape = rng.choice(['top', 'top', 'list', 'dict', 'rec', 'union', 'union', 'model'])
            s = ent['s']
            if shape == 'union' and 'lax-or-strict' in ops.types_in([ent]):
                shape = 'top'
            if kind == 'val':
                kw = ops.validate_kw(g)
                kw.pop('allow_partial', None)
            else:
                kw = ops.ser_kw(g, False)
                kw.pop('serialize_as_any', None)
                if shape != 'top':
                    kw.pop('include', None)
                    kw.pop('exclude', None)
            wraps.append({'kind': kind, 'shape': shape, 'ent': ent, 'kw': kw, 'info': g.p(0.3),
                          'to_json': kind == 'ser' and kw['mode'] == 'json' and g.p(0.5),
                          'first': self.val(g, kind, shape, s)})

        def call(depth=0):
            k = rng.randrange(len(wraps))
            x = wraps[k]
            c = {'h': k, 'in': self.val(g, x['kind'], x['shape'], x['ent']['s'])}
            if g.p(0.15) and 'include' not in x['kw'] and 'exclude' not in x['kw']:
                c['loc'] = g.one(['L', 0, 3])
            f = {}
            while g.p(0.35) and len(f) < 3:
                n = str(min(8, int(rng.expovariate(0.4))))
                r = rng.random()
                if r < 0.4 and depth < 2:
                    f[n] = {'k': 'hcall', 'c': call(depth + 1)}
                elif r < 0.5:
                    f[n] = {'k': 'gc', 'g': 2}
                else:
                    f[n] = {'k': 'raise', 'e': rng.choice(FAULTS)}
            c['faults'] = f
            return c

        threads = [[call() for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([1, 1, 2, 3]))]
        p = rng.choice([0.1, 0.4, 0.8])
        sched = [rng.randint(1, 2) if g.p(p) else 0 for _ in range(150)] if len(threads) > 1 else []
        return {'classes': g.classes, 'fns': g.fns, 'inputs': [], 'wraps': wraps, 'threads': threads,
                'schedule': sched, 'drop': [k for k in range(len(wraps)) if g.p(0.2)], 'inside': g.p(0.2)}

    def val(self, g, kind, shape, s):
        v = g.val(s) if kind == 'val' else g.val(s, valid=True if g.p(0.85) else None, out=True)
        return {'a': v, 'kids': []} if shape == 'rec' else v

    def run(self, case):
        st, v = core.forked(lambda: run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


def build(case):
    """Schemas 2k: the shape with the wrap inside; 2k+1: what is wrapped."""
    schemas = []
    for k, x in enumerate(case['wraps']):
        if not {'kind', 'shape', 'ent', 'kw', 'first'} <= set(x):
            return None
        inner, cfg = x['ent']['s'], x['ent'].get('config')
        if x['shape'] == 'union' and 'lax-or-strict' in ops.types_in([x['ent']]):
            return None  # tries its strict schema first inside of smart unions
        if x['shape'] == 'rec':
            ref = {'type': 'definition-ref', 'schema_ref': 'REC'}
            r = {'type': 'typed-dict', 'ref': 'REC', 'fields': {
                'a': {'type': 'typed-dict-field', 'schema': {'type': 'nullable', 'schema': inner}},
                'kids': {'type': 'typed-dict-field', 'schema': {'type': 'list', 'items_schema': wrap(x, k, ref)}}}}
            d = {'s': {'type': 'definitions', 'schema': ref, 'definitions': [r]}, 'config': cfg}
            schemas += [d, d]
            continue
        s = wrap(x, k, inner)
        if x['shape'] == 'list':
            s = {'type': 'list', 'items_schema': s}
        elif x['shape'] == 'dict':
            s = {'type': 'dict', 'values_schema': s}
        elif x['shape'] == 'union' and x['kind'] == 'val':
            s = {'type': 'union', 'choices': [s, {'type': 'none'}]}
        elif x['shape'] == 'model' and x['kind'] == 'ser':
            s = {'type': 'model', 'cls': {'$cls': 'Outer'}, 'schema': {'type': 'model-fields', 'fields': {
                'f': {'type': 'model-field', 'schema': s}}}, **({'config': cfg} if cfg else {})}
        schemas += [{'s': s, 'config': cfg}, x['ent']]
    return {**case, 'schemas': schemas, 'classes': {**case['classes'], 'Outer': {'kind': 'model'}}}


def wrap(x, k, inner):
    f = {'$fn': 'w%d' % k}
    if x['kind'] == 'val':
        return {'type': 'function-wrap', 'schema': inner, 'function': {
            'type': 'with-info' if x.get('info') else 'no-info', 'function': f}}
    return {'type': 'any', 'serialization': {'type': 'function-wrap', 'function': f, 'schema': inner,
                                             'info_arg': bool(x.get('info'))}}


def outer(x, v, w):
    if x['shape'] == 'model' and x['kind'] == 'ser':
        c = w.cls('Outer')
        o = c.__new__(c)
        object.__setattr__(o, '__dict__', {'f': v})
        object.__setattr__(o, '__pydantic_fields_set__', {'f'})
        object.__setattr__(o, '__pydantic_extra__', None)
        object.__setattr__(o, '__pydantic_private__', None)
        return o
    return {'list': [v], 'dict': {'k': v}, 'rec': {'a': None, 'kids': [v]}}.get(x['shape'], v)


class Side:
    def __init__(self, case, sched, ref):
        self.case = case
        self.w = w = core.World(case, sched)
        w.reference = ref
        core.install_warnings(w)
        self.handlers = {}
        for k, x in enumerate(case['wraps']):
            w.fns['w%d' % k] = self.capture(k, x.get('info'))
        for k, x in enumerate(case['wraps']):
            for j in (0, 1):
                self.tool(k, j)
        if not ref:
            w.hooks['hcall'] = self.nested
        else:
            w.hooks['hcall'] = lambda *a: None
        self.reports = {}
        self.specs = {}

    def tool(self, k, j):
        return (self.w.serializer if self.case['wraps'][k]['kind'] == 'ser' else self.w.validator)(2 * k + j)

    def capture(self, k, info):
        def f(v, handler):
            self.handlers.setdefault(k, handler)
            return handler(v)

        return (lambda v, handler, info: f(v, handler)) if info else f

    def kw(self, k):
        x = self.case['wraps'][k]
        return c07.kwargs(self.w, x)

    def first(self, k):
        """The call the handler belongs to."""
        x = self.case['wraps'][k]
        t = self.tool(k, 0)
        v = outer(x, core.mat(x['first'], self.w), self.w)
        kw = self.kw(k)
        if x['kind'] == 'val':
            return t.validate_python(v, **kw)
        if x.get('to_json'):
            kw.pop('mode', None)
            return t.to_json(v, **kw)
        return t.to_python(v, **kw)

    def op(self, key, faults, f, run=c07.outcome):
        op = core.Op({'k': 'handler', 'm': '', 'faults': faults}, key)
        self.w.stack().append(op)
        try:
            op.result = run(self.w, f)
        finally:
            self.w.stack().pop()
        return core.op_report(op)

    def call(self, c, key):
        h = self.handlers.get(c['h'])
        if h is None:
            return
        args = [core.mat(c['in'], self.w)]
        if 'loc' in c:
            args.append(c['loc'])
        self.specs[key] = c
        self.reports[key] = self.op(key, c.get('faults') or {}, lambda: h(*args))

    def nested(self, op, n, f, fid, point, ctl):
        self.call(f['c'], '#%s.%d#' % (op.key.strip('#'), n))

    def alone(self, c):
        """The same call on a stand-alone validator or serializer of the wrapped schema."""
        k = c['h']
        x = self.case['wraps'][k]
        t = self.tool(k, 1)
        v = core.mat(c['in'], self.w)
        kw = self.kw(k)
        if x['kind'] == 'ser':
            return lambda: t.to_python(v, **kw)

        def f():
            try:
                return t.validate_python(v, **kw)
            except pc.ValidationError as e:
                if 'loc' in c and not self.w.labels.get(id(e)):
                    raise c07.Located(c['loc'], e)
                raise

        return f


def run_case(case):
    case = build(case)
    if case is None:
        return {'viol': None, 'stats': {}, 'discard': True}
    sched = core.Sched(case.get('schedule') or ())
    try:
        a = Side(case, sched, False)
    except core.HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        if core.is_panic(e):
            raise
        return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
    stats, trace, sig = {}, [], []
    for k in range(len(case['wraps'])):
        a.reports['first%d' % k] = a.op('#first%d#' % k, {}, lambda k=k: a.first(k))
    for k in case.get('drop') or ():
        if k < len(case['wraps']):
            (a.w.serializers if case['wraps'][k]['kind'] == 'ser' else a.w.validators).pop(2 * k, None)
    if case.get('drop'):
        core.gc.collect()

    def body(t):
        def run():
            for n, c in enumerate(case['threads'][t]):
                a.call(c, '#%d.%d#' % (t, n))

        return run

    if case.get('inside') and len(case['threads']) == 1:
        # all the calls happen inside a user callback of another call
        v = pc.SchemaValidator({'type': 'function-plain', 'function': {
            'type': 'no-info', 'function': lambda _: body(0)()}})
        v.validate_python(None)
    else:
        sched.run([body(t) for t in range(len(case['threads']))])
    if a.w.overflow:
        return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
    stats.update(a.w.stats)
    stats['switches'] = sched.switches
    b = Side(case, None, True)
    for key, got in a.reports.items():
        if key.startswith('first'):
            k = int(key[5:])
            want = b.op('#%s#' % key, {}, lambda: b.first(k))
            kind = 'first'
        else:
            c = a.specs[key]
            want = b.op(key, c.get('faults') or {}, b.alone(c), c07.model_outcome)
            kind = case['wraps'][c['h']]['kind'] + ('' if key.count('.') == 1 else '-nested')
        got, want = json.loads(json.dumps(got)), json.loads(json.dumps(want))
        for r in (got, want):
            r['fired'] = [f for f in r['fired'] if f[1] not in ('gc', 'hcall')]
            # this warning names the model around a field
            r['warnings'] = [[x[0], MODEL_WARNING.sub('fields', x[1])] for x in r['warnings']]
            if 'PydanticSerializationError' in str(r['result']):
                r['result'] = json.loads(MODEL_WARNING.sub('fields', json.dumps(r['result'])))
        stats['compared'] = stats.get('compared', 0) + 1
        x = '%s:%s' % (kind, got['result'][0])
        stats[x] = stats.get(x, 0) + 1
        trace.append([key, core.digest(got)])
        sig.append([kind, got['result'][0], [y[:2] for y in got['log']], got['fired']])
        viol = None
        if ops.has_panic(got['result']):
            viol = ['panic', '%s: %s' % (key, json.dumps(got['result'])[:500]), [key]]
        elif got != want:
            viol = ['differs', 'call %s (%s): handler | alone: %s' % (key, kind, ops.first_diff(got, want)), [key]]
        if viol:
            return {'viol': viol, 'stats': stats, 'trace': trace, 'state': []}
    return {'viol': None, 'stats': stats, 'trace': trace,
            'state': [core.digest([sorted(ops.types_in(case['schemas'])), sig, sched.trace])]}


CHECK = C08()
