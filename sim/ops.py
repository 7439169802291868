"""Generation of operations over generated schemas, execution of histories (one or more simulated client threads) and
the isolated reference executions they are compared with."""
import json

import core
import gen
import pydantic_core as pc

FATAL = ('type_error', 'runtime_error', 'key_error', 'attribute_error', 'os_error', 'keyboard_interrupt',
         'memory_error', 'stop_iteration', 'recursion_error', 'base_exc', 'sim_error')
VALUEISH = core.FAULTS_VALUE


def stateful(v):
    """Does a value spec contain one-shot iterators (it cannot be shared between operations)?"""
    if isinstance(v, dict):
        if v.get('$') in ('gen', 'iter'):
            return True
        return any(stateful(x) for x in v.values())
    if isinstance(v, list):
        return any(stateful(x) for x in v)
    return False


def has_cls(v, kinds=('inst',)):
    if isinstance(v, dict):
        return v.get('$') in kinds or any(has_cls(x, kinds) for x in v.values())
    if isinstance(v, list):
        return any(has_cls(x, kinds) for x in v)
    return False


def validate_kw(g):
    kw = {}
    p = g.p
    if p(0.15):
        kw['strict'] = p(0.5)
    if p(0.15):
        kw['from_attributes'] = p(0.7)
    if p(0.25):
        kw['context'] = g.one([{'c': 1}, 'ctx', {'$': 'sentinel', 'v': 1}])
    if p(0.1):
        kw.update(g.one([{'by_alias': True, 'by_name': True}, {'by_alias': True, 'by_name': False}, {'by_alias': True},
                         {'by_name': True}, {'by_alias': False, 'by_name': True}]))
    if p(0.1):
        kw['allow_partial'] = g.one([True, 'trailing-strings', False])
    return kw


FILTER_KEYS = ['a', 'a', 'b', 'b', 'c', 'tag', 'v', 'kids', 'cf', 'cf', 'x', 'nope', 0, 0, 1, 2, -1, '__all__', '__all__']


def filters(g, depth=0):
    """An include or exclude argument."""
    r = g.rng.random()
    keys = [g.one(FILTER_KEYS) for _ in range(g.one([1, 1, 2, 3]))]
    if r < 0.25 or depth > 2:
        return {'$': 'set', 'v': sorted(set(keys), key=str)}
    if r < 0.3:
        return {'$': 'frozenset', 'v': sorted(set(keys), key=str)}
    return {'$': 'dict', 'v': [[k, True if g.p(0.4) else {'$': 'ellipsis'} if g.p(0.1) else filters(g, depth + 1)]
                               for k in dict.fromkeys(keys)]}


def ser_kw(g, js):
    kw = {}
    p = g.p
    if not js:
        kw['mode'] = g.one(['python', 'json', 'python', 'custom'])
    if p(0.2):
        kw['by_alias'] = p(0.5)
    for a in ('exclude_unset', 'exclude_defaults', 'exclude_none'):
        if p(0.15):
            kw[a] = True
    if p(0.1):
        kw['round_trip'] = True
    kw['warnings'] = g.one([True, True, True, 'none', 'error'])
    if p(0.1):
        kw['serialize_as_any'] = True
    if p(0.15):
        kw['context'] = {'c': 2}
    if p(0.12):
        kw['include'] = filters(g)
    if p(0.12):
        kw['exclude'] = filters(g)
    if p(0.15):
        kw['fallback'] = g.fn('fallback', beh=['str'])['$fn']
    if js and p(0.1):
        kw['indent'] = 2
    return kw


def add_faults(g, spec, rate=0.35, kinds=None, upto=10, nested=None, signals=True):
    f = {}
    rng = g.rng
    while g.p(rate) and len(f) < 3:
        n = min(upto, int(rng.expovariate(0.4)))
        r = rng.random()
        if nested is not None and r < 0.35:
            f[str(n)] = {'k': 'nested', 'op': nested()}
        elif r < 0.42:
            f[str(n)] = {'k': 'gc', 'g': g.one([0, 2])}
        elif r < 0.7:
            f[str(n)] = {'k': 'raise', 'e': g.one(VALUEISH)}
        elif r < 0.92 or not signals:
            f[str(n)] = {'k': 'raise', 'e': g.one(FATAL)}
        else:
            f[str(n)] = {'k': 'raise', 'e': g.one(('omit', 'use_default'))}
    if f:
        spec['faults'] = f
    return spec


class OpGen:
    """Operations over the schema entries of a case, with some inputs shared between operations."""

    def __init__(self, g, entries, share=0.2, inputs=None):
        self.g = g
        self.entries = entries
        self.inputs = inputs if inputs is not None else []
        self.share = share

    def ref(self, v):
        if stateful(v) or not self.g.p(self.share):
            return v
        self.inputs.append(v)
        return {'shared': len(self.inputs) - 1}

    def val(self, s, **k):
        for i in range(len(self.inputs)):
            if self.g.p(0.05):
                return {'shared': i}
        return self.ref(self.g.val(s, **k))

    def op(self, i=None, kinds=None):
        g = self.g
        i = g.rng.randrange(len(self.entries)) if i is None else i
        e = self.entries[i]
        s = e['s']
        r = g.rng.random()
        if kinds:
            k = g.one(kinds)
        else:
            k = ('python' if r < 0.36 else 'json' if r < 0.5 else 'ser' if r < 0.64 else 'serjson' if r < 0.74 else
                 'vs' if r < 0.8 else 'isinstance' if r < 0.83 else 'strings' if r < 0.86 else 'assign' if r < 0.91 else
                 'init' if r < 0.94 else 'default' if r < 0.955 else 'repr' if r < 0.97 else 'to_json' if r < 0.985 else
                 'from_json')
        if k in ('assign', 'init'):
            core_s = _unwrap(s)
            t = core_s['type']
            if t not in ('model', 'dataclass') or core_s.get('root_model'):
                k = 'python'
        if k == 'python':
            return {'k': 'validate', 'm': 'python', 'v': i, 'in': self.val(s), 'kw': validate_kw(g)}
        if k == 'isinstance':
            kw = validate_kw(g)
            kw.pop('allow_partial', None)
            return {'k': 'validate', 'm': 'isinstance', 'v': i, 'in': self.val(s), 'kw': kw}
        if k == 'json':
            v = g.val(s, js=True)
            t = gen.json_text(g.rng, v)
            if g.p(0.06):
                t = t[: g.rng.randrange(len(t) + 1)]
            kw = validate_kw(g)
            kw.pop('from_attributes', None)
            return {'k': 'validate', 'm': 'json', 'v': i, 'json': t, 'bytes': g.p(0.3), 'kw': kw}
        if k == 'strings':
            kw = validate_kw(g)
            kw.pop('from_attributes', None)
            return {'k': 'validate', 'm': 'strings', 'v': i, 'in': gen.str_values(g.val(s, js=True)), 'kw': kw}
        if k == 'default':
            kw = {a: b for a, b in validate_kw(g).items() if a in ('strict', 'context')}
            return {'k': 'validate', 'm': 'default', 'v': i, 'kw': kw}
        if k == 'init':
            c = _unwrap(s)['cls']['$cls']
            kw = {a: b for a, b in validate_kw(g).items() if a in ('strict', 'context', 'by_alias', 'by_name')}
            return {'k': 'validate', 'm': 'init', 'v': i, 'c': c, 'in': self.plain_input(s), 'kw': kw}
        if k == 'assign':
            m = _unwrap(s)
            inner = m['schema']
            while inner['type'] not in ('model-fields', 'dataclass-args'):
                inner = inner['schema']
            fields = inner['fields']
            if isinstance(fields, list):
                fields = {f['name']: f for f in fields}
            name = g.one([*fields, *fields, 'nope'])
            fs = fields.get(name, {'schema': {'type': 'any'}})
            kw = {a: b for a, b in validate_kw(g).items() if a in ('strict', 'context', 'from_attributes', 'by_alias', 'by_name')}
            return {'k': 'validate', 'm': 'assign', 'v': i, 'in': g.val(m, True, True), 'f': name,
                    'val': g.val(fs['schema']), 'kw': kw}
        if k == 'vs':
            return {'k': 'vs', 'v': i, 'in': self.val(s), 'm': g.one(['python', 'json']), 'kw': {}}
        if k == 'ser':
            v = g.val(s, valid=None if g.p(0.2) else True, out=True)
            return {'k': 'ser', 'v': i, 'in': self.ref(v), 'm': 'python', 'kw': ser_kw(g, False)}
        if k == 'serjson':
            v = g.val(s, valid=None if g.p(0.2) else True, out=True)
            return {'k': 'ser', 'v': i, 'in': self.ref(v), 'm': 'json', 'kw': ser_kw(g, True)}
        if k == 'repr':
            return {'k': 'repr', 'v': i, 'ser': g.p(0.3)}
        if k == 'to_json':
            v = g.val(s, valid=True, out=True)
            kk = {'fallback': g.fn('fallback', beh=['str'])['$fn']} if g.p(0.5) else {}
            if g.p(0.3):
                kk['exclude_none'] = True
            return {'k': g.one(['to_json', 'to_jsonable']), 'in': self.ref(v), 'kw': kk}
        if k == 'from_json':
            t = gen.json_text(g.rng, g.val(s, js=True))
            kw = {}
            if g.p(0.4):
                t = t[: g.rng.randrange(len(t) + 1)]
                kw['allow_partial'] = g.one([True, False, 'trailing-strings'])
            return {'k': 'from_json', 'json': t, 'kw': kw}
        raise core.HarnessError(k)

    def plain_input(self, s):
        """A dict input for an __init__-style call."""
        g = self.g
        for _ in range(4):
            v = g.val(_unwrap(s))
            if isinstance(v, dict) and '$' not in v:
                return v
        return {}


def _unwrap(s):
    while s['type'].startswith('function-') or s['type'] in ('definitions', 'custom-error', 'default', 'nullable'):
        if s['type'] == 'definitions':
            r = s['schema'].get('schema_ref')
            d = [x for x in s['definitions'] if x.get('ref') == r]
            s = d[0] if d else s['schema']
            if not d:
                return s
        elif 'schema' in s:
            s = s['schema']
        else:
            return s
    return s


# ------------------------------------------------------------------------------------------------ execution


def used_schemas(case):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') in ('validate', 'ser', 'vs', 'repr', 'build') and 'v' in x:
                out.add((x['v'], x['k']))
                if x['k'] == 'vs':
                    out.add((x['v'], 'ser'))
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    walk(case.get('threads'))
    return out


def attach(w, classes):
    """Gives classes their own validator and serializer."""
    for name, s in classes:
        c = w.cls(name)
        v, z = pc.SchemaValidator(w.schema(s)), pc.SchemaSerializer(w.schema(s))
        c.__pydantic_validator__, c.__pydantic_serializer__ = v, z
        c.__pydantic_complete__ = True


def prebuild(w, used):
    """Constructs what the operations use; None when the library refuses a schema."""
    attach(w, w.case.get('attach') or [])
    for i, k in sorted(used):
        if k in ('ser',):
            w.serializer(i)
        else:
            w.validator(i)


def all_ops(op):
    yield op
    for n in op.nested:
        yield from all_ops(n)


def world_for(case, sched=None):
    w = core.World(case, sched)
    core.install_warnings(w)
    return w


class Refused(Exception):
    pass


def build_world(case, sched=None):
    w = world_for(case, sched)
    try:
        prebuild(w, used_schemas(case))
    except core.HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        if core.is_panic(e):
            raise
        raise Refused(str(e)[:200])
    return w


def exec_history(case):
    """Runs the threads of the case under its schedule; -> reports of every operation, nested ones included."""
    sched = core.Sched(case.get('schedule') or ())
    try:
        w = build_world(case, sched)
    except Refused as e:
        return {'refused': str(e)}
    tops = []

    def body(t):
        def run():
            for j, spec in enumerate(case['threads'][t]):
                tops.append((t, j, core.do_op(w, spec, '#%d.%d#' % (t, j))))

        return run

    sched.run([body(t) for t in range(len(case['threads']))])
    reps = []
    for t, j, top in tops:
        for op in all_ops(top):
            reps.append([op.key, op.spec, core.op_report(op)])
    reps.sort(key=lambda x: x[0])
    return {'reports': reps, 'stats': w.stats, 'switches': sched.switches, 'trace': sched.trace,
            'overflow': w.overflow}


def exec_single(case, spec):
    w = world_for(case)
    w.reference = True
    try:
        for i, k in sorted(used_schemas({'threads': [[spec]]})):
            (w.serializer if k == 'ser' else w.validator)(i)
    except Exception as e:  # noqa: BLE001
        return {'refused': str(e)[:200]}
    op = core.do_op(w, spec, '#ref#')
    return {'report': core.op_report(op), 'overflow': w.overflow}


def strip_nested(spec):
    """The operation as its own caller sees it: what other calls did during its callbacks is not its business."""
    if not spec.get('faults'):
        return spec
    s = dict(spec)
    s['faults'] = {k: f for k, f in spec['faults'].items() if f['k'] not in ('nested', 'gc')}
    return s


def isolated(case, spec, cache=None):
    """The report of one operation executed alone, on freshly built objects, in a pristine process."""
    s = strip_nested(spec)
    key = json.dumps(s, sort_keys=True)
    if cache is not None and key in cache:
        return cache[key]
    r = core.forked(lambda: exec_single(case, s))
    if cache is not None:
        cache[key] = r
    return r


def isolated_batch(case, specs):
    """Isolated executions of several operations: fresh objects for each, one pristine process for all of them."""
    keys = {}
    for spec in specs:
        s = strip_nested(spec)
        keys.setdefault(json.dumps(s, sort_keys=True), s)
    st, v = core.forked(lambda: [[k, exec_single(case, s)] for k, s in keys.items()])
    if st != 'ok':
        return {}  # the caller falls back to one process per operation
    return {k: ('ok', r) for k, r in v}


def first_diff(a, b, path='$'):
    if type(a) is not type(b):
        return '%s: %s | %s' % (path, json.dumps(a)[:300], json.dumps(b)[:300])
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_diff(a.get(k), b.get(k), path + '.' + str(k))
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, '%s[%d]' % (path, i))
        if len(a) != len(b):
            longer = a if len(a) > len(b) else b
            return '%s: lengths %d | %d, next %s' % (path, len(a), len(b), json.dumps(longer[min(len(a), len(b))])[:300])
    return '%s: %s | %s' % (path, json.dumps(a)[:400], json.dumps(b)[:400])


def has_panic(x):
    return "'PANIC'" in repr(x) or 'PanicException' in repr(x)


def history_run(case, cpu=40, batch=False):
    """Executes a history and compares every operation with its isolated execution."""
    st, v = core.forked(lambda: exec_history(case), cpu=cpu)
    if st == 'error':
        raise core.HarnessError(v)
    if st in ('died', 'timeout'):
        return {'viol': ['crash' if st == 'died' else 'hang', 'the process running the history %s (%s)' % (st, v), None],
                'stats': {}, 'trace': [st, v]}
    if v.get('refused') or v['overflow']:
        return {'viol': None, 'stats': {'discard:' + ('refused' if v.get('refused') else 'budget'): 1}, 'discard': True}
    stats = dict(v['stats'])
    stats['switches'] = v['switches']
    cache = isolated_batch(case, [spec for _, spec, _ in v['reports']]) if batch else {}
    viol = None
    trace = [[k, r] for k, _, r in v['reports']] + [v['trace']]
    for key, spec, rep in v['reports']:
        if has_panic(rep['result']):
            viol = ['panic', '%s: %s' % (key, json.dumps(rep['result'])[:600]), [key]]
            break
        st, ref = isolated(case, spec, cache)
        if st == 'error':
            raise core.HarnessError(ref)
        if st in ('died', 'timeout'):
            viol = ['crash-alone' if st == 'died' else 'hang-alone', 'operation %s alone: %s %s' % (key, st, ref), [key]]
            break
        if ref.get('refused') or ref['overflow']:
            continue
        if has_panic(ref['report']['result']):
            viol = ['panic', '%s alone: %s' % (key, json.dumps(ref['report']['result'])[:600]), [key]]
            break
        if rep != ref['report']:
            viol = ['differs', 'operation %s (%s) differs from the same operation alone; in history | alone: %s' % (
                key, spec['k'] + ':' + str(spec.get('m')), first_diff(rep, ref['report'])), [key]]
            break
        stats['compared'] = stats.get('compared', 0) + 1
        if rep['log']:
            stats['compared_with_callbacks'] = stats.get('compared_with_callbacks', 0) + 1
        stats['outcome:' + rep['result'][0]] = stats.get('outcome:' + rep['result'][0], 0) + 1
    return {'viol': viol, 'stats': stats, 'trace': trace, 'state': state_digest(case, v)}


def types_in(x, out=None):
    out = set() if out is None else out
    if isinstance(x, dict):
        t = x.get('type')
        if isinstance(t, str):
            out.add(t)
        for y in x.values():
            types_in(y, out)
    elif isinstance(x, list):
        for y in x:
            types_in(y, out)
    return out


def state_digest(case, v):
    sig = [sorted(types_in(case['schemas'])), [[r['result'][0], len(r['log']), r['fired']] for _, _, r in v['reports']],
           v['trace']]
    return core.digest(sig)


def attachable(x, out=None):
    """The schemas of models and dataclasses inside a schema which can be built on their own."""
    out = [] if out is None else out
    if isinstance(x, list):
        for y in x:
            attachable(y, out)
    elif isinstance(x, dict):
        if x.get('type') in ('model', 'dataclass') and isinstance(x.get('cls'), dict) and '$cls' in x['cls'] \
                and 'definition-ref' not in types_in(x) and 'generic_origin' not in x:
            out.append(x)
        for y in x.values():
            attachable(y, out)
    return out
