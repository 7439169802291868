"""C16: a validator or serializer is the same however it came to be: built, taken prebuilt from its class, copied, or
restored after a crash from its pickle; so are the errors and values which outlive the process."""
import copy
import io
import os
import pickle
import signal

import core
import driver
import gen
import ops
import pydantic_core as pc

MODES = ['pickle', 'pickle', 'pickle', 'copy', 'deepcopy', 'again', 'prebuilt', 'prebuilt']


class Pickler(pickle.Pickler):
    """Functions and classes of the simulated world stay where they are, as those of a module would."""

    def __init__(self, f, proto, w):
        super().__init__(f, proto)
        self.ids = {id(o): ('fn', k) for k, o in w.fns.items()}
        self.ids.update({id(o): ('cls', k) for k, o in w.classes.items()})
        self.ids.update({id(o): ('sentinel', k) for k, o in w.sentinels.items()})
        self.ids[id(w)] = ('world', 0)

    def persistent_id(self, o):
        return self.ids.get(id(o))


class Unpickler(pickle.Unpickler):
    def __init__(self, f, w):
        super().__init__(f)
        self.w = w

    def persistent_load(self, pid):
        k, x = pid
        w = self.w
        if k == 'fn' and isinstance(x, tuple):
            return w.callable_obj(x[1])
        if k in ('fn', 'cls') and str(x) not in w.case.get({'fn': 'fns', 'cls': 'classes'}[k], {}):
            raise core.HarnessError('no %s %s' % pid)
        return w.fn(x) if k == 'fn' else w.cls(x) if k == 'cls' else w.sentinel(x) if k == 'sentinel' else w


def dumps(o, proto, w):
    f = io.BytesIO()
    Pickler(f, proto, w).dump(o)
    return f.getvalue()


def loads(b, w):
    return Unpickler(io.BytesIO(b), w).load()


class World(core.World):
    crash_at = None
    fires = 0

    def fire(self, fid, point, payload=None, ctl=None):
        if self.crash_at is not None:
            self.fires += 1
            if self.fires > self.crash_at:
                os.kill(os.getpid(), signal.SIGKILL)
        return super().fire(fid, point, payload, ctl)


def new_world(case, build=True):
    w = World(case)
    core.install_warnings(w)
    if build:
        try:
            ops.prebuild(w, ops.used_schemas(case))
        except core.HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            if core.is_panic(e):
                raise
            raise ops.Refused(str(e)[:200])
    return w


class C16(driver.Check):
    pid = 'C16'
    runs = {'quick': 7000, 'thorough': 400000}
    wall = {'quick': 70, 'thorough': 3000}
    rule = ('case = schemas and a history of 2-5 operations with injected exceptions; one process runs it with what '
            'was built from the schemas; others run it with validators and serializers which were pickled (after some '
            'of the operations; the process is then killed at a callback of the next one) and restored, up to three '
            'times, in a new process, copied, built again from the same schema objects, or assembled from prebuilt '
            'ones of the classes: all reports must be the same. Errors and values made before the crash and restored after '
            'it must be equal in all they show; distinct = distinct (schema types, outcomes, way of making)')
    assumptions = ['functions and classes are restored by name, as pickle does with importable ones',
                   'values holding anything which cannot be pickled are skipped']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, ser_rate=rng.choice([0, 0.2, 0.4]), fn_rate=rng.choice([0, 0.15, 0.4]),
                    max_depth=rng.choice([2, 3, 3, 4]))
        mode = rng.choice(MODES)
        entries = [g.entry(recursive=0.15 if mode != 'prebuilt' else 0.05) for _ in range(rng.choice([1, 1, 2]))]
        if mode == 'prebuilt':
            for e in entries:
                if g.p(0.7):
                    e['s'] = around(g, (g.model if g.p(0.6) else g.dataclass)(rng.choice([1, 2])))
        og = ops.OpGen(g, entries, share=0)
        hist = []
        kinds = ['python', 'python', 'python', 'json', 'ser', 'ser', 'serjson', 'strings', 'default', 'vs', 'isinstance']
        if mode == 'prebuilt':
            kinds += ['assign', 'assign', 'init']
        else:
            kinds.append('repr')
        for _ in range(rng.choice([2, 3, 4, 5])):
            hist.append(ops.add_faults(g, og.op(kinds=kinds), 0.3))
        case = {'classes': g.classes, 'fns': g.fns, 'schemas': entries, 'inputs': og.inputs, 'threads': [hist],
                'mode': mode, 'at': rng.randrange(0, len(hist)), 'proto': rng.choice([2, 3, 4, 5, 5]),
                'gens': rng.choice([1, 1, 2, 3]), 'crash': rng.choice([None, 0, 1, 3])}
        if mode == 'prebuilt' or g.p(0.4):
            case['some'] = rng.randrange(1 << 8)
            if g.p(0.5):
                case['over'] = [g.one(['function-after', 'function-wrap', 'ser']), rng.randrange(1 << 8)]
                case['over'].append(g.fn(
                    {'function-after': 'after', 'function-wrap': 'wrap', 'ser': 'serwrap'}[case['over'][0]],
                    beh=['call'] if case['over'][0] != 'function-after' else ['tag']))
        return case

    def run(self, case):
        return run_case(case)


def around(g, s):
    """A schema with another one inside."""
    for _ in range(g.one([1, 1, 2])):
        k = g.one(['list', 'dict', 'union', 'nullable', 'fn', 'fn', 'tuple', 'chain', 'ser', 'default'])
        if k == 'list':
            s = {'type': 'list', 'items_schema': s}
        elif k == 'dict':
            s = {'type': 'dict', 'values_schema': s}
        elif k == 'tuple':
            s = {'type': 'tuple', 'items_schema': [s, {'type': 'int'}]}
        elif k == 'union':
            s = {'type': 'union', 'choices': g.rng.sample([s, {'type': 'int'}, g.schema(1)], 3)}
            if g.p(0.4):
                s['mode'] = 'left_to_right'
        elif k == 'nullable':
            s = {'type': 'nullable', 'schema': s}
        elif k == 'chain':
            s = {'type': 'chain', 'steps': [s, {'type': 'any'}]}
        elif k == 'default':
            s = {'type': 'default', 'schema': s, 'default': None}
        elif k == 'ser':
            s = {'type': 'any', 'serialization': s} if g.p(0.3) else s
        else:
            s = g.wrap_fn(s, False)
    return s


def run_ops(w, hist, a, b, keep=None):
    reps = []
    for j in range(a, min(b, len(hist))):
        op = core.do_op(w, hist[j], '#0.%d#' % j)
        reps.append(core.op_report(op))
        if keep is not None:
            keep.append(op)
    return reps


def shown(o):
    """Everything an object which was restored shows."""
    if isinstance(o, pc.ValidationError):
        return [o.title, o.error_count(), core.scrub(str(o)), core.norm(o.errors(include_url=False)), js(o)]
    return core.norm(o)


def js(e):
    try:
        return core.scrub(e.json(include_url=False))
    except Exception as x:  # noqa: BLE001
        return [type(x).__name__, core.scrub(str(x))]


def values(op):
    e = getattr(op, 'exc', None)
    if e is not None:
        return e if isinstance(e, (pc.ValidationError, pc.PydanticCustomError, pc.PydanticKnownError)) else None
    return op.raw


def restorable(o, proto, w):
    """Whether everything the value consists of can be pickled, not counting the library's own part in it."""
    if isinstance(o, pc.ValidationError):
        o = o.errors(include_url=False)
    try:
        b = dumps(o, proto, w)
        return shown(loads(b, w)) == shown(o)
    except core.HarnessError:
        raise
    except Exception:  # noqa: BLE001
        return False


def before(case, hist, att):
    """The process which pickles what it uses; -> reports, pickles."""
    w = new_world(case)
    ops.attach(w, att or [])
    kept = []
    reps = run_ops(w, hist, 0, case['at'], kept)
    proto = case.get('proto', 5)
    try:
        blob = dumps([w.validators, w.serializers], proto, w)
        for _ in range(case.get('gens', 1) - 1):
            blob = dumps(loads(blob, w), proto, w)
    except core.HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        if schema_pickles(w, case, proto):
            return {'viol': ['unpicklable', 'validators of schemas which can be pickled: %s: %s' % (
                type(e).__name__, core.scrub(str(e))[:300]), None]}
        return {'skip': True}
    vals = []
    for j, op in enumerate(kept):
        v = values(op)
        if v is None or not restorable(v, proto, w):
            continue
        try:
            b = dumps(v, proto, w)
        except core.HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            return {'viol': ['unpicklable', '%s of operation %d: %s: %s' % (
                type(v).__name__, j, type(e).__name__, core.scrub(str(e))[:300]), [j]]}
        vals.append([j, b, shown(v)])
    return {'reps': reps, 'blob': blob, 'vals': vals, 'stats': w.stats, 'over': w.overflow}


def schema_pickles(w, case, proto):
    try:
        for i, k in ops.used_schemas(case):
            ent = case['schemas'][i]
            loads(dumps([w.schema(ent['s']), w.schema(ent.get('config') or None)], proto, w), w)
        return True
    except core.HarnessError:
        raise
    except Exception:  # noqa: BLE001
        return False


def crash(case, hist, blob, att):
    w = new_world(case, False)
    ops.attach(w, att or [])
    w.validators, w.serializers = loads(blob, w)
    w.crash_at = case.get('crash')
    run_ops(w, hist, case['at'], case['at'] + 1)
    return True


def after(case, hist, blob, vals, att):
    w = new_world(case, False)
    ops.attach(w, att or [])
    try:
        w.validators, w.serializers = loads(blob, w)
    except core.HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        return {'viol': ['unpicklable', 'restoring: %s: %s' % (type(e).__name__, core.scrub(str(e))[:300]), None]}
    for j, b, want in vals:
        try:
            o = loads(b, w)
        except core.HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            return {'viol': ['unpicklable', 'restoring what operation %d gave: %s: %s' % (
                j, type(e).__name__, core.scrub(str(e))[:300]), [j]]}
        got = shown(o)
        if got != want:
            return {'viol': ['restored', 'what operation %d gave, restored | made: %s' % (
                j, ops.first_diff(got, want)), [j]]}
    return {'reps': run_ops(w, hist, case['at'], len(hist))}


def here(case, hist, att):
    """One process in which the validators are replaced midway."""
    w = new_world(case)
    ops.attach(w, att or [])
    at, mode = case['at'], case['mode']
    reps = run_ops(w, hist, 0, at)
    if mode == 'again':
        for i in w.validators:
            s, c = w.validators[i].__reduce__()[1]
            w.validators[i] = pc.SchemaValidator(s, c)
        for i in w.serializers:
            s, c = w.serializers[i].__reduce__()[1]
            w.serializers[i] = pc.SchemaSerializer(s, c)
    else:
        f = copy.copy if mode == 'copy' else copy.deepcopy
        try:
            w.validators = {i: f(v) for i, v in w.validators.items()}
            w.serializers = {i: f(v) for i, v in w.serializers.items()}
        except core.HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            try:
                for ent in case['schemas']:
                    f(w.schema(ent['s']))
            except Exception:  # noqa: BLE001
                return {'skip': True}
            return {'viol': ['uncopiable', '%s: %s' % (type(e).__name__, core.scrub(str(e))[:300]), None]}
    return {'reps': reps + run_ops(w, hist, at, len(hist)), 'stats': w.stats, 'over': w.overflow}


def over(case, n, m):
    """Validators and serializers of a class with a function around them cannot be used inside others."""
    if not case.get('over') or not case['over'][1] >> (n % 8) & 1:
        return m
    kind, _, f = case['over']
    if kind == 'ser':
        if 'serialization' in m:
            return m
        return {**m, 'serialization': {'type': 'function-wrap', 'function': f}}
    return {'type': kind, 'function': {'type': 'no-info', 'function': f}, 'schema': m}


def attached(case):
    """The models and dataclasses whose validators and serializers are made first."""
    models = [m for m in ops.attachable([e['s'] for e in case['schemas']])]
    att, seen = [], {}
    for n, m in enumerate(models):
        c = m['cls']['$cls']
        if c in seen and seen[c] != m:
            return None  # one class, two schemas: no prebuilt one fits both
        if c not in seen and case.get('some', 0) >> (n % 8) & 1:
            att.append([c, over(case, n, m)])
        seen[c] = m
    if not att and models:
        att.append([models[0]['cls']['$cls'], over(case, 0, models[0])])
    return att or None


def with_prebuilt(case, hist, att):
    w = new_world(dict(case, attach=att))
    return {'reps': run_ops(w, hist, 0, len(hist)), 'stats': w.stats, 'over': w.overflow}


def plain(case, hist, att):
    w = new_world(case)
    if att:  # the classes have theirs, made when it was too late to use them
        ops.attach(w, att)
    return {'reps': run_ops(w, hist, 0, len(hist)), 'over': w.overflow, 'stats': w.stats}


def child(fn):
    def body():
        try:
            return fn()
        except ops.Refused:
            return {'skip': True}

    st, v = core.forked(body)
    if st == 'error':
        raise core.HarnessError(v)
    if st in ('died', 'timeout'):
        return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None]}
    return v


def run_case(case):
    case = {k: v for k, v in case.items()}
    hist = case['threads'][0]
    case['at'] = min(case.get('at', 0), len(hist))
    stats = {'mode:' + case.setdefault('mode', 'pickle'): 1}
    discard = {'viol': None, 'stats': {'discard': 1}, 'discard': True}

    def bad(v):
        return {'viol': v, 'stats': stats, 'trace': [v[0]]}

    att = attached(case) if 'some' in case else None
    if not att and case['mode'] == 'prebuilt':
        return discard
    if att:
        stats['attached'] = 1
    ref = child(lambda: plain(case, hist, att))
    if ref.get('viol'):
        return bad(ref['viol'])
    if ref.get('skip') or ref['over']:
        return discard
    for a, b in ref['stats'].items():
        stats[a] = stats.get(a, 0) + b
    if case['mode'] == 'pickle':
        a = child(lambda: before(case, hist, att))
        if a.get('viol'):
            return bad(a['viol'])
        if a.get('skip'):
            return discard
        if case.get('crash') is not None and case['at'] < len(hist):
            st, _ = core.forked(lambda: crash(case, hist, a['blob'], att))
            stats['fault:crash'] = 1
            stats['crash:' + st] = 1
        b = child(lambda: after(case, hist, a['blob'], a['vals'], att))
        if b.get('viol'):
            return bad(b['viol'])
        stats['restored'] = len(a['vals'])
        reps = a['reps'] + b['reps']
    else:
        a = child(lambda: with_prebuilt(case, hist, att) if case['mode'] == 'prebuilt' else here(case, hist, att))
        if a.get('viol'):
            return bad(a['viol'])
        if a.get('skip'):
            return discard
        reps = a['reps']
    for j, (x, y) in enumerate(zip(reps, ref['reps'])):
        if x != y:
            return bad(['differs', 'operation %d (%s %s), %s | built: %s' % (
                j, hist[j]['k'], hist[j].get('m'), case['mode'], ops.first_diff(x, y)), [j]])
        stats['compared'] = stats.get('compared', 0) + 1
    sig = [case['mode'], case.get('gens', 1), sorted(ops.types_in(case['schemas'])),
           [[r['result'][0], len(r['log']), r['fired']] for r in reps]]
    return {'viol': None, 'stats': stats, 'trace': [core.digest(reps)], 'state': core.digest(sig)}


CHECK = C16()
